#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vsim import runner, setup  # noqa: E402

if sys.argv[1:] == ["--setup"]:
    setup.build()
    sys.exit(0)
if sys.argv[1:2] == ["--worker"]:
    prop, tier, seed, group, qfd, wfd, stop = sys.argv[2:]
    sys.exit(runner.worker_main(prop, tier, int(seed), group, int(qfd), int(wfd), float(stop)))
sys.exit(runner.main(sys.argv[1:]))
