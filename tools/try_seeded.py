"""try_seeded.py [ID ...]: run each planted bug's check (VSIM_REPO) against a
scratch copy of /repo with the bug applied; prints what was found."""
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SEEDED = os.environ.get("SEEDED", "/verif/seeded")
W = os.environ.get("WORK", "/tmp/try_seeded")
for i in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    try:
        subprocess.run(["git", "-C", W, "apply", os.path.join(d, "patch.diff")], check=True)
        for p in [prop] + os.environ.get("ALSO", "").split():
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", os.path.join(V, "check.py"), p, "--tier", "quick"] + os.environ.get("ARGS", "").split(),
                               env=dict(os.environ, VSIM_REPO=W), capture_output=True, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            last = [x for x in r.stdout.splitlines() if x.strip() and not x.startswith("VIOLATION")]
            print(i, p, "CAUGHT" if hit else f"missed rc={r.returncode}", f"{time.time() - t:.0f}s", "|", (last[-2:] if hit else last[-1:] + [r.stderr[-300:]]), flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)
