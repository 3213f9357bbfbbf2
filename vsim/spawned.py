"""Entry point of a rank that runs in an interpreter of its own."""
import os
import pickle
import socket
import sys
import types


def main():
    with open(sys.argv[1], "rb") as f:
        d = pickle.load(f)
    import jax

    jax.config.update("jax_cpu_enable_async_dispatch", False)
    from . import child, fakes, setup

    setup.imports()
    import importlib

    for m in d["plan"].get("programs", []):
        importlib.import_module(m)
    sim = types.SimpleNamespace(plan=d["plan"], root=d["root"], prefix=os.path.join(d["root"], "fs"), inc=d["inc"], sockpath=d["sockpath"],
                                shim=d["shim"], uid=d["uid"], knobs=d["knobs"], seed=d["seed"], mode="spawn")
    a = types.SimpleNamespace(aid=d["aid"], name=d["name"], rank=d["rank"], job=types.SimpleNamespace(spec=d["spec"]))
    child.child_main(sim, a, socket.socket(fileno=d["fd"]))


main()
