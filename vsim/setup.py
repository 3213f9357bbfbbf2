"""Environment of every process of a check."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
PY = "/opt/venv/bin/python"
SHIM = os.path.join(VERIF, "build", "libvsim.so")


def build():
    """Compile the file-system seam unless it is there already."""
    import fcntl
    import subprocess

    src = os.path.join(VERIF, "vsim", "shim.c")
    os.makedirs(os.path.dirname(SHIM), exist_ok=True)
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src):
            return
        tmp = SHIM + f".{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], check=True)
        os.replace(tmp, SHIM)


def enter(shim=True):
    """Re-execute with a fixed environment; returns in the final process."""
    want = dict(JAX_PLATFORMS="cpu", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                HDF5_USE_FILE_LOCKING="TRUE", LC_ALL="C", PYTHONUNBUFFERED="1", TF_CPP_MIN_LOG_LEVEL="3",
                PYTHONHASHSEED=os.environ.get("VSIM_HASHSEED", "0"))
    if shim:
        build()
        want["LD_PRELOAD"] = SHIM
    if any(os.environ.get(k) != v for k, v in want.items()) or os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv":
        if os.environ.get("VSIM_ENTERED"):
            raise SystemExit("could not set up the environment")
        env = dict(os.environ, VSIM_ENTERED="1", **want)
        for k in ("PYTHONPATH", "VSIM_SOCK", "VSIM_PREFIX", "VSIM_ACTOR", "XLA_FLAGS"):
            env.pop(k, None)
        os.execve(PY, [PY, "-B"] + sys.argv, env)
    os.environ.pop("VSIM_ENTERED", None)


def imports():
    """Stand-ins first, then the code under test."""
    sys.path[:0] = [p for p in (VERIF, REPO) if p not in sys.path]
    from . import fakes

    fakes.install_all()
    import warnings

    warnings.filterwarnings("ignore")
    import jax

    jax.config.update("jax_cpu_enable_async_dispatch", False)


def scratch():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return "/tmp"
