"""What a forked process does before and after it runs the code under test."""
import builtins
import ctypes
import gc
import os
import random
import runpy
import sys
import time
import traceback
import warnings

import numpy as np

from . import engine, fakes

PROGRAMS = {}  # name -> callable(**kwargs), filled by the families


def program(f):
    PROGRAMS[f.__name__] = f
    return f


class CompileInChild(BaseException):
    pass


def guard_compile():
    """XLA cannot compile in a forked process: report it instead of hanging."""
    try:
        from jax._src.interpreters import mlir
    except ImportError:
        return

    mlir.make_ir_context = need_fresh


def need_fresh(*a, **k):
    tb = "".join(traceback.format_stack(limit=40)[-12:])
    fakes.send_msg(fakes.RT.sock, ("compile", tb))
    fakes.recv_msg(fakes.RT.sock)
    os._exit(97)


def no_isfileobj(f):
    return False


def install_numpy_seam():
    """np.save/np.load use C stdio for real files, below the seam; the Python
    path they use for other file objects writes the same bytes."""
    import numpy.lib._format_impl as fi
    fi.isfileobj = no_isfileobj
    import numpy.lib.format as f
    f.isfileobj = no_isfileobj


def become(sim, a, sock):
    fd = os.open(os.path.join(sim.root, "log", f"i{sim.inc}_{a.name}.txt"), os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o666)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    nul = os.open("/dev/null", os.O_RDONLY)
    os.dup2(nul, 0)
    os.close(nul)
    spec = a.job.spec
    os.umask(0)
    if sim.uid is not None and os.getuid() == 0:
        os.setgroups([])
        os.setgid(sim.uid)
        os.setuid(sim.uid)
        ctypes.CDLL(None).prctl(4, 1, 0, 0, 0)  # PR_SET_DUMPABLE: keep /proc/self readable
    os.environ["VSIM_SOCK"] = sim.sockpath
    os.environ["VSIM_PREFIX"] = sim.prefix
    os.environ["VSIM_ACTOR"] = str(a.aid)
    os.environ["LD_PRELOAD"] = sim.shim
    os.environ["HOME"] = sim.prefix
    os.environ["LC_ALL"] = "C"
    os.chdir(os.path.join(sim.prefix, spec.get("cwd", "")))
    fakes.RT.sock = sock
    fakes.enter_world(spec["nranks"], a.rank)
    if sim.mode == "fork":
        guard_compile()
    install_numpy_seam()
    seed = engine.mix(sim.seed, "rng", sim.inc, a.name)
    np.random.seed(seed & 0xFFFFFFFF)
    random.seed(seed)
    if sim.knobs["buf_size"]:
        real_open, bs, prefix = builtins.open, int(sim.knobs["buf_size"]), sim.prefix

        def small_open(file, mode="r", buffering=-1, *args, **kw):
            f = real_open(file, mode, buffering, *args, **kw)
            try:
                if "b" not in mode:
                    f._CHUNK_SIZE = bs
            except Exception:
                pass
            return f

        builtins.open = small_open
    # the simulated clock
    real = time.time

    def now():
        if sys._getframe(1).f_globals.get("__name__", "").startswith(("jax", "h5py", "numpy")):
            return real()
        return fakes.rpc("time")

    time.time = now
    time.monotonic = now
    time.perf_counter = now
    time.sleep = lambda d: fakes.rpc("sleep", float(d))
    warnings.simplefilter("ignore")
    lib = engine.libshim()
    if lib.vsim_attach(sim.sockpath.encode(), sim.prefix.encode(), a.aid) < 0:
        os._exit(99)


def describe(e):
    return (type(e).__name__, str(e)[:500])


def child_main(sim, a, sock):
    spec = a.job.spec
    become(sim, a, sock)
    code = 0
    result = None
    try:
        prog = spec["program"]
        if prog["kind"] != "script" and prog.get("prelude") and sim.mode == "fork":
            PROGRAMS[prog["prelude"]](**prog.get("prelude_args", {}))
        if prog["kind"] == "script":
            sys.argv = [prog["path"]] + [str(x) for x in prog["argv"]]
            for d in prog.get("sys_path", []):
                sys.path.insert(0, d)
            if prog.get("prelude") and sim.mode == "fork":
                PROGRAMS[prog["prelude"]](**prog.get("prelude_args", {}))
            g = run_script(prog["path"])
            del g
        else:
            result = PROGRAMS[prog["fn"]](**prog.get("args", {}))
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        if code:
            fakes.rpc("exc", ("SystemExit", str(e.code)))
    except BaseException as e:
        traceback.print_exc()
        code = 1
        d = describe(e)
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "vsim" not in f.filename][-3:]
        e = None
        fakes.rpc("exc", d + (where,))
    gc.collect()
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    if code == 0:
        fakes.rpc("done", result)
    os._exit(code)


_CODE = {}


def preload_script(path):
    """Compile the script's source in the zygote (children inherit it)."""
    with open(path, "rb") as f:
        src = f.read()
    _CODE[path] = compile(src, path, "exec")


def run_script(path):
    if path not in _CODE:
        return runpy.run_path(path, run_name="__main__")
    import types
    m = types.ModuleType("__main__")
    m.__file__ = path
    m.__builtins__ = builtins
    sys.modules["__main__"] = m
    exec(_CODE[path], m.__dict__)
    return m
