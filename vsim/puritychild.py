"""One simulated history of calls, in an interpreter of its own.

Reads a plan (JSON) on stdin, plays its episodes and writes what every call
returned.  An episode has one or more caller threads; exactly one runs at any
moment, and at every executed source line of diffmah the seeded scheduler may
hand over to another.  A call may be cancelled: an exception is raised inside
it at its k-th line."""
import copy
import hashlib
import json
import os
import random
import sys
import threading
import time
import types

import numpy as np

MARK = os.sep + "diffmah" + os.sep


# ------------------------------------------------------------------ the calls
def halo(seed, kind):
    r = np.random.RandomState(seed)
    n = 30
    t = np.linspace(0.5, 13.8, n)
    lg = r.uniform(11, 14.5) + r.uniform(1, 4) * np.log10(t / t[-1]) - r.uniform(0, 4) * (1 - t / t[-1]) ** 2
    if kind == "noisy":
        lg = np.maximum.accumulate(lg + r.normal(0, 0.1, n))
    elif kind == "early":
        lg = np.minimum(lg, lg[18])
    elif kind == "short":
        lg[:-2] = 5.0
    mah = 10 ** lg
    if kind == "zeros":
        mah[:12] = 0
    if kind == "dip":
        mah[20] *= 1.3
    return t, mah


def pop(seed, n):
    from diffmah import diffmah_kernels as dk
    r = np.random.RandomState(seed)
    return dk.DiffmahParams(r.uniform(11, 15, n), r.uniform(-0.3, 0.5, n), r.uniform(2, 4, n), r.uniform(0.1, 1, n), r.uniform(3, 14, n))


def bad_objective(fail_p, dim, primary=False):
    """primary: of no use to the primary optimizer, so that the fallback runs."""
    state = dict(n=0)

    def f(p, data):
        x = np.array(p, float)
        state["n"] += 1
        v = np.float32(np.sum((x - data[0]) ** 2) + 0.25)
        if state["n"] in fail_p:
            v = np.float32(np.nan)
        if primary and np.asarray(p).dtype == np.float64:
            v = v - np.float32(10)
        return v, (2 * (x - data[0])).astype("f4")
    return f


def menu():
    """list of (name, builder); builder(workdir) -> (callable, args, kwargs)"""
    M = []

    def add(name, variants, b):
        for v in range(variants):
            M.append((f"{name}#{v}", b, v))

    LGT0 = np.log10(13.8)

    def dk():
        from diffmah import diffmah_kernels
        return diffmah_kernels

    def fh():
        from diffmah.fitting_helpers import diffmah_fitter_helpers
        return diffmah_fitter_helpers

    def b(v, w):
        import diffmah
        p = dk().DiffmahParams(*[float(x[v]) for x in pop(5, 4)])
        return diffmah.mah_singlehalo, (p, np.linspace(0.3, 13.8, 12 + 5 * (v % 2)), LGT0), {}
    add("mah_singlehalo", 3, b)

    def b(v, w):
        import diffmah
        return diffmah.mah_halopop, (pop(6 + v, 7), np.linspace(0.3, 13.8, 11), LGT0), {}
    add("mah_halopop", 2, b)

    def b(v, w):
        import diffmah
        return diffmah.logmh_at_t_obs, (pop(9, 5), np.linspace(2, 13, 5) + v, LGT0), {}
    add("logmh_at_t_obs", 2, b)

    def b(v, w):
        k = dk()
        if v == 0:
            return k.get_bounded_mah_params, (k.DEFAULT_MAH_U_PARAMS,), {}
        return k.get_unbounded_mah_params, (k.DEFAULT_MAH_PARAMS._replace(logm0=11.0 + v),), {}
    add("mah_params", 3, b)

    kinds = ["smooth", "noisy", "early", "short", "zeros", "dip", "noisy", "smooth"]

    def b(v, w):
        t, m = halo(20 + v, kinds[v])
        kw = [dict(), dict(lgm_min=10.5), dict(), dict(), dict(nstep=10), dict(dlogm_cut=1.0), dict(tpeak_fixed=9.0), dict(force_skip_fit=True)][v]

        def fit(t, m, **kw):
            f = fh()
            r = f.diffmah_fitter(t, m, **kw)
            return r, f.get_outline(r), f.get_outline(r, halo_id=77)
        return fit, (t, m), kw
    add("diffmah_fitter", 8, b)

    def b(v, w):
        t, m = halo(40 + v, kinds[v])
        return fh().get_loss_data, (t, m), [dict(), dict(t_fit_min=3.0)][v]
    add("get_loss_data", 2, b)

    def b(v, w):
        from diffmah.fitting_helpers.bfgs_wrapper import bfgs_adam_fallback
        d = 2 + v
        return bfgs_adam_fallback, (bad_objective([set(), {15}, set(), {70}][v], d, v != 2), np.linspace(-1, 1, d).astype("f4"), (np.linspace(0, 2, d),)), dict(nstep=12 + v, n_warmup=v % 2)
    add("bfgs_adam_fallback", 4, b)

    def b(v, w):
        from diffmah.fitting_helpers.fit_utils import jax_adam_wrapper
        d = 3
        return jax_adam_wrapper, (bad_objective([set(), {7}, {1}][v], d), np.linspace(-1, 1, d).astype("f4"), (np.linspace(0, 2, d),), 9 + v), dict(n_warmup=v, warmup_n_step=4, step_size=0.05)
    add("jax_adam_wrapper", 3, b)

    def b(v, w):
        x = np.linspace(0.2, 0.95, 20)
        y = np.exp(-0.5 * ((x - 0.6) / 0.2) ** 2) * (1.5 + v)
        if v == 0:
            from diffmah.diffmahpop_kernels.t_peak_kernels.utp_pdf_kernels import t_peak_fitter
            return t_peak_fitter, (x, y), {}
        from diffmah.diffmahpop_kernels.t_peak_kernels.tp_pdf_cens import t_peak_cens_fitter
        return t_peak_cens_fitter, (x * 13.8, y / 13.8, 13.8), {}
    add("t_peak_fitter", 2, b)

    def b(v, w):
        from importlib import import_module
        m = import_module("diffmah.diffmahpop_kernels." + ["bimod_logm0_kernels.logm0_c0_early", "bimod_logm0_sats.logm0_c1_late"][v])
        tp = np.linspace(1, 9, 12)
        data = [(9.0, tp, 0.3 * np.cos(tp) + v)]
        return getattr(m, ["fit_global_c0_model", "fit_global_c1_model"][v]), (data,), {}
    add("fit_global", 2, b)

    def key(s):
        from jax import random as jran
        return jran.key(s)

    def DP():
        from diffmah.diffmahpop_kernels import bimod_censat_params
        return bimod_censat_params

    for kind in ("cen", "sat"):
        def b(v, w, kind=kind):
            from importlib import import_module
            m = import_module(f"diffmah.diffmahpop_kernels.mc_bimod_{kind}s")
            n = 5
            lgm = np.linspace(11.5, 14.5, n) + 0.1 * v
            tobs = np.linspace(4, 13, n)
            kw = dict(t_peak=np.linspace(2, 3.5, n)) if v == 2 else {}
            return getattr(m, f"mc_diffmah_{kind}pop"), (DP().DEFAULT_DIFFMAHPOP_PARAMS, lgm, tobs, key(v % 2), LGT0), kw
        add(f"mc_diffmah_{kind}pop", 3, b)

        def b(v, w, kind=kind):
            from importlib import import_module
            m = import_module(f"diffmah.diffmahpop_kernels.mc_bimod_{kind}s")
            n = 5
            P = DP().DEFAULT_DIFFMAHPOP_PARAMS
            if v == 2:
                P = P._replace(**{P._fields[0]: float(P[0]) * 1.01})
            return getattr(m, f"mc_{kind}pop"), (P, np.linspace(0.5, 13.8, 8), np.linspace(11.5, 14.5, n), np.linspace(4, 13, n), key(3 + v % 2), LGT0), {}
        add(f"mc_{kind}pop", 3, b)

        def b(v, w, kind=kind):
            from importlib import import_module
            m = import_module(f"diffmah.diffmahpop_kernels.mc_bimod_{kind}s")
            return m.predict_mah_moments_singlebin, (DP().DEFAULT_DIFFMAHPOP_PARAMS, np.linspace(0.5, 10, 7), 12.5 + v, 10.0, key(5), LGT0), {}
        add(f"predict_{kind}", 1, b)

    def b(v, w):
        d = DP()
        return [(d.get_component_model_params, (d.DEFAULT_DIFFMAHPOP_PARAMS,), {}), (d.get_diffmahpop_params_from_u_params, (d.DEFAULT_DIFFMAHPOP_U_PARAMS,), {}),
                (d.get_diffmahpop_u_params_from_params, (d.DEFAULT_DIFFMAHPOP_PARAMS,), {}),
                (d.get_varied_params_by_exclusion, (d.DEFAULT_DIFFMAHPOP_PARAMS, list(d.DEFAULT_DIFFMAHPOP_PARAMS._fields[3:20])), {}),
                (d.get_varied_params_by_exclusion, (d.DEFAULT_DIFFMAHPOP_PARAMS, [d.DEFAULT_DIFFMAHPOP_PARAMS._fields[1]]), {})][v]
    add("diffmahpop_params", 5, b)

    def b(v, w):
        from diffmah.fitting_helpers.measure_mahs import get_clean_sample_mask, measure_target_data
        r = np.random.RandomState(60 + v)
        lm = 12 + np.cumsum(r.uniform(0, 0.1, (40, 10)), axis=1)
        lm[3] += np.linspace(4, 0, 10)
        if v < 2:
            return get_clean_sample_mask, (lm, 12.0 + v, 2 + v), dict(z_cut=2 + v)
        return measure_target_data, (10 ** lm, np.exp(r.normal(0, 1, lm.shape)), np.linspace(0, 1.1, 10), np.linspace(0.2, 1.0, 6), 12.0 + v), {}
    add("measure", 4, b)

    def b(v, w):
        from diffmah.diffmahpop_kernels.load_diffmahpop_fitdata import rescale_target_log_mahs
        r = np.random.RandomState(70 + v)
        return rescale_target_log_mahs, (np.sort(r.uniform(10, 12, (6, 9))), 12.0 + v), {}
    add("rescale", 1, b)

    def b(v, w):
        from diffmah.diffmahpop_kernels.param_utils import mc_select_diffmah_params
        return mc_select_diffmah_params, (pop(1, 6), pop(2, 6), np.array([0, 1, 1, 0, 1, 0], bool)), {}
    add("mc_select", 1, b)

    def b(v, w):
        from diffmah import utils as u
        r = np.random.RandomState(80)
        x = r.normal(0, 1, 50)
        c = np.array([[1, 0.3, 0.1], [0.3, 1, 0.2], [0.1, 0.2, 1.0]])
        return [(u.get_1d_arrays, (1.0, np.arange(4.0), np.float32(3)), {}), (u.get_1d_arrays, (np.arange(3.0), 2), dict(jax_arrays=True)), (u.get_dt_array, (np.sort(np.abs(x)),), {}),
                (u.get_cholesky_from_params, (x[:6],), {}), (u.trimmed_mean, (x, 0.1), {}), (u.trimmed_mean_and_variance, (x, 0.1), {}),
                (u.covariance_from_correlation, (c, np.array([1.0, 2, 3])), {}), (u.correlation_from_covariance, (c * 2,), {})][v]
    add("utils", 8, b)

    def b(v, w):
        from diffmah.data_loaders import io_utils
        fn = os.path.join(INP, "nested.h5" if v == 3 else "flat.h5")
        return io_utils.load_flat_hdf5, (fn,), [dict(), dict(istart=3, iend=9), dict(keys=["b"]), dict(dataset="grp"), dict(istart=2, keys=["a", "i"])][v]
    add("load_flat_hdf5", 5, b)

    def b(v, w):
        from diffmah.data_loaders import io_utils
        if v == 0:
            return io_utils.load_namedtuple_from_hdf5, (os.path.join(INP, "nt.h5"),), {}
        from collections import namedtuple
        nt = namedtuple("Zoo", ["z", "a", "m"][: 1 + v])(*[np.arange(2.0) + k for k in range(1 + v)])
        out = os.path.join(w, "out.h5")

        def roundtrip(nt, fn):
            io_utils.write_namedtuple_to_hdf5(nt, fn)
            return io_utils.load_namedtuple_from_hdf5(fn)
        return roundtrip, (nt, out), {}
    add("namedtuple_hdf5", 3, b)

    def b(v, w):
        from diffmah.data_loaders import load_galacticus_eps_mahs as g
        fn = os.path.join(INP, "gal.h5")
        return [(g.extract_galacticus_mah_tables, (fn,), {}), (g.extract_galacticus_mah_tables, (fn,), dict(istart=2, iend=5)), (g.get_nhalos_tot, (fn,), {})][v]
    add("galacticus", 3, b)

    def b(v, w):
        out = os.path.join(w, "coll.h5")
        rows = np.array([fh_row(k + v) for k in range(4)])

        def collate(fn, rows):
            import h5py
            fh().write_collated_data(fn, rows)
            with h5py.File(fn, "r") as h:
                return {k: h[k][...] for k in sorted(h)}
        return collate, (out, rows), {}
    add("write_collated_data", 2, b)
    return M


def fh_row(k):
    r = np.random.RandomState(200 + k)
    return ["{:.5e}".format(x) for x in r.uniform(1, 14, 6)] + [str(k), "0"]


INP = None


def make_inputs(d):
    global INP
    import h5py
    from collections import namedtuple  # noqa: F401
    INP = d
    r = np.random.RandomState(3)
    for fn in ("flat.h5", "nested.h5"):
        with h5py.File(os.path.join(d, fn), "w") as h:
            g = h if fn == "flat.h5" else h.create_group("grp")
            g["a"] = r.uniform(0, 1, 12)
            g["b"] = r.uniform(0, 1, (12, 3)).astype("f4")
            g["i"] = np.arange(12)
    with h5py.File(os.path.join(d, "nt.h5"), "w") as h:
        for k in ("q", "a"):
            h[k] = r.uniform(0, 1, 3)
        h.attrs["colnames"] = ["q", "a"]
    try:
        from diffmah.data_loaders import io_utils
        from collections import namedtuple as nt
        io_utils.write_namedtuple_to_hdf5(nt("N", ["q", "a"])(r.uniform(0, 1, 3), 2.5), os.path.join(d, "nt.h5"))
    except ImportError:
        pass
    with h5py.File(os.path.join(d, "gal.h5"), "w") as h:
        g = h.create_group("Outputs/Output1/nodeData")
        g["haloAccretionHistoryMass"] = r.uniform(1e9, 1e12, (6, 4))[:, 0]
        g["haloAccretionHistoryTime"] = r.uniform(0, 13, 6)
        g["nodeIsIsolated"] = r.randint(0, 2, 6)
        g["basicTimeLastIsolated"] = r.uniform(0, 13, 6)


# ------------------------------------------------------------------ digests
def canon(x, h, seen=0):
    if isinstance(x, types.FunctionType):
        h.update(b"fn")
        return
    if isinstance(x, dict):
        h.update(f"d{type(x).__name__}{len(x)}".encode())
        for k in x:
            canon(k, h)
            canon(x[k], h)
        return
    if isinstance(x, (list, tuple)):
        h.update(f"{type(x).__name__}{len(x)}{getattr(x, '_fields', '')}".encode())
        for y in x:
            canon(y, h)
        return
    if isinstance(x, (str, bytes, bool, int, type(None))):
        h.update(f"{type(x).__name__}:{x!r}".encode())
        return
    if type(x).__name__ == "DiffmahFitResult":
        canon(tuple(x), h)
        return
    try:
        import jax
        if isinstance(x, jax.Array) and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
            x = jax.random.key_data(x)
    except Exception:
        pass
    a = np.asarray(x)
    h.update(f"{a.dtype}{a.shape}".encode())
    h.update(np.ascontiguousarray(a).tobytes() if a.dtype != object else repr(x).encode())


def dig(x):
    h = hashlib.sha256()
    canon(x, h)
    return h.hexdigest()[:20]


def brief(x):
    try:
        if isinstance(x, tuple) and len(x) > 6:
            x = x[:6]
        return repr(x)[:400]
    except Exception:
        return "?"


DEF = ("DEFAULT", "PARAMS", "BOUNDS", "PDICT", "PBDICT", "COLNAMES", "HEADER")


def snapshot():
    out = {}
    for mn, m in sorted(sys.modules.items()):
        if mn == "diffmah" or mn.startswith("diffmah."):
            if ".tests" in mn or m is None:
                continue
            for k, v in list(vars(m).items()):
                u = k.lstrip("_")
                if u.isupper() and any(d in u for d in DEF) and isinstance(v, (dict, list, tuple, str, float, int)):
                    out[mn + "." + k] = dig(v)
    return out


def rng_state():
    s = np.random.get_state()
    return dig((s[0], s[1], s[2], s[3], s[4])) + dig(random.getstate())


# ------------------------------------------------------------------ scheduler
class Cancelled(BaseException):
    pass


EXC = dict(cancel=Cancelled, keyboard=KeyboardInterrupt, memory=MemoryError, runtime=RuntimeError, os=OSError)


class Sched:
    def __init__(self, plan):
        self.rng = random.Random(plan["seed"])
        self.p = plan.get("p", 0.2)
        self.explicit = None if plan.get("switches") is None else {int(k): v for k, v in plan["switches"].items()}
        self.h = hashlib.sha256()
        self.choices = self.steps = 0
        self.log = []
        self.fired = {}
        self.lines = set()


def trace_clean():
    import jax
    try:
        return jax.core.trace_state_clean()
    except AttributeError:
        from jax._src import core
        return core.trace_state_clean()


class Thread:
    def __init__(self, ep, idx, calls):
        self.ep, self.idx, self.calls = ep, idx, calls
        self.go = threading.Event()
        self.done = self.blocked = False
        self.call = None
        self.nline = 0
        self.t = threading.Thread(target=self.main, daemon=True)

    # -- tracing
    def tracer(self, fr, ev, arg):
        if MARK in fr.f_code.co_filename and fr.f_code.co_filename.startswith(ROOT):
            return self.line
        return None

    def line(self, fr, ev, arg):
        if ev != "line":
            return self.line
        s = self.ep.s
        self.nline += 1
        c = self.call.get("cancel")
        s.lines.add((fr.f_code.co_filename[-30:], fr.f_lineno))
        if c and self.nline == c["n"]:
            s.fired[c["exc"]] = s.fired.get(c["exc"], 0) + 1
            self.was_cancelled = True
            raise EXC[c["exc"]]("injected")
        if len(self.ep.threads) > 1 and trace_clean():
            self.ep.point(self)
        return self.line

    def main(self):
        self.go.wait()
        self.go.clear()
        try:
            for k, call in enumerate(self.calls):
                self.one(k, call)
        finally:
            self.done = True
            self.ep.finish(self)

    def one(self, k, call):
        self.call, self.nline, self.was_cancelled = call, 0, False
        name, b, v = MENU[call["i"]]
        w = os.path.join(WORK, f"e{self.ep.idx}t{self.idx}c{k}")
        os.mkdir(w)
        fn, args, kw = b(v, w)
        before = dig([a for a in args if not callable(a)]) + dig(kw)
        r = dict(e=self.ep.idx, t=self.idx, k=k, name=name, i=call["i"])
        t0 = time.monotonic()
        sys.settrace(self.tracer)
        try:
            out = fn(*args, **kw)
        except BaseException as e:
            sys.settrace(None)
            r["raised"] = f"{type(e).__name__}: {str(e)[:300]}"
        else:
            sys.settrace(None)
            r["dig"] = dig(out)
            r["brief"] = brief(out)
        if dig([a for a in args if not callable(a)]) + dig(kw) != before:
            r["inputs_changed"] = 1
        if "dig" in r and call.get("scribble"):  # the caller owns what it was given
            scribble(out)
        if "VSIM_TIMES" in os.environ:
            r["dt"] = time.monotonic() - t0
        r["nlines"] = self.nline
        r["cancelled"] = self.was_cancelled
        RES.append(r)
        if len(self.ep.threads) > 1:
            self.ep.point(self)


def scribble(x):
    """Overwrites the numpy arrays of a result the caller owns."""
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fiu":
        x[...] = 77


class Episode:
    def __init__(self, idx, spec, s):
        self.idx, self.s = idx, s
        self.threads = [Thread(self, i, c) for i, c in enumerate(spec["threads"])]
        self.main = threading.Event()

    def ready(self):
        return [t for t in self.threads if not t.done and not t.blocked]

    def note(self, n):
        self.s.log.append((self.s.steps, n.idx))
        self.s.h.update(f"{self.idx}:{self.s.steps}:{n.idx};".encode())

    def pick(self, cur):
        """The thread that runs next (None: the current one goes on)."""
        s = self.s
        s.steps += 1
        r = [t for t in self.ready() if t is not cur]
        if not r:
            return None
        if s.explicit is not None:
            k = s.explicit.get(s.steps)
            n = next((t for t in r if t.idx == k), None)
        else:
            n = s.rng.choice(r) if s.rng.random() < s.p else None
        s.choices += 1
        if n is not None:
            self.note(n)
        return n

    def point(self, cur):
        if self.running is not cur:  # it was taken for blocked and goes on now
            cur.blocked = False
            if self.running is None:
                self.running = cur
            else:
                cur.go.wait()
                cur.go.clear()
            return
        n = self.pick(cur)
        if n is not None:
            self.running = n
            n.go.set()
            cur.go.wait()
            cur.go.clear()

    def finish(self, cur):
        cur.blocked = False
        if all(t.done for t in self.threads):
            self.main.set()
            return
        if self.running is not cur:
            return
        r = self.ready()
        self.running = None
        if r:
            s = self.s
            s.steps += 1
            n = next((t for t in r if t.idx == s.explicit.get(s.steps)), r[0]) if s.explicit is not None else s.rng.choice(r)
            self.note(n)
            self.running = n
            n.go.set()

    def run(self):
        """False if the calls do not come to an end."""
        for t in self.threads:
            t.t.start()
        self.running = self.threads[0]
        self.threads[0].go.set()
        last, quiet, cpu = None, 0, time.process_time()
        while not self.main.wait(1.0):
            now, c = (self.s.steps, sum(t.nline for t in self.threads), len(RES)), time.process_time()
            quiet = quiet + 1 if now == last and c - cpu < 0.02 else 0
            last, cpu = now, c
            if quiet < (QUIET if [t for t in self.ready() if t is not self.running] else 3 * QUIET):
                continue
            # no progress and no processor use: the running thread waits for something another one holds
            quiet = 0
            if self.running is not None:
                self.running.blocked = True
            r = self.ready()
            if not r:
                return False
            self.running = r[0]
            r[0].go.set()
        for t in self.threads:
            t.t.join()
        return True


QUIET = 10


def main():
    global MENU, WORK, RES, ROOT
    plan = json.load(sys.stdin)
    outfd = os.dup(1)
    os.dup2(2, 1)
    ROOT = plan["repo"]
    WORK = os.getcwd()
    os.mkdir("in")
    from . import setup

    setup.imports()
    import jax

    if plan.get("cache"):
        jax.config.update("jax_compilation_cache_dir", plan["cache"])
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    if plan["group"] == "x64":
        jax.config.update("jax_enable_x64", True)
    import diffmah  # noqa: F401
    import diffmah.data_loaders.io_utils  # noqa: F401
    import diffmah.data_loaders.load_galacticus_eps_mahs  # noqa: F401
    import diffmah.fitting_helpers.measure_mahs  # noqa: F401
    import diffmah.diffmahpop_kernels.load_diffmahpop_fitdata  # noqa: F401
    import diffmah.diffmahpop_kernels.mc_bimod_cens  # noqa: F401
    import diffmah.diffmahpop_kernels.mc_bimod_sats  # noqa: F401
    x64 = jax.config.jax_enable_x64
    assert x64 == (plan["group"] == "x64"), "x64"
    make_inputs(os.path.join(WORK, "in"))
    MENU = menu()
    RES = []
    np.random.seed(plan["seed"] % (1 << 32))
    random.seed(plan["seed"])
    s = Sched(plan)
    eps = []
    snap0, rng0 = snapshot(), rng_state()
    files0 = {f: hashlib.sha256(open(os.path.join("in", f), "rb").read()).hexdigest() for f in sorted(os.listdir("in"))}
    for i, spec in enumerate(plan["episodes"]):
        e = Episode(i, spec, s)
        if not e.run():
            eps.append(dict(stuck=[[t.idx, MENU[t.call["i"]][0]] for t in e.threads if not t.done and t.call]))
            break
        snap, rng = snapshot(), rng_state()
        d = {}
        ch = sorted(k for k in snap0 if snap.get(k) != snap0[k])
        if ch:
            d["defaults"] = ch[:5]
        if rng != rng0:
            d["rng"] = 1
        if jax.config.jax_enable_x64 != x64:
            d["x64"] = 1
        f1 = {f: hashlib.sha256(open(os.path.join("in", f), "rb").read()).hexdigest() for f in sorted(os.listdir("in"))}
        if f1 != files0:
            d["files"] = 1
        eps.append(d)
    os.write(outfd, json.dumps(dict(res=RES, eps=eps, steps=s.steps, choices=s.choices, sched=s.h.hexdigest()[:16], log=s.log, fired=s.fired, nlines=len(s.lines), menu=len(MENU))).encode())
    os._exit(0)


if __name__ == "__main__":
    main()
