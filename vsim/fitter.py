"""Check C09: the fitters under a misbehaving objective and primary optimizer.

The whole fit runs in this process; the two seams are the objective (the
callable the fitters are given, or the one their module uses) and
scipy.optimize.minimize.  A plan names for each fit which evaluations of which
phase misbehave and how, and whether the primary optimizer's outcome is real or
imposed.  Every evaluation is recorded and the result is compared with a
reference over that history."""
import copy
import hashlib
import importlib
import random
import signal
import struct

import numpy as np

from . import engine, fits
from .engine import mix

KINDS = {"C09": {"harness", "wrong-code", "wrong-loss", "wrong-params", "wrong-flag", "not-lowest", "too-many-evals", "raised", "hang", "not-skipped",
                 "skip-markers", "out-of-bounds", "wrong-tpeak", "wrong-arrays", "wrong-start", "lasting-effect", "input-changed", "not-honest", "needless-fallback", "wrong-skip"}}
GROUPS = {"plain": []}
WORKERS = {"plain": 8}
SPAWNED = True
SCHEDULED = False
RULE = ("one evaluation is one simulated history of fits decided by one seed (targets, data, objective faults by evaluation number, primary-optimizer outcome); "
        "non-trivial: a fault fired; distinct by the hash of the history of objective evaluations and results")
REAL = ["diffmah.fitting_helpers.{bfgs_wrapper,fit_utils,diffmah_fitter_helpers}", "t_peak and global c0/c1 fitters", "jax, jax.example_libraries.optimizers, scipy L-BFGS-B (unless its outcome is imposed)"]
STUB = ["objective answers at seeded evaluations", "scipy.optimize.minimize's outcome in runs that impose one"]
NPROF = "diffmah.diffmahpop_kernels."
GLOBAL = [(d, c, e) for d in ("bimod_logm0_kernels", "bimod_logm0_sats") for c in ("c0", "c1") for e in ("early", "late")]
PRIMARY_MAX = 40000


class Injected(Exception):
    pass


class Runaway(BaseException):
    pass


class Hang(BaseException):
    pass


EXC = dict(runtime=RuntimeError, value=ValueError, floating=FloatingPointError, memory=MemoryError, keyboard=KeyboardInterrupt, zerodiv=ZeroDivisionError, custom=Injected,
           index=IndexError, system=SystemExit, type=TypeError)


class Env:
    """The simulated environment of one fit."""
    cur = None

    def __init__(self, fit, h):
        self.fit, self.h = fit, h
        self.phase = "f" if fit["target"] == "adam" else "p0"  # before the primary optimizer runs
        self.n = {"p": 0, "f": 0, "p0": 0}
        self.ev = {"p": [], "f": [], "p0": []}
        self.prim = None
        self.nprim = 0
        self.exc = None
        self.fired = {}
        self.limit_f = fit.get("limit", 10 ** 9)

    def hit(self, ph, n):
        for f in self.fit.get("faults", []):
            if f["phase"] == ph and (f["n"] == n or f.get("persist") and n >= f["n"] or f.get("every") and n >= f["n"] and (n - f["n"]) % f["every"] == 0):
                return f
        return None

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def objective(self, real, p, data):
        ph = self.phase
        self.n[ph] += 1
        n = self.n[ph]
        if ph == "p" and n > PRIMARY_MAX or ph != "p" and n > self.limit_f:
            raise Runaway(f"{n} evaluations in phase {ph}")
        pv = np.array([np.asarray(x, float) for x in p] if isinstance(p, tuple) else p, float).ravel()
        if np.all(np.isfinite(pv)):
            loss, grads = real(p, data)
        else:  # compiled objectives answer arbitrarily at NaN: the plan decides
            b = self.fit.get("blind")
            loss, grads = {None: (np.nan, np.nan), "nan": (np.nan, 0.0), "fin": (0.37, 0.0), "gnan": (0.37, np.nan), "inf": (np.inf, 0.0)}[b]
            loss, grads = np.float32(loss), np.full(pv.size, grads, np.float32)
            self.fire("at-nan:" + (b or "allnan"))
        f = self.hit(ph, n)
        if f is not None:
            k = f["kind"]
            self.fire(("primary:" if ph == "p" else "fallback:") + k)
            if k == "exc":
                self.exc = EXC[f["exc"]](f"injected at evaluation {n}")
                self.h.update(b"exc")
                raise self.exc
            v = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf, "zero": 0.0, "neg": -1.5, "huge": 3e38, "tiny": 1e-30}
            if k in v:
                loss = v[k] if f.get("py") else np.float32(v[k])
            else:
                bad = {"gnan": np.nan, "ginf": np.inf, "gninf": -np.inf, "gzero": 0.0, "ghuge": 3e38}[k]
                g = np.array(grads, dtype=np.float32)
                if f.get("one"):
                    g[f["one"] % g.size] = bad
                else:
                    g[...] = bad
                grads = g
        lv = float(loss)
        gv = np.array([np.asarray(x, float) for x in grads] if isinstance(grads, tuple) else grads, float).ravel()
        usable = bool(np.isfinite(lv) and np.all(np.isfinite(gv)) and np.all(np.isfinite(pv)))
        self.ev[ph].append((pv, lv, usable))
        self.h.update(pv.tobytes() + struct.pack("<d", lv) + gv.tobytes())
        return loss, grads

    def minimize(self, real, *a, **kw):
        self.nprim += 1
        self.phase = "p"
        try:
            r = real(*a, **kw)
        finally:
            self.phase = "f"
        imp = self.fit.get("primary")
        if imp:
            self.fire("primary-outcome")
            r = copy.copy(r)
            fun = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf, "zero": 0.0, "neg": -2.0, "keep": r.fun, "nanpy": float("nan"), "one": 1.0}[imp["fun"]]
            r.fun = np.float64(fun) if imp.get("np") else fun
            r.success = bool(imp["success"])
            if imp.get("npbool"):
                r.success = np.bool_(imp["success"])
        self.prim = (np.array(r.x, float), float(r.fun), bool(r.success), bool(imp))
        return r


def seam_minimize(real):
    def minimize(*a, **kw):
        if Env.cur is None:
            return real(*a, **kw)
        return Env.cur.minimize(real, *a, **kw)
    return minimize


def seam_objective(real):
    def objective(p, data):
        if Env.cur is None:
            return real(p, data)
        return Env.cur.objective(real, p, data)
    return objective


MODS = {}


def init(group):
    import scipy.optimize

    scipy.optimize.minimize = seam_minimize(scipy.optimize.minimize)
    import diffmah.fitting_helpers.bfgs_wrapper as bw
    import diffmah.fitting_helpers.diffmah_fitter_helpers as dfh
    import diffmah.fitting_helpers.fit_utils as fu

    MODS.update(bw=bw, dfh=dfh, fu=fu)
    if "minimize" in vars(bw) and not getattr(bw.minimize, "__qualname__", "").startswith("seam_minimize"):
        bw.minimize = seam_minimize(bw.minimize)
    wrap(dfh, "loss_and_grads_kern")
    for n in ("utp_pdf_kernels", "tp_pdf_cens"):
        m = MODS[n] = importlib.import_module(NPROF + "t_peak_kernels." + n)
        wrap(m, "loss_and_grads_kern")
    for d, c, e in GLOBAL:
        m = MODS[d, c, e] = importlib.import_module(f"{NPROF}{d}.logm0_{c}_{e}")
        wrap(m, "global_loss_and_grads_kern")


def wrap(m, name):
    """Put the objective behind the seam; if the module calls it otherwise, put
    the seam at the optimizer's first argument."""
    if name in vars(m):
        setattr(m, name, seam_objective(getattr(m, name)))
    elif "bfgs_adam_fallback" in vars(m):
        real = m.bfgs_adam_fallback
        m.bfgs_adam_fallback = lambda vg, *a, **k: real(seam_objective(vg), *a, **k)


# ------------------------------------------------------------------ objectives
def synthetic(o):
    d = o["dim"]
    r = np.random.RandomState(o["rseed"])
    c = r.normal(0, 1, d)
    s = 10 ** r.uniform(-1, 1, d)

    def f(p, data):
        x = np.array(p, float)
        with np.errstate(all="ignore"):
            if o["shape"] == "quad":
                v, g = np.sum(s * (x - c) ** 2) + o["floor"], 2 * s * (x - c)
            elif o["shape"] == "abs":
                v, g = np.sum(s * np.abs(x - c)) + o["floor"], s * np.sign(x - c)
            elif o["shape"] == "log":  # not finite beyond a wall
                w = c + 0.3
                v, g = np.sum(-np.log(w - x) + s * (x - c) ** 2) + 5 + o["floor"], 1 / (w - x) + 2 * s * (x - c)
            elif o["shape"] == "const":
                v, g = 1.0 + o["floor"], np.zeros(d)
            elif o["shape"] == "linear":  # unbounded below
                v, g = np.sum(s * x) + o["floor"], s
            elif o["shape"] == "wiggle":
                v, g = np.sum(np.cos(7 * x) + 0.1 * x ** 2) + 2 * d + o["floor"], -7 * np.sin(7 * x) + 0.2 * x
            else:
                raise ValueError(o["shape"])
        return (np.float32(v), g.astype("f4"))
    return f


# ------------------------------------------------------------------ data
def mah_of(m):
    """t_sim, mah_sim of a described halo"""
    r = np.random.RandomState(m["rseed"])
    n = m["nt"]
    t = np.sort(r.uniform(0.4, 13.5, n)) if m.get("irregular") else np.linspace(0.5, 13.8, n)
    t[-1] = 13.8
    lg0 = m["lgm0"]
    al = r.uniform(0.5, 4)
    lg = lg0 + al * np.log10(t / t[-1]) - m["decay"] * (1 - t / t[-1]) ** 2
    k = m["kind"]
    if k == "noisy":
        lg = lg + r.normal(0, 0.15, n)
    elif k == "early":  # peaks before the end
        lg = np.minimum(lg, lg[int(n * r.uniform(0.3, 0.95))])
    elif k == "flat":
        lg[:] = lg0
    elif k == "fewpts":
        lg[: max(0, n - m["few"])] = lg0 - 9
    elif k == "plateau":
        lg = np.round(lg, 1)
    mah = 10 ** lg
    if k == "zeros":
        mah[: int(n * r.uniform(0.1, 0.9))] = 0.0
    if k == "acc":
        mah = np.maximum.accumulate(10 ** (lg + r.normal(0, 0.2, n)))
    if m.get("f4"):
        mah = mah.astype("f4")
    return t, mah


def targets_of(t, mah, kw):
    """Independent statement of the target rule: log-masses within dlogm_cut of
    the final mass, above lgm_min, not before t_fit_min; cumulative peak."""
    lgm_min = kw.get("lgm_min", -np.inf)
    lg = np.array([np.log10(10.0 ** lgm_min + 1e-7) if m <= 10.0 ** lgm_min else np.log10(m) for m in mah])
    keep = [i for i in range(len(t)) if lg[i] > lg[-1] - kw.get("dlogm_cut", 2.5) and mah[i] > 10.0 ** lgm_min and lg[i] > lgm_min and t[i] >= kw.get("t_fit_min", 1.0)]
    tt, tl, hi = [], [], -np.inf
    for i in keep:
        hi = max(hi, lg[i])
        tt.append(t[i])
        tl.append(hi)
    npts = sum(1 for x in tl if x < tl[-1]) if tl else 0
    lf = lg.astype("f4")
    tp = kw.get("tpeak_fixed")
    if tp is None:
        tp = t[[i for i in range(len(t)) if lf[i] == lf[-1]][0]]
    return np.array(tt), np.array(tl), npts, float(tp)


def model(p, t, t0):
    """The diffmah model, written out in numpy (float64)."""
    lgm0, lgtc, early, late, tp = [float(x) for x in p]

    def noq(t):
        lt = np.log10(t)
        a = early + (late - early) / (1 + np.exp(-3.5 * (lt - lgtc)))
        return a * (lt - np.log10(t0)) + lgm0
    return np.where(t < tp, noq(t), noq(tp))


# ------------------------------------------------------------------ reference
def ref_fallback(ev, nstep, n_warmup, wn, tol=0.0):
    """Splits the fallback's evaluations into its stages and says what the
    reported stage must report: (loss, acceptable params, flag, arrays)"""
    i, start = 0, None
    stages = []

    def stage(n):
        nonlocal i
        ds, cut, conv = [], False, False
        while len(ds) < n and not conv:
            if i >= len(ev):
                return None
            p, l, ok = ev[i]
            i += 1
            if not ok:
                cut = True
                if not ds:
                    return dict(loss=999.99, params=[p], cut=True, evs=[], first=p)
                break
            ds.append((p, l))
            conv = l < tol
        lo = min(l for _, l in ds)
        if conv:
            return dict(loss=ds[-1][1], params=[ds[-1][0]], cut=False, evs=ds, first=ds[0][0])
        return dict(loss=lo, params=[p for p, l in ds if l == lo], cut=cut, evs=ds, first=ds[0][0])

    last = np.inf
    for _ in range(n_warmup):
        s = stage(wn)
        if s is None:
            return None, "it made fewer evaluations than its warm-up needs"
        stages.append(s)
        last = s["loss"]
    if last > tol:
        s = stage(nstep)
        if s is None:
            return None, "it made fewer evaluations than its steps need"
        stages.append(s)
    if i != len(ev):
        return None, f"{len(ev)} evaluations, its stages account for {i}"
    for a, b in zip(stages, stages[1:]):
        if not any(same32(b["first"], p) for p in a["params"]):
            return None, "a stage does not start from the best parameters of the stage before"
    return stages[-1], None


def same32(a, b):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 3e-7 * np.abs(b) + 1e-30)))


def close(a, b, rt=1e-6, at=1e-30):
    return (a == b) or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= rt * abs(b) + at


# ------------------------------------------------------------------ execution
def arr(p):
    return np.array([np.asarray(x, float) for x in p], float).ravel()


def do_fit(fit, env, bad, tag):
    """Runs one fit; returns a hashable description of its result."""
    T = fit["target"]
    kw = dict(fit.get("kw", {}))
    res, raised = None, None
    pre = None
    try:
        Env.cur = env
        if T in ("bfgs", "adam"):
            o = synthetic(fit["obj"])
            r = np.random.RandomState(fit["obj"]["rseed"] + 1)
            p0 = r.normal(0, 1, fit["obj"]["dim"]).astype(fit.get("p0dt", "f8"))
            if fit.get("p0nan"):
                p0[-1] = np.nan
            if fit.get("p0tuple"):
                p0 = tuple(p0)
            data = (np.arange(3.0),)
            pre = (copy.deepcopy(p0), p0)
            f = seam_objective(o)
            if T == "bfgs":
                res = MODS["bw"].bfgs_adam_fallback(f, p0, data, **kw)
            else:
                res = MODS["fu"].jax_adam_wrapper(f, p0, data, **kw)
        elif T == "diffmah":
            t, mah = mah_of(fit["mah"])
            pre = ((t.copy(), mah.copy()), (t, mah))
            res = MODS["dfh"].diffmah_fitter(t, mah, **kw)
        elif T in ("tpeak", "tpeakcens"):
            t0 = 13.8
            x = np.linspace(0.15, 0.95, 30) * (1 if T == "tpeak" else t0)
            y = np.exp(-0.5 * ((x / x[-1] - fit["loc"]) / fit["scale"]) ** 2)
            y = y / np.trapezoid(y, x)
            pre = ((x.copy(), y.copy()), (x, y))
            if T == "tpeak":
                res = MODS["utp_pdf_kernels"].t_peak_fitter(x, y)
            else:
                res = MODS["tp_pdf_cens"].t_peak_cens_fitter(x, y, t0, **kw)
        else:
            m = MODS[tuple(fit["glob"])]
            c = fit["glob"][1]
            P = getattr(m, f"DEFAULT_LGM0POP_{c.upper()}_PARAMS")
            data = []
            for tobs in fit["tobs"]:
                tp = np.linspace(1, tobs, 12)
                data.append((tobs, tp, np.array(getattr(m, f"_pred_{c}_kern")(P, tobs, tp)) * fit["amp"] + fit["off"]))
            pre = (copy.deepcopy(data), data)
            res = getattr(m, f"fit_global_{c}_model")(data)
    except Hang:
        raise
    except Runaway as e:
        bad.append(("too-many-evals", f"{tag}: {e}"))
        return ("runaway",)
    except BaseException as e:
        raised = e
    finally:
        Env.cur = None
    if pre is not None and not engine_same(pre[0], pre[1]):
        bad.append(("input-changed", f"{tag}: the fit changed its input"))
    if raised is not None:
        if isinstance(raised, MemoryError) and env.exc is None:
            raise raised
        if raised is not env.exc:
            bad.append(("raised", f"{tag}: raised {type(raised).__name__}: {str(raised)[:200]}" + ("" if env.exc is None else " instead of the objective's own exception")))
        return ("raised", type(raised).__name__)
    judge(fit, kw, env, res, bad, tag)
    return flat(res)


def engine_same(a, b):
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(engine_same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def flat(x):
    if isinstance(x, (tuple, list)):
        return tuple(flat(y) for y in x)
    a = np.asarray(x)
    return (str(a.dtype), a.shape, a.tobytes())


def judge(fit, kw, env, res, bad, tag):
    T = fit["target"]
    nstep, nw, wn, tol = kw.get("nstep", 200), kw.get("n_warmup", 1), 50, 0.0
    if T == "adam":
        nstep, nw, wn, tol = kw["n_step"], kw.get("n_warmup", 0), kw.get("warmup_n_step", 50), kw.get("tol", 0.0)
        p, loss, larr, parr, flag = res
        code = 1
    elif T == "diffmah":
        p, loss, skip, flag, code, ldata = res
        t, mah = mah_of(fit["mah"])
        tt, tl, npts, tp = targets_of(t, mah, kw)
        nev = sum(env.n.values())
        want_skip = npts < 3 or bool(kw.get("force_skip_fit"))
        if bool(skip) != want_skip:
            bad.append(("wrong-skip", f"{tag}: skip_fit is {bool(skip)} with {npts} usable points"))
            return
        if want_skip:
            if nev or env.nprim:
                bad.append(("not-skipped", f"{tag}: {nev} evaluations for a halo that must be skipped"))
            if not (np.all(arr(p) == -99.0) and len(p) == 5 and float(loss) == -99.0 and int(code) == -1 and not flag):
                bad.append(("skip-markers", f"{tag}: skipped halo got {p} loss {loss} code {code} terminates {flag}"))
            return
    else:
        p, loss, flag, code = res
    loss, flag, code = float(loss), bool(flag), int(code)
    if T != "adam" and env.nprim == 0:
        bad.append(("harness", f"{tag}: the primary optimizer's seam saw no call"))
        return
    # --- parameters in the optimizer's own variables
    up = None
    if T in ("bfgs", "adam", "global"):
        up = arr(p)
    # --- which optimizer must be reported
    if T != "adam":
        px, pf, ps, imposed = env.prim
        good = ps and np.isfinite(pf) and pf > 0 and bool(np.all(np.isfinite(px)))
        if code not in (0, 1):
            bad.append(("wrong-code", f"{tag}: code {code} for a halo that was fitted"))
            return
        if code == 0 and not good:
            bad.append(("wrong-code", f"{tag}: code 0, but the primary optimizer ended with success={ps}, loss {pf}"))
            return
        if code == 1 and good:
            bad.append(("needless-fallback", f"{tag}: fallback reported although the primary optimizer succeeded with loss {pf}"))
            return
    if code == 0:
        if env.ev["f"]:
            bad.append(("wrong-code", f"{tag}: code 0 although the fallback ran"))
        if not flag:
            bad.append(("wrong-flag", f"{tag}: primary optimizer succeeded but terminates is False"))
        if not close(loss, pf, 1e-6):
            bad.append(("wrong-loss", f"{tag}: loss {loss}, the primary optimizer found {pf}"))
        if not imposed and not any(same32(q, px) and close(l, pf, 1e-6) for q, l, ok in env.ev["p"]):
            bad.append(("not-honest", f"{tag}: no evaluation gave loss {pf} at the primary optimizer's parameters"))
        cand = [px]
    else:
        s, why = ref_fallback(env.ev["f"], nstep, nw, wn, tol)
        if s is None:
            bad.append(("wrong-start" if "start" in why else "not-honest", f"{tag}: fallback: {why}"))
            return
        if flag != (not s["cut"]):
            bad.append(("wrong-flag", f"{tag}: terminates is {flag}, but the reported stage was {'' if s['cut'] else 'not '}cut short by a non-finite value"))
        if not close(loss, s["loss"], 1e-6):
            bad.append(("not-lowest", f"{tag}: reported loss {loss}, lowest on the reported stage {s['loss']}"))
        cand = s["params"]
        if T == "adam":
            n = len(s["evs"])
            if len(larr) != n or not all(close(float(x), l, 1e-6) for x, (_, l) in zip(larr, s["evs"])):
                bad.append(("wrong-arrays", f"{tag}: loss_arr differs from the {n} evaluations of the stage"))
            elif len(parr) < n or not all(same32(parr[i], q) for i, (q, _) in enumerate(s["evs"])):
                bad.append(("wrong-arrays", f"{tag}: params_arr differs from the evaluations of the stage"))
    if up is not None and not any(same32(up, q) for q in cand):
        bad.append(("wrong-params", f"{tag}: reported parameters are not those of the reported loss"))
    if T in ("tpeak", "tpeakcens"):
        lo, hi = (0.1 + 1e-4, 1e-4), (1.0 - 1e-4, 1.0)
        pv = arr(p)
        if not np.all(np.isfinite(pv)) or np.any(pv < np.array(lo) - 1e-5) or np.any(pv > np.array(hi) + 1e-5):
            bad.append(("out-of-bounds", f"{tag}: {pv}"))
        want = [[l + (h - l) / (1 + np.exp(np.clip(-0.1 * (u - 0.5 * (l + h)), -700, 700))) for u, l, h in zip(q, lo, hi)] for q in cand]
        if not any(np.allclose(pv, w, rtol=1e-4, atol=1e-5) for w in want):
            bad.append(("wrong-params", f"{tag}: reported {pv}, the optimizer's best is {want[0]}"))
    if T == "diffmah":
        pv = arr(p)
        lo, hi = np.array([0, -1, 0.1, 0.1, 0.05]), np.array([17, 1, 10, 5, 20.0])
        if not np.all(np.isfinite(pv)) or np.any(pv < lo - 1e-4) or np.any(pv > hi + 1e-4):
            bad.append(("out-of-bounds", f"{tag}: {pv}"))
            return
        if pv[2] < pv[3] - 1e-4:
            bad.append(("out-of-bounds", f"{tag}: early index {pv[2]} below late index {pv[3]}"))
        if abs(pv[4] - tp) > 1e-3 * tp + 2e-3:
            bad.append(("wrong-tpeak", f"{tag}: t_peak {pv[4]}, imposed {tp}"))

        def sg(u, mid, l, h):
            return l + (h - l) / (1 + np.exp(np.clip(-0.1 * (u - mid), -700, 700)))
        ok = False
        for q in cand:
            lt = sg(q[3], 2.55, 0.1, 5.0)
            w = np.array([sg(q[0], 8.5, 0, 17), sg(q[1], 0, -1, 1), sg(q[2], 0.0, lt, 10.0), lt])
            ok = ok or np.allclose(pv[:4], w, rtol=1e-4, atol=1e-4)
        if not ok:
            bad.append(("wrong-params", f"{tag}: parameters {pv[:4]} are not those of the optimizer's best {w}"))
        # the loss is the mean square error of the model at these parameters
        if code == 0 and not imposed or code == 1 and s["loss"] != 999.99:
            if not any(f["kind"] in ("zero", "neg", "huge", "tiny") for f in fit.get("faults", [])):
                rms = np.sqrt(np.mean((model(pv, tt, t[-1]) - tl) ** 2))
                if abs(np.sqrt(max(loss, 0)) - rms) > 1e-3 + 1e-3 * rms:
                    bad.append(("wrong-loss", f"{tag}: reported loss {loss}, model at the reported parameters has {rms ** 2}"))
        if len(ldata.t_target) != len(tt) or not np.allclose(ldata.log_mah_target, tl, atol=1e-5) or not np.allclose(ldata.t_target, tt, rtol=1e-6):
            bad.append(("wrong-skip", f"{tag}: the fit used other history points than those above the cuts"))


def execute(plan):
    h = hashlib.sha256()
    bad, fired, probes, log = [], {}, {}, []
    evals = 0
    first = {}

    def alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    trace = []
    for i, fit in enumerate(plan["fits"]):
        env = Env(fit, h)
        tag = f"fit {i} ({fit['target']})"
        signal.alarm(120)
        nb = len(bad)
        try:
            with np.errstate(all="ignore"):
                out = do_fit(fit, env, bad, tag)
        except Hang:
            Env.cur = None
            bad.append(("hang", f"{tag}: no result within 120 s after {sum(env.n.values())} evaluations"))
            break
        finally:
            signal.alarm(0)
        h.update(repr(out).encode())
        evals += sum(env.n.values())
        for k, v in env.fired.items():
            fired[k] = fired.get(k, 0) + v
        lab = "raised" if out[0] == "raised" else {(-1): "skipped", 0: "primary", 1: "fallback"}.get(code_of(fit, out), "other")
        probes[fit["target"] + ":" + lab] = probes.get(fit["target"] + ":" + lab, 0) + 1
        trace.append(f"{tag}: {lab}, evaluations {env.n}, fired {env.fired}")
        if plan.get("trace"):
            for ph in ("p", "f"):
                for k, (q, l, ok) in enumerate(env.ev[ph][:60]):
                    trace.append(f"    {ph}{k + 1}: loss {l} {'' if ok else 'unusable'} at {q}")
        if "ref" in fit and fit["ref"] in first and not env.fired and out != first[fit["ref"]]:
            bad.append(("lasting-effect", f"{tag}: result differs from the same fit before the faults"))
        if fit.get("mark") is not None:
            first[fit["mark"]] = out
        if len(bad) > nb:
            break
    return dict(bad=bad, events=evals, digest=h.hexdigest(), sched=h.hexdigest()[:16], steps=evals, choices=0, simtime=0.0, fired=fired, probes=probes, log={}, trace=trace,
                extra=dict(objective_evaluations=evals))


def code_of(fit, out):
    if fit["target"] == "adam":
        return 1
    try:
        return int(np.frombuffer(out[4 if fit["target"] == "diffmah" else 3][2], out[4 if fit["target"] == "diffmah" else 3][0])[0])
    except Exception:
        return None


# ------------------------------------------------------------------ generation
LOSSK = ["nan", "nan", "inf", "ninf", "zero", "neg", "huge", "tiny"]
GRADK = ["gnan", "gnan", "ginf", "gninf", "gzero", "ghuge"]


def gen_fault(rng, phase, top):
    f = dict(phase=phase, n=rng.choice([1, 2, rng.randint(1, 6), rng.randint(1, max(1, top))]))
    x = rng.random()
    if x < 0.14:
        f.update(kind="exc", exc=rng.choice(sorted(EXC)))
    elif x < 0.6:
        f["kind"] = rng.choice(LOSSK)
        if rng.random() < 0.3:
            f["py"] = 1
    else:
        f["kind"] = rng.choice(GRADK)
        if rng.random() < 0.5:
            f["one"] = rng.randint(1, 5)
    if rng.random() < 0.2:
        f["persist"] = 1
    elif rng.random() < 0.1:
        f["every"] = rng.randint(2, 9)
    return f


def gen_fit(rng, target):
    f = dict(target=target)
    kw = {}
    if target in ("bfgs", "adam"):
        f["obj"] = dict(shape=rng.choice(["quad", "quad", "abs", "log", "const", "linear", "wiggle"]), dim=rng.randint(1, 6), rseed=rng.randrange(1 << 30), floor=rng.choice([0.0, 0.0, 0.7]))
        f["p0dt"] = rng.choice(["f4", "f8"])
        if rng.random() < 0.03:
            f["p0nan"] = 1
        if target == "bfgs":
            kw.update(nstep=rng.choice([1, 2, 5, rng.randint(1, 40)]), n_warmup=rng.choice([0, 1, 1, 2]))
        else:
            kw.update(n_step=rng.choice([1, 2, rng.randint(1, 30)]), n_warmup=rng.choice([0, 0, 1, 2, 3]), warmup_n_step=rng.choice([1, 2, rng.randint(1, 20)]))
            if rng.random() < 0.5:
                kw["tol"] = rng.choice([0.0, 0.5, 1.0, 3.0, 10.0])
            if rng.random() < 0.3:
                kw["step_size"] = rng.choice([0.001, 0.1, 1.0])
            if rng.random() < 0.2:
                kw["warmup_step_size"] = rng.choice([0.01, 0.3])
    elif target == "diffmah":
        m = f["mah"] = dict(kind=rng.choice(["noisy", "smooth", "early", "flat", "fewpts", "zeros", "acc", "plateau", "smooth"]), nt=rng.choice([6, 12, 25]), rseed=rng.randrange(1 << 30),
                            lgm0=rng.uniform(10, 15), decay=rng.choice([0.0, 1.0, 3.0, 8.0]), few=rng.randint(1, 6))
        if rng.random() < 0.3:
            m["f4"] = 1
        if rng.random() < 0.3:
            m["irregular"] = 1
        kw.update(nstep=rng.choice([1, 3, rng.randint(1, 25)]), n_warmup=rng.choice([0, 0, 1]))
        if rng.random() < 0.3:
            kw["lgm_min"] = m["lgm0"] + rng.uniform(-2.5, 0.4)
        if rng.random() < 0.3:
            kw["dlogm_cut"] = rng.choice([0.1, 0.5, 1.0, 4.0])
        if rng.random() < 0.3:
            kw["t_fit_min"] = rng.choice([0.0, 2.0, 8.0, 13.0])
        if rng.random() < 0.25:
            kw["tpeak_fixed"] = rng.uniform(2.0, 13.8)
        if rng.random() < 0.1:
            kw["force_skip_fit"] = True
    elif target in ("tpeak", "tpeakcens"):
        f.update(loc=rng.uniform(0.3, 0.95), scale=rng.uniform(0.1, 0.6))
        if target == "tpeakcens":
            kw.update(nstep=rng.choice([1, rng.randint(1, 20)]), n_warmup=rng.choice([0, 1]))
    else:
        f.update(glob=list(rng.choice(GLOBAL)), tobs=[4.0, 9.0][: rng.randint(1, 2)], amp=rng.choice([1.0, 1.1]), off=rng.choice([0.0, 0.01]))
    f["kw"] = kw
    wn = 50
    ns, nw = kw.get("nstep", 200), kw.get("n_warmup", 1)
    if target == "adam":
        ns, nw, wn = kw["n_step"], kw["n_warmup"], kw["warmup_n_step"]
    f["limit"] = ns + nw * wn
    return f


def add_faults(rng, f):
    fs = []
    f["blind"] = rng.choice([None, None, "nan", "fin", "fin", "gnan", "inf"])
    if f["target"] != "adam":
        x = rng.random()
        if x < 0.30:
            f["primary"] = dict(success=rng.random() < 0.6, fun=rng.choice(["keep", "nan", "inf", "ninf", "zero", "neg", "one", "nanpy"]))
            if rng.random() < 0.5:
                f["primary"]["np"] = 1
            if rng.random() < 0.3:
                f["primary"]["npbool"] = 1
        elif x < 0.85:
            fs += [gen_fault(rng, "p", 30) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.6:  # make the primary fail for sure
                fs.append(dict(phase="p", n=rng.randint(1, 12), kind=rng.choice(["nan", "gnan"]), persist=1))
    if f["target"] == "adam" or rng.random() < 0.75:
        fs += [gen_fault(rng, "f", f["limit"]) for _ in range(rng.choice([1, 1, 2, 3]))]
        # around the end of the warm-up
        if rng.random() < 0.3:
            wn = f["kw"].get("warmup_n_step", 50) * f["kw"].get("n_warmup", 1 if f["target"] != "adam" else 0)
            fs.append(dict(gen_fault(rng, "f", 1), n=max(1, wn + rng.randint(0, 3))))
    f["faults"] = fs
    return f


TW = ["bfgs"] * 4 + ["adam"] * 6 + ["diffmah"] * 5 + ["tpeak", "tpeakcens", "global"]


def run_task(task, emit):
    seed = task["seed"]
    for v in range(task["variants"]):
        rng = random.Random(mix(seed, "case", v))
        plan = dict(prop="C09", seed=mix(seed, v), fits=[])
        clean = gen_fit(rng, rng.choice(["bfgs", "diffmah", "diffmah", "adam"]))
        clean["mark"] = 0
        hist = rng.random() < 0.35
        if hist:
            plan["fits"].append(clean)
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.choice(TW)
            if t in ("tpeak", "global") and rng.random() < 0.5:
                t = "adam"  # these have no step count argument: the fallback takes 250 steps
            f = gen_fit(rng, t)
            if rng.random() < 0.9:
                add_faults(rng, f)
            plan["fits"].append(f)
        if hist:
            c = {k: v for k, v in clean.items() if k != "mark"}
            plan["fits"].append(dict(c, ref=0))
        if emit(plan, execute(plan)):
            return


def shrinks(plan):
    def cp():
        return copy.deepcopy(plan)
    for i in range(len(plan["fits"])):
        if len(plan["fits"]) > 1:
            p = cp(); del p["fits"][i]; yield p
    for i, f in enumerate(plan["fits"]):
        for j in range(len(f.get("faults", []))):
            p = cp(); del p["fits"][i]["faults"][j]; yield p
            for k in ("persist", "every", "one", "py"):
                if f["faults"][j].get(k):
                    p = cp(); p["fits"][i]["faults"][j].pop(k); yield p
            if f["faults"][j]["n"] > 1:
                p = cp(); p["fits"][i]["faults"][j]["n"] = f["faults"][j]["n"] // 2; yield p
        if f.get("primary"):
            p = cp(); p["fits"][i].pop("primary"); yield p
        for k in list(f.get("kw", {})):
            if k not in ("n_step", "nstep", "n_warmup", "warmup_n_step"):
                p = cp(); p["fits"][i]["kw"].pop(k); yield p
        if f.get("obj", {}).get("dim", 1) > 1:
            p = cp(); p["fits"][i]["obj"]["dim"] = 1; yield p


def tasks(prop, tier, seed):
    n = 400 if tier == "quick" else 16000
    return [dict(group="plain", seed=mix(seed, prop, i) >> 12, variants=20) for i in range(n)]


def group_of(plan):
    return "plain"


def describe(plan):
    return dict(fits=[dict(target=f["target"], kw=f.get("kw"), faults=f.get("faults", []), primary=f.get("primary"), data=f.get("obj") or f.get("mah") or f.get("glob")) for f in plan["fits"]], seed=plan["seed"])
