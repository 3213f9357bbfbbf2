"""Halo populations of the C11-C13 workloads: a pool of halos, their histories
(computed by the real kernel before the ranks fork) and an independent
reference model."""
import sys

import numpy as np

from . import child

T0 = 13.7976158      # the tabulation's age of the universe
T0_LOAD = 13.79      # the loader's
NPOOL = 260


def pool():
    """(NPOOL, 5) parameters, exact in single precision and to four decimals apart"""
    r = np.random.RandomState(77)
    n = NPOOL
    late = r.uniform(0.15, 1.2, n)
    p = np.array([r.uniform(11.0, 15.0, n), r.uniform(-0.3, 0.6, n), late + r.uniform(0.5, 3.0, n), late, r.uniform(2.0, 15.0, n)]).T
    return p.astype("f4").astype("f8")


def ref_log_mah(p, t, lgt0):
    """The model, in double precision: (n, 5), (k,) -> (n, k)"""
    p = np.atleast_2d(np.asarray(p, float))
    t = np.asarray(t, float)
    lm0, ltc, early, late, tp = (x[:, None] for x in p.T)
    x = np.log10(np.minimum(t[None, :], tp))
    idx = early + (late - early) / (1 + np.exp(-3.5 * (x - ltc)))
    return idx * (x - lgt0) + lm0


_MEMO = {}


def key(row, t, lgt0):
    return (np.asarray(row, "f4").tobytes(), np.asarray(t, "f4").tobytes(), np.float32(lgt0).tobytes())


def remember(t, lgt0):
    """Run the real kernel on the whole pool (in a process that can)."""
    from diffmah import diffmah_kernels as dk
    P = pool()
    try:
        d, l = dk.mah_halopop(dk.DEFAULT_MAH_PARAMS._make(P.T), np.asarray(t), lgt0)
    except Exception:
        return  # ranks then need interpreters of their own
    d, l = np.array(d), np.array(l)
    for i in range(len(P)):
        _MEMO[key(P[i], t, lgt0)] = (d[i], l[i])


def log_mah(i, t, lgt0):
    """What the real kernel gives for halo i of the pool."""
    hit = _MEMO.get(key(pool()[i], t, lgt0))
    return None if hit is None else hit[1]


def memo_halopop(mah_params, tarr, lgt0):
    cols = [np.asarray(getattr(mah_params, f)) for f in ("logm0", "logtc", "early_index", "late_index", "t_peak")]
    t = np.asarray(tarr)
    if t.ndim != 1 or any(c.ndim != 1 for c in cols) or np.ndim(lgt0):
        child.need_fresh()
    d, l = [], []
    for row in zip(*cols):
        hit = _MEMO.get(key(row, t, lgt0))
        if hit is None:
            child.need_fresh()
        d.append(hit[0])
        l.append(hit[1])
    k = t.size
    return np.array(d, "f4").reshape(-1, k), np.array(l, "f4").reshape(-1, k)


class ArgMemo:
    """Remembers the results of a jitted function of one number."""

    def __init__(self, f):
        self.f, self.memo, self.live = f, {}, True

    def __call__(self, *a, **kw):
        try:
            k = tuple(float(x) for x in a) + tuple(sorted((n, float(x)) for n, x in kw.items()))
        except TypeError:
            k = None
        if k is None or k not in self.memo:
            if not self.live:
                child.need_fresh()
            r = self.f(*a, **kw)
            if k is None:
                return r
            self.memo[k] = np.asarray(r)
        return self.memo[k]


def wrap_jitted(mod):
    """Module-level jitted functions of mod that live in mod become memos."""
    for n, v in list(vars(mod).items()):
        if hasattr(v, "lower") and hasattr(v, "trace") and getattr(v, "__module__", None) == mod.__name__:
            setattr(mod, n, ArgMemo(v))


@child.program
def memo_pop():
    """Prelude of forked ranks."""
    from diffmah import diffmah_kernels as dk
    real = dk.mah_halopop
    for m in list(sys.modules.values()):
        n = getattr(m, "__name__", "")
        if n.startswith("diffmah") or n == "smdpl_diffmahpop_utils":
            for k, v in list(vars(m).items()):
                if v is real:
                    setattr(m, k, memo_halopop)
                elif isinstance(v, ArgMemo):
                    v.live = False
