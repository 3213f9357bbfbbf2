"""Checks C11 and C13: histories of loading, tabulating and writing population
targets, under random draws, listing orders, read and write faults and crashes."""
import copy
import gc
import os
import random
import sys
import warnings

import numpy as np

from . import child, engine, pop, setup
from .engine import HarnessError, NeedFresh, Sim, Violation, mix
from .fakes import rpc
from .jobs import FATAL, gen_err, gen_knobs, tree

DIR = os.path.join(setup.REPO, "scripts", "diffmahpop_tabulation")
BASE = FATAL | {"wrong-values", "spurious-error", "silent-wrong", "torn-accepted", "lasting-effect", "input-changed", "outside-mutation"}
KINDS = {"C11": BASE, "C13": BASE}
GROUPS = {"plain": []}
WORKERS = {"plain": 7}
T_OBS = [2.0, 2.5, 4.95, 7.9, 10.85, 13.8]
LGM = [11.0, 11.75, 12.5, 13.5, 14.2, 14.5, 14.75]
N_T = [4, 25]
LGT_LOAD, LGT_TAB = np.log10(pop.T0_LOAD), np.log10(pop.T0)
MEAN = ["lgm_obs", "t_obs", "mean_log_mah", "std_log_mah", "frac_peaked", "t_table"]
PAR = ["logm0_samples", "logtc_samples", "early_index_samples", "late_index_samples", "t_peak_samples"]
TOL = 2e-4


def ttab(t, n):
    return np.linspace(0.5, t, n)


def bn(b, cs):
    return f"lgm_{b['lgm']:.2f}_t_{b['t']:.2f}_mah_params.{cs}.npy"


def rows_of(b):
    """Distinct rows of the pool, in an order of the bin's own."""
    i = np.random.RandomState(b["seed"]).permutation(pop.NPOOL)[:b["n"]]
    return pop.pool()[i]


def mean_data(bins, n_t, seed):
    """Arbitrary stored mean and variance data (only passed through)."""
    r = np.random.RandomState(seed)
    k = len(bins)
    return dict(lgm_obs=np.array([b["lgm"] for b in bins]), t_obs=np.array([b["t"] for b in bins]), mean_log_mah=np.sort(r.uniform(9, 14, (k, n_t)), axis=1),
                std_log_mah=r.uniform(0, 1, (k, n_t)), frac_peaked=r.uniform(0, 1, (k, n_t)), t_table=np.array([ttab(b["t"], n_t) for b in bins]))


def stats(b, n_t, rescale):
    """What the tabulation must give for one bin."""
    P, t = rows_of(b), ttab(b["t"], n_t)
    L = pop.ref_log_mah(P, t, LGT_TAB)
    if rescale:
        L = L - (L[:, -1:] - b["lgm"])
    return dict(lgm_obs=b["lgm"], t_obs=b["t"], mean_log_mah=L.mean(axis=0), std_log_mah=L.std(axis=0), frac_peaked=np.array([(P[:, 4] < x).mean() for x in t]), t_table=t)


def make_dir(d, spec):
    import h5py
    os.makedirs(d)
    for cs in ("cens", "sats"):
        for b in spec[cs]:
            P = rows_of(b)
            np.save(os.path.join(d, bn(b, cs)), np.hstack([P, P[:, 4:5]]))
        if spec.get("mean", 1):
            with h5py.File(os.path.join(d, f"mean_var_{cs}.h5"), "w") as h:
                for k, v in mean_data(spec[cs], spec["n_t"], spec["seed"] + (cs == "sats")).items():
                    h[k] = v
    for n in spec.get("extra", []):
        with open(os.path.join(d, n), "w") as f:
            f.write("x")
    dmg = spec.get("damage")
    if dmg:
        p = os.path.join(d, dmg["file"])
        if dmg["how"] == "missing":
            os.unlink(p)
        else:
            n = os.path.getsize(p)
            with open(p, "rb+") as f:
                f.truncate(0 if dmg["how"] == "empty" else max(0, min(n - 1, int(n * dmg["frac"]))))


# ------------------------------------------------------------------ program under simulation
class Draws:
    """The seam of the global random source: what a draw comes out as."""

    def __init__(self, mode, seed):
        self.mode, self.r = mode, np.random.RandomState(seed)
        self.real = {n: getattr(np.random, n) for n in ("choice", "permutation", "shuffle", "randint", "default_rng")}

    def order(self, n):
        if self.mode == "first":
            return np.arange(n)
        if self.mode == "last":
            return np.arange(n)[::-1]
        if self.mode == "rot":
            return np.roll(np.arange(n), self.r.randint(0, n + 1))
        return self.r.permutation(n)

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        k = 1 if size is None else int(np.prod(size))
        if not replace and k > len(a):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        i = self.order(len(a))
        i = np.resize(i[:1], k) if replace else i[:k]
        out = a[i]
        return out[0] if size is None else out.reshape(size)

    def permutation(self, x):
        x = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return x[self.order(len(x))]

    def shuffle(self, x):
        x[...] = np.array(x)[self.order(len(x))]

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        v = lo if self.mode in ("first", "rot") else hi - 1
        return int(v) if size is None else np.full(size, v, dtype)

    def __enter__(self):
        np.random.seed(self.r.randint(1 << 30))
        if self.mode != "seed":
            for n in ("choice", "permutation", "shuffle", "randint"):
                setattr(np.random, n, getattr(self, n))
        s = int(self.r.randint(1 << 30))
        np.random.default_rng = lambda seed=None: self.real["default_rng"](s if seed is None else seed)

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(np.random, n, f)


def plain(tab):
    return {k: np.array(tab[k]) for k in tab.keys()}


def do(op):
    if op["op"] == "load":
        from diffmah.diffmahpop_kernels import load_diffmahpop_fitdata as L
        kw = dict(op["kw"])
        with Draws(op["draw"], op["seed"]):
            c, s = L.load_diffmahpop_targets(drn=op["dir"], **kw)
        return plain(c), plain(s)
    if DIR not in sys.path:
        sys.path.insert(0, DIR)
    import smdpl_diffmahpop_utils as u
    if op["op"] == "tab":
        c, s = u.tabulate_target_means_vars(op["dir"], **op["kw"])
        return plain(c), plain(s)
    if op["op"] == "write":
        d = op.get("to", op["dir"])
        u.write_mean_variance_to_disk(op["dir"], os.path.join(d, "mean_var_cens.h5"), os.path.join(d, "mean_var_sats.h5"))
        return None
    raise ValueError(op)


@child.program
def targets_history(ops):
    out = []
    for i, op in enumerate(ops):
        rpc("note", ("start", i))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = ("ok", do(op))
        except Exception as e:
            r = ("raise", type(e).__name__, str(e).split("(")[0][:120])
        gc.collect()
        rpc("note", ("end", i, r))
        out.append(r[0])
    return out


# ------------------------------------------------------------------ oracle
def near(g, e, tol):
    g = np.asarray(g, float)
    if g.shape != np.shape(e):
        return f"has shape {g.shape}, expected {np.shape(e)}"
    bad = ~(np.abs(g - e) <= tol)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return f"is {g[i]!r} at {i}, expected {np.asarray(e, float)[i]!r}"
    return None


def check_load(g, cs, spec, op, mean):
    """mean: 'stored' (passed through) or 'tab' (written by the tabulation)"""
    kw = op["kw"]
    nmin = kw.get("n_sample_min", 200)
    s = cs[:3]
    tmin, lmax = kw.get(f"t_obs_min_{s}", 2.5), kw.get(f"lgm_obs_max_{s}", dict(cen=14.5, sat=13.5)[s])
    bins = spec[cs]
    if mean == "tab":
        bins = [b for b in bins if b["n"] > 100]
    passing = [i for i, b in enumerate(bins) if b["t"] > tmin and b["lgm"] < lmax and b["n"] >= nmin]
    for k in MEAN + PAR + ["mean_log_mah_rescaled", "n_samples", "log_mah_samples", "log_mah_rescaled_samples"]:
        if k not in g:
            return f"{cs}: column {k} is missing"
    have = list(zip(g["lgm_obs"].tolist(), g["t_obs"].tolist()))
    want = [(bins[i]["lgm"], bins[i]["t"]) for i in passing]
    if mean == "tab":
        if sorted(have) != sorted(want):
            return f"{cs}: bins {sorted(have)} instead of {sorted(want)}"
        passing = [i for h in have for i, b in enumerate(bins) if (b["lgm"], b["t"]) == h]
    elif have != want:
        return f"{cs}: bins {have} instead of {want}"
    if mean == "stored":
        M = mean_data(bins, spec["n_t"], spec["seed"] + (cs == "sats"))
    else:
        st = [stats(b, 25, True) for b in bins]
        M = {k: np.array([x[k] for x in st]) for k in MEAN}
    tol = 0 if mean == "stored" else TOL
    for row, i in enumerate(passing):
        b = bins[i]
        tag = f"{cs} bin lgm={b['lgm']} t={b['t']}"
        for k in MEAN:
            w = near(g[k][row], M[k][i], tol if k not in ("frac_peaked", "t_table") else 1e-9 if tol else 0)
            if w:
                return f"{tag}: {k} {w}"
        w = near(g["mean_log_mah_rescaled"][row], M["mean_log_mah"][i] - (M["mean_log_mah"][i][-1] - b["lgm"]), max(tol, 1e-9))
        if w:
            return f"{tag}: mean_log_mah_rescaled {w}"
        if int(g["n_samples"][row]) != b["n"]:
            return f"{tag}: n_samples is {int(g['n_samples'][row])}, the file holds {b['n']}"
        P = np.array([g[k][row] for k in PAR], float).T
        if P.shape != (nmin, 5):
            return f"{tag}: samples have shape {P.shape}, expected {(nmin, 5)}"
        stored = {r.tobytes(): j for j, r in enumerate(rows_of(b))}
        idx = [stored.get(np.ascontiguousarray(r).tobytes()) for r in P]
        if None in idx:
            return f"{tag}: sample {idx.index(None)} {P[idx.index(None)].tolist()} is no row of the bin's file"
        if len(set(idx)) != len(idx):
            return f"{tag}: {len(idx) - len(set(idx))} rows were drawn twice"
        t = M["t_table"][i]
        L = pop.ref_log_mah(P, t, LGT_LOAD)
        w = near(g["log_mah_samples"][row], L, TOL)
        if w:
            return f"{tag}: log_mah_samples {w}"
        w = near(g["log_mah_rescaled_samples"][row], L - (L[:, -1:] - b["lgm"]), 2 * TOL)
        if w:
            return f"{tag}: log_mah_rescaled_samples {w}"
        if np.any(np.abs(g["log_mah_rescaled_samples"][row][:, -1] - b["lgm"]) > 1e-5):
            return f"{tag}: a rescaled history does not end at the bin's mass"
    return None


def check_tab(got, spec, kw):
    n_t, resc = kw.get("n_t_target", 25), kw.get("rescale", True)
    for cs, g in zip(("cens", "sats"), got):
        bins = [b for b in spec[cs] if b["n"] > kw.get("nh_min", 100)]
        if set(g) != set(MEAN):
            return f"{cs}: columns {sorted(g)}"
        have = list(zip(np.atleast_1d(g["lgm_obs"]).tolist(), np.atleast_1d(g["t_obs"]).tolist()))
        if sorted(have) != sorted((b["lgm"], b["t"]) for b in bins):
            return f"{cs}: bins {sorted(have)} instead of {sorted((b['lgm'], b['t']) for b in bins)}"
        for k in MEAN:
            if len(g[k]) != len(have):
                return f"{cs}: column {k} has {len(g[k])} rows, not {len(have)}"
        for row, h in enumerate(have):
            b = next(b for b in bins if (b["lgm"], b["t"]) == h)
            e = stats(b, n_t, resc)
            for k in MEAN[2:]:
                w = near(g[k][row], e[k], TOL if k not in ("frac_peaked", "t_table") else 1e-6)
                if w:
                    return f"{cs} bin lgm={b['lgm']} t={b['t']}: {k} {w}"
    return None


class Exec:
    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.fs = os.path.join(root, "fs")
        self.bad = []
        self.ncheck = 0

    def on_outside(self, sim, a, op, path):
        self.bad.append(("outside-mutation", f"tried to {op} {path}"))

    def on_mutate(self, sim, a, cls, path):
        pass

    def on_remove(self, sim, a, op, path, path2):
        pass

    def errs(self):
        return sum(v for k, v in self.sim.fired.items() if not k.startswith(("short_", "eintr", "dir_permuted", "clock_jump")))

    def on_note(self, sim, a, m):
        if m[0] == "start":
            self.e0, self.cur = self.errs(), m[1]
            return
        i, r = m[1], m[2]
        self.cur = None
        op = self.ops[i]
        spec = self.plan["dirs"][op["dir"]]
        disturbed = self.errs() > self.e0
        self.nerr += disturbed
        st = self.mean[op["dir"]]
        tag = f"op {i} {op['op']} {op['dir']} {op.get('kw', '')} {op.get('draw', '')}"
        if op["op"] == "write":
            ok = self.intact(spec, op)
            to = op.get("to", op["dir"])
            if r[0] == "ok":
                self.mean[to] = ["tab"] if to == op["dir"] else ["tab:" + op["dir"]]
                sim.probe("written")
                if ok is False:
                    self.bad.append(("torn-accepted", f"{tag}: tables were written although {spec['damage']}"))
            else:
                self.mean[to] = st + ["tab", None]
                if ok and not disturbed:
                    self.bad.append(("lasting-effect" if self.nerr else "spurious-error", f"{tag}: {r[1]}: {r[2]}"))
            return
        whole = self.intact(spec, op)
        if op["op"] == "load" and st != ["stored"]:
            # written tables: a stored bin or table that is damaged may be gone from them
            whole = True if st == ["tab"] and not spec.get("damage") else None
        if r[0] == "raise":
            sim.probe("raised")
            if whole is True and not disturbed:
                self.bad.append(("lasting-effect" if self.nerr else "spurious-error", f"{tag}: {r[1]}: {r[2]}"))
            return
        if whole is False:
            self.bad.append(("torn-accepted", f"{tag}: returned a result although {spec['damage']}"))
            return
        self.ncheck += 1
        if op["op"] == "tab":
            w = [check_tab(r[1], self.left(spec), op["kw"])]
        else:
            w = []
            for cs, g in zip(("cens", "sats"), r[1]):
                if None in st and not set(MEAN) <= set(g):
                    sim.probe("incomplete_table_seen")  # left by a write that failed or was killed: not hidden
                    continue
                v = [check_load(g, cs, self.left(spec) if s == "tab" else spec, op, s) for s in st if s]
                w += [] if None in v else v or [f"{cs}: there is no table"]
            w = w or [None]
        if None in w:
            sim.probe("exact_despite_fault" if disturbed else "exact")
            return
        self.bad.append(("silent-wrong" if disturbed else "lasting-effect" if self.nerr else "wrong-values", f"{tag}: {w}"))

    def left(self, spec):
        """What a tabulation sees: a missing file is no file."""
        d = spec.get("damage")
        if not d or d["how"] != "missing":
            return spec
        return dict(spec, **{cs: [b for b in spec[cs] if bn(b, cs) != d["file"]] for cs in ("cens", "sats")})

    def intact(self, spec, op):
        """False: the call has to fail; None: it may."""
        d = spec.get("damage")
        if not d:
            return True
        if d["file"].startswith("mean_var"):
            return False if op["op"] == "load" else True
        if op["op"] in ("tab", "write"):
            return False if d["how"] != "missing" else None
        cs = "cens" if ".cens" in d["file"] else "sats"
        s = cs[:3]
        b = next(b for b in spec[cs] if bn(b, cs) == d["file"])
        kw = op["kw"]
        cut = b["t"] > kw.get(f"t_obs_min_{s}", 2.5) and b["lgm"] < kw.get(f"lgm_obs_max_{s}", dict(cen=14.5, sat=13.5)[s])
        return False if cut else None

    def run(self):
        plan = self.plan
        self.mean = {}
        for n, s in plan["dirs"].items():
            make_dir(os.path.join(self.fs, n), s)
            self.mean[n] = ["stored"] if s.get("mean", 1) else [None]
        for dp, ds, fs in os.walk(self.fs):
            os.chmod(dp, 0o777)
            for x in fs:
                os.chmod(os.path.join(dp, x), 0o666)
        self.sim = sim = Sim(plan, self.root, child.child_main, setup.SHIM, observer=self)
        before = tree(self.fs)
        try:
            for i, inc in enumerate(plan["incs"]):
                self.ops, self.cur, self.nerr = inc["ops"], None, 0
                spec = dict(jobs=[dict(nranks=1, cwd="", program=dict(kind="call", fn="targets_history", prelude="memo_pop", args=dict(ops=inc["ops"])))], faults=inc.get("faults", []))
                r = sim.run_inc(i, spec)[0]
                if not r["ok"]:
                    crash = any(f["kind"] != "err" for f in inc.get("faults", []))
                    died = self.cur is not None and r["status"][0] is not None and r["status"][0] < 0 and self.errs() > self.e0
                    if not died and not crash:
                        self.bad.append(("spurious-error", f"program died: {r['exc']} {r['status']}"))
                    elif self.cur is not None and self.ops[self.cur]["op"] == "write":
                        sim.probe("writer_crashed")
                        d = self.ops[self.cur].get("to", self.ops[self.cur]["dir"])
                        self.mean[d] = self.mean[d] + ["tab", None]
                if self.bad:
                    break
            after = tree(self.fs)
            written = {os.path.join(op.get("to", op["dir"]), f"mean_var_{cs}.h5") for inc in plan["incs"] for op in inc["ops"] if op["op"] == "write" for cs in ("cens", "sats")}
            for p in sorted(set(before) | set(after)):
                if p not in written and before.get(p, 0) != after.get(p, 0):
                    self.bad.append(("input-changed", f"{p} was {'created' if p not in before else 'deleted' if p not in after else 'changed'}"))
        except Violation as v:
            self.bad.append((v.kind, v.detail))
        finally:
            sim.close()
        return dict(bad=self.bad, events=sim.nev, digest=sim.events.hexdigest(), sched=sim.sched_hash.hexdigest(), steps=sim.steps_total, choices=sim.nchoice,
                    simtime=sim.simtime, fired=sim.fired, probes=sim.probes, oplist=sim.oplist, log=sim.choice_log, trace=sim.trace,
                    extra=dict(calls_compared=self.ncheck, calls=sum(len(i["ops"]) for i in plan["incs"])))


def execute(plan):
    plan = dict(plan, programs=["vsim.pop", "vsim.targets"])
    for mode in ((plan["mode"],) if plan.get("mode") else ("fork", "spawn")):
        root = engine.fresh_root(setup.scratch())
        try:
            r = Exec(dict(plan, mode=mode), root).run()
            r["mode"] = mode
            return r
        except NeedFresh as e:
            if mode == "spawn":
                raise HarnessError(str(e))
            if os.environ.get("VSIM_DEBUG"):
                print("NeedFresh", str(e)[-1500:], flush=True)
        finally:
            engine.drop_root(root)
    raise HarnessError("no mode left (replay of a forked run needs XLA)")


# ------------------------------------------------------------------ generation
def gen_bins(rng, sizes):
    bs = [(g, t) for g in LGM for t in T_OBS]
    out = [dict(lgm=g, t=t, n=rng.choice(sizes), seed=rng.randrange(1 << 20)) for g, t in rng.sample(bs, rng.randint(1, 7))]
    if rng.random() < 0.3:
        out.sort(key=lambda b: (b["t"], b["lgm"]))
    return out


SMALL = [1, 2, 3, 4, 5, 6, 9, 12]
NAMES = ["A", "B", "my data", "run[1]", "a*b", "it's", "NM_12_NT_9_ISTART_0_IEND_576", "deep/er", "x_cens.npy", "lgm_1_t_2"]


def gen_case(rng, prop):
    dirs = {}
    for n in rng.sample(NAMES, rng.choice([1, 2, 2, 3])):
        big = rng.random() < (0.12 if prop == "C11" else 0.5)
        sizes = ([90, 100, 101, 102, 130, 199, 200, 201, 240] if big else SMALL) + ([3] if prop == "C13" else [])
        s = dict(n_t=25 if big and rng.random() < 0.5 else 4, seed=rng.randrange(1 << 20), big=int(big))
        s["cens"], s["sats"] = gen_bins(rng, sizes), gen_bins(rng, sizes)
        if rng.random() < 0.5:  # same bins: only the file tells them apart
            s["sats"] = [dict(b, n=rng.choice(sizes), seed=rng.randrange(1 << 20)) for b in s["cens"]]
        if prop == "C13" and rng.random() < 0.5:
            s["mean"] = 0
        if rng.random() < 0.4:
            s["extra"] = rng.sample(["notes.txt", "mean_var_cens.h5.bak", "subvol_0_lgm_11.00_t_2.00_mah_params.cens.txt", "lgm_12.00_t_3.00_mah_params.cens.npy.tmp", "README.npy"], 2)
        if rng.random() < 0.2:
            fs = [bn(b, cs) for cs in ("cens", "sats") for b in s[cs]] + (["mean_var_cens.h5", "mean_var_sats.h5"] if s.get("mean", 1) else [])
            s["damage"] = dict(file=rng.choice(fs), how=rng.choice(["missing", "empty", "cut", "cut"]), frac=rng.choice([0.02, 0.3, 0.6, 0.9, 0.999]))
        dirs[n] = s
    return dirs


def gen_op(rng, prop, dirs):
    d = rng.choice(sorted(dirs))
    s = dirs[d]
    x = rng.random()
    if prop == "C13" and x < 0.7:
        if x < 0.45:
            kw = {}
            if not s["big"] or rng.random() < 0.6:
                kw["nh_min"] = rng.choice([b["n"] for b in s["cens"] + s["sats"]] + [0, 3, 100])
            if rng.random() < 0.5:
                kw["n_t_target"] = rng.choice(N_T)
            if rng.random() < 0.5:
                kw["rescale"] = rng.choice([True, False])
            return dict(op="tab", dir=d, kw=kw)
        return dict(op="write", dir=d)
    kw = {}
    if not s["big"] or rng.random() < 0.6:
        kw["n_sample_min"] = rng.choice([b["n"] for b in s["cens"] + s["sats"]])
    for c in ("cen", "sat"):
        if rng.random() < 0.4:
            kw[f"t_obs_min_{c}"] = rng.choice(T_OBS + [0.0, 3.3])
        if rng.random() < 0.4:
            kw[f"lgm_obs_max_{c}"] = rng.choice(LGM + [12.2, 99.0])
    return dict(op="load", dir=d, kw=kw, draw=rng.choice(["seed", "seed", "first", "last", "rot", "perm"]), seed=rng.randrange(1 << 20))


def usable(plan):
    """A load after a write needs at least one bin in the written tables."""
    for inc in plan["incs"]:
        ok = []
        for op in inc["ops"]:
            s = plan["dirs"][op["dir"]]
            if op["op"] == "write" and not all(any(b["n"] > 100 for b in s[cs]) for cs in ("cens", "sats")):
                continue
            ok.append(op)
        inc["ops"] = ok
    return plan


def run_task(task, emit):
    prop, seed = task["prop"], task["seed"]
    rng = random.Random(mix(seed, "case"))
    dirs = gen_case(rng, prop)
    ops = [gen_op(rng, prop, dirs) for _ in range(rng.randint(2, 6))]
    k = gen_knobs(rng)
    k.update(sync=0, slow=0)
    if prop == "C13":
        k["perm"] = rng.choice([0, 1, 1])
    plan = usable(dict(prop=prop, seed=seed, dirs=dirs, policy="default", knobs=k, incs=[dict(ops=ops)]))
    if not plan["incs"][0]["ops"]:
        return
    if task.get("mode"):
        plan["mode"] = task["mode"]
    plan["record_ops"] = 1
    r = execute(plan)
    plan.pop("record_ops")
    if emit(plan, r):
        return
    oplist = {k: v for k, v in r["oplist"].items() if k.startswith("0:")}
    if not oplist.get("0:0.0"):
        return
    wops = [n + 1 for n, (c, p) in enumerate(oplist["0:0.0"]) if c in ("write", "trunc", "close", "open_w") and "mean_var" in p]
    again = [dict(op="load", dir=d, kw=dict(n_sample_min=min(b["n"] for b in s["cens"] + s["sats"])), draw="seed", seed=7) for d, s in dirs.items()]
    for v in range(task["variants"]):
        p = copy.deepcopy(plan)
        vr = random.Random(mix(seed, "vr", v))
        if wops and vr.random() < 0.3:
            p["incs"][0]["faults"] = [dict(kind="crash", actor="0.0", n=vr.choice(wops), mode=vr.choice(["before", "after", "torn"]), arg=vr.randrange(1 << 16))]
        else:
            fs = [gen_err(vr, oplist, ["0:0.0"], "targets") for _ in range(vr.choice([1, 1, 2]))]
            for f in fs:
                if f and f.get("persist") and vr.random() < 0.5:
                    f.pop("persist")
            p["incs"][0]["faults"] = [f for f in fs if f]
        p["incs"].append(dict(ops=again))
        if emit(p, execute(p)):
            return


def shrinks(plan):
    def cp():
        return copy.deepcopy(plan)
    for k, v in plan.get("knobs", {}).items():
        if v:
            p = cp(); p["knobs"][k] = 0; yield p
    if len(plan["incs"]) > 1:
        p = cp(); del p["incs"][-1]; yield p
    for i, inc in enumerate(plan["incs"]):
        for q in range(len(inc.get("faults", []))):
            p = cp(); del p["incs"][i]["faults"][q]; yield p
        if len(inc["ops"]) > 1:
            for q in (range(len(inc["ops"])) if not inc.get("faults") else [len(inc["ops"]) - 1]):
                p = cp(); del p["incs"][i]["ops"][q]; yield p
    used = {o["dir"] for i in plan["incs"] for o in i["ops"]}
    for n in plan["dirs"]:
        if n not in used:
            p = cp(); del p["dirs"][n]; yield p
    faults = any(i.get("faults") for i in plan["incs"])
    for n, s in plan["dirs"].items():
        if s.get("extra"):
            p = cp(); p["dirs"][n]["extra"] = []; yield p
        for cs in ("cens", "sats"):
            if len(s[cs]) > 1 and not faults:
                for q in range(len(s[cs])):
                    if bn(s[cs][q], cs) != (s.get("damage") or {}).get("file"):
                        p = cp(); del p["dirs"][n][cs][q]; yield usable(p)


def init(group):
    import astropy.table  # noqa: F401
    import diffmah.diffmahpop_kernels.load_diffmahpop_fitdata  # noqa: F401
    import umachine_pyio.load_mock  # noqa: F401
    sys.path.insert(0, DIR)
    import smdpl_diffmahpop_utils as u
    pop.wrap_jitted(u)
    sys.path.remove(DIR)
    for t in T_OBS:
        for n in N_T:
            for l in (LGT_LOAD, LGT_TAB):
                pop.remember(ttab(t, n), l)


def tasks(prop, tier, seed):
    n = 500 if tier == "quick" else 20000
    out = [dict(group="plain", prop=prop, seed=mix(seed, prop, i) >> 12, variants=6) for i in range(n)]
    for i in range(4 if tier == "quick" else 100):
        out.insert(i * 9, dict(group="plain", prop=prop, seed=mix(seed, prop, "real", i) >> 12, variants=0, mode="spawn"))
    return out


def group_of(plan):
    return "plain"


REAL = ["diffmah.diffmahpop_kernels.load_diffmahpop_fitdata", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py (mean and variance tables)", "numpy, h5py/HDF5, astropy tables"]
STUB = ["halo histories in forked ranks are looked up: the real kernel computed them for the same parameters and times before the fork; the runs counted as real_fit_runs compute them in the rank",
        "the draws of numpy's global random source (seeded, or the first, last, a rotated or a permuted choice)",
        "numpy's C-stdio fast path for .npy files (its Python path is used, below which the fault seam sits)"]


def describe(plan):
    return dict(dirs={n: dict(cens=[(b["lgm"], b["t"], b["n"]) for b in s["cens"]], sats=[(b["lgm"], b["t"], b["n"]) for b in s["sats"]], damage=s.get("damage")) for n, s in plan["dirs"].items()},
                ops=[[(o["op"], o["dir"], o.get("kw"), o.get("draw"), o.get("seed")) for o in i["ops"]] for i in plan["incs"]], faults=[i.get("faults", []) for i in plan["incs"]], knobs=plan["knobs"], seed=plan["seed"])
