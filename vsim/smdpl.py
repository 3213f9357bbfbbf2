"""Check C12: the SMDPL tabulation under kills, errors, left-overs and neighbours."""
import copy
import os
import random
import sys

import numpy as np

from . import child, engine, pop, setup
from .engine import HarnessError, NeedFresh, Sim, Violation, mix
from .jobs import FATAL, gen_crash, gen_err, gen_knobs, tree

DIR = os.path.join(setup.REPO, "scripts", "diffmahpop_tabulation")
PATH = os.path.join(DIR, "measure_smdpl_diffmahpop.py")
KINDS = {"C12": FATAL | {"wrong-table", "missing-table", "extra-table", "job-failed", "leftover-temp", "extra-file", "foreign-changed", "input-changed", "outside-mutation",
                         "early-delete", "silent-wrong"}}
GROUPS = {"plain": []}
WORKERS = {"plain": 7}
GRIDS = [(1, 1), (2, 1), (2, 2), (3, 2), (5, 3), (1, 3)]
BIG = (12, 9)
HALF = 0.15
PER_SUBVOL = 20_000 // 576
T_TAB = np.array([0.61, 1.23, 1.94, 3.07, 4.4, 4.97, 6.6, 7.8, 8.3, 9.7, 10.9, 12.2, pop.T0])


def t_obs_grid(n_t):
    return np.linspace(2.0, pop.T0, n_t)


def lgm_grid(t, n_m):
    return np.linspace(11, 15 + 0.075 * (t - 15.0), n_m)


_LM, _OK = {}, []


def lm_at(t):
    """log10 mass of every halo of the pool at t"""
    k = round(float(t), 6)
    if k not in _LM:
        _LM[k] = pop.ref_log_mah(pop.pool(), [t], np.log10(pop.T0))[:, 0]
    return _LM[k]


def usable():
    """Halos of the pool that are not at the very edge of a bin of any grid."""
    if not _OK:
        ok = np.ones(pop.NPOOL, bool)
        for n_m, n_t in GRIDS + [BIG]:
            for t in t_obs_grid(n_t):
                for g in lgm_grid(t, n_m):
                    ok &= np.abs(np.abs(lm_at(t) - g) - HALF) > 1e-3
        _OK.extend(int(i) for i in np.flatnonzero(ok))
    return _OK


def cens(wl, s):
    """upid history (n, times): -1 for a central"""
    n = len(wl["subvols"][str(s)])
    r = np.random.RandomState(wl["seed"] % 10**6 + s)
    if wl["upid"] == "cens":
        return np.full((n, len(T_TAB)), -1, dtype="i8")
    if wl["upid"] == "sats":
        return 10 + r.randint(0, 99, (n, len(T_TAB))).astype("i8")
    return np.where(r.uniform(size=(n, len(T_TAB))) < 0.6, -1, 10 + r.randint(0, 99, (n, len(T_TAB)))).astype("i8")


def loss(wl, s):
    n = len(wl["subvols"][str(s)])
    r = np.random.RandomState(wl["seed"] % 10**6 + 31 * s + 5)
    x = r.uniform(0, 0.1, n)
    x[r.uniform(size=n) < wl["bad"]] = -1
    return x


def params(wl, s):
    p = pop.pool()[wl["subvols"][str(s)]]
    return p.astype(wl["dt"])


def binname(g, t, cs):
    return f"lgm_{g:.2f}_t_{t:.2f}_mah_params.{cs}"


def binnames(b):
    """File names of a bin: its mass and time to two decimals, where a value in
    the middle of two (single or double precision) may go either way."""
    g, t, cs = b
    return sorted({binname(g + dg, t + dt, cs) for dg in (-1e-5, 1e-5) for dt in (-1e-5, 1e-5)})


def samples(wl, s):
    """{bin: rows} of one subvolume"""
    out = {}
    good = loss(wl, s) != -1
    idx = np.array(wl["subvols"][str(s)])[good]
    P, U = params(wl, s)[good], cens(wl, s)[good]
    for t in t_obs_grid(wl["n_t"]):
        u = U[:, np.argmin(np.abs(t - T_TAB))]
        for g in lgm_grid(t, wl["n_m"]):
            inb = np.abs(lm_at(t)[idx] - g) < HALF
            for cs, m in (("cens", inb & (u == -1)), ("sats", inb & (u != -1))):
                rows = P[m][:PER_SUBVOL]
                if len(rows):
                    rows = np.hstack([rows, rows[:, 4:5]])
                    out[float(g), float(t), cs] = np.array([[float("%.4f" % x) for x in r] for r in rows])
    return out


def expected(wl, lo, hi):
    out = {}
    for s in range(lo, hi):
        for b, r in samples(wl, s).items():
            out.setdefault(b, []).append(r)
    return {b: np.concatenate(r) for b, r in out.items()}


def materialise(wl, d):
    import h5py
    from umachine_pyio.memmap_array_utils import write_ndarray_to_memmap
    os.makedirs(os.path.join(d, "fits"))
    os.makedirs(os.path.join(d, "sfh"))
    np.savetxt(os.path.join(d, "sfh", "smdpl_cosmic_time.txt"), T_TAB)
    for s in wl["subvols"]:
        P = params(wl, int(s))
        with h5py.File(os.path.join(d, "fits", f"subvol_{int(s):03d}_diffmah_fits.h5"), "w") as h:
            for j, k in enumerate(("logm0", "logtc", "early_index", "late_index", "t_peak")):
                h[k] = P[:, j]
            h["loss"] = loss(wl, int(s))
            h["n_points_per_fit"] = np.arange(len(P))
        U = cens(wl, int(s))
        for name, arr in (("halo_id", np.arange(len(U)) + 9007199254740993), ("upid_history", U)):
            dd = os.path.join(d, "sfh", f"subvol_{s}", name)
            os.makedirs(dd)
            write_ndarray_to_memmap(arr, os.path.join(dd, name + ".memmap"))


def npy_is(fn, exp):
    try:
        g = np.load(fn)
    except FileNotFoundError:
        return "missing"
    except Exception as e:
        return f"unreadable ({type(e).__name__}: {str(e)[:80]})"
    if g.shape != exp.shape:
        return f"has shape {g.shape}, expected {exp.shape}"
    if not np.array_equal(g, exp):
        i = int(np.argmax(np.any(g != exp, axis=1)))
        return f"row {i} is {g[i].tolist()}, expected {exp[i].tolist()}"
    return None


class Exec:
    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.fs = os.path.join(root, "fs")
        self.bad, self.notes = [], []
        self.outdir = os.path.normpath(os.path.join(self.fs, plan["outdir"]))
        self._exp = {}

    def exp(self, r):
        r = tuple(r)
        if r not in self._exp:
            self._exp[r] = expected(self.plan["wl"], *r)
        return self._exp[r]

    def drn(self, r):
        wl = self.plan["wl"]
        return os.path.join(self.outdir, f"NM_{wl['n_m']}_NT_{wl['n_t']}_ISTART_{r[0]}_IEND_{r[1]}")

    def out(self, r, b):
        c = [os.path.join(self.drn(r), n + ".npy") for n in binnames(b)]
        return next((p for p in c if os.path.exists(p)), c[0])

    def prepare(self):
        p = self.plan
        materialise(p["wl"], os.path.join(self.fs, "in"))
        os.makedirs(self.outdir, exist_ok=True)
        for n, txt in p.get("foreign", []):
            with open(os.path.join(self.outdir, n), "w") as f:
                f.write(txt)
        for dp, ds, fs in os.walk(self.fs):
            os.chmod(dp, 0o777)
            for x in fs:
                os.chmod(os.path.join(dp, x), 0o666)
        self.foreign = {n for n, _ in p.get("foreign", [])}

    # ---- observer
    def on_outside(self, sim, a, op, path):
        self.bad.append(("outside-mutation", f"{a.name} tried to {op} {path}"))

    def on_mutate(self, sim, a, cls, path):
        pass

    def on_remove(self, sim, a, op, path, path2):
        if op == "rename":
            if path2 and os.path.isfile(path2) and os.path.realpath(path) != os.path.realpath(path2):
                path = path2
            else:
                return
        if op == "rmdir" or not os.path.isfile(path):
            return
        if os.path.basename(path) in self.foreign and os.path.dirname(path) == self.outdir:
            self.bad.append(("foreign-changed", f"{a.name} deletes {sim.rel(path)}, which is not a file of its range"))
            return
        try:
            rows = np.loadtxt(path).reshape(-1, 6)
        except Exception:
            return
        sim.probe("delete")
        have = set()
        for j in self.jobs:
            for b, e in self.exp(j["range"]).items():
                if npy_is(self.out(j["range"], b), e) is None:
                    have |= {r.tobytes() for r in e}
        for r in rows:
            if r.tobytes() not in have:
                self.bad.append(("early-delete", f"{a.name} deletes {sim.rel(path)} while no complete collated file holds its row {r.tolist()}"))
                return

    def job_spec(self, j):
        def form(d):
            ab = os.path.join(self.fs, d)
            return {"abs": ab, "slash": d + "/", "rel": d}[self.plan.get("form", "rel")]
        wl = self.plan["wl"]
        argv = [form(self.plan["outdir"]), "-istart", j["range"][0], "-iend", j["range"][1], "-diffmah_drn", form("in/fits"), "-sfhcat_drn", form("in/sfh")]
        if (wl["n_m"], wl["n_t"]) != BIG:
            argv += ["-n_m", wl["n_m"], "-n_t", wl["n_t"]]
        return dict(nranks=1, cwd="", program=dict(kind="script", path=PATH, sys_path=[DIR], argv=argv, prelude="memo_pop"))

    def tables(self, r, wrong):
        e = self.exp(r)
        good = set()
        for b in sorted(e):
            p = self.out(r, b)
            why = npy_is(p, e[b])
            good.add(os.path.basename(p))
            if why:
                self.bad.append((wrong if why != "missing" or wrong != "wrong-table" else "missing-table", f"{os.path.relpath(p, self.outdir)}: {why}"))
        have = set(os.listdir(self.drn(r))) if os.path.isdir(self.drn(r)) else set()
        for n in sorted(have - good):
            self.bad.append(("extra-table" if wrong == "wrong-table" else wrong, f"{os.path.basename(self.drn(r))}/{n} should not be there"))
        return len(e)

    def run(self):
        plan = self.plan
        self.prepare()
        self.sim = sim = Sim(plan, self.root, child.child_main, setup.SHIM, observer=self)
        ntab = 0
        done = set()
        before0 = tree(self.fs)
        try:
            for i, inc in enumerate(plan["incs"]):
                fired0 = dict(sim.fired)
                self.jobs = inc["jobs"]
                res = sim.run_inc(i, dict(jobs=[self.job_spec(j) for j in inc["jobs"]], faults=inc.get("faults", [])))
                disturbed = any(v != fired0.get(k, 0) for k, v in sim.fired.items() if not k.startswith(("short_", "eintr", "dir_permuted", "clock_jump")))
                for j, r in zip(inc["jobs"], res):
                    self.notes.append((i, r["ok"], r["status"], [e and list(e) for e in r["exc"]]))
                    if r["ok"]:
                        sim.probe("ok_despite_fault" if disturbed else "ok")
                        ntab += self.tables(j["range"], "silent-wrong" if disturbed else "wrong-table")
                        done.add(tuple(j["range"]))
                        continue
                    done.discard(tuple(j["range"]))  # it may have died rewriting its own files
                    if not disturbed:
                        self.bad.append(("job-failed", f"undisturbed run failed: {r['exc']} status {r['status']}"))
                    else:
                        sim.probe("failed")
                for r in sorted(done - {tuple(j["range"]) for j in inc["jobs"]}):
                    n0 = len(self.bad)
                    self.tables(r, "wrong-table")
                    self.bad[n0:] = [("foreign-changed", "run on another range: " + d) for _, d in self.bad[n0:]]
                if self.bad:
                    break
            if not disturbed and not self.bad and done == {tuple(j["range"]) for i in plan["incs"] for j in i["jobs"]}:
                self.check_tree(before0, inc["jobs"], done)
        except Violation as v:
            self.bad.append((v.kind, v.detail))
        finally:
            sim.close()
        return dict(bad=self.bad, events=sim.nev, digest=sim.events.hexdigest(), sched=sim.sched_hash.hexdigest(), steps=sim.steps_total, choices=sim.nchoice,
                    simtime=sim.simtime, fired=sim.fired, probes=sim.probes, oplist=sim.oplist, log=sim.choice_log, notes=self.notes, trace=sim.trace,
                    extra=dict(collated_files_compared=ntab))

    def check_tree(self, before, jobs, done):
        """After the last, undisturbed incarnation (which covers all ranges that
        ever ran) nothing but the collated files may be new."""
        after = tree(self.fs)
        rel = lambda p: os.path.relpath(p, self.fs)
        okdirs = {rel(self.drn(j["range"])) for i in self.plan["incs"] for j in i["jobs"]}
        for p in sorted(set(before) | set(after)):
            if before.get(p, 0) == after.get(p, 0) or p in okdirs or os.path.dirname(p) in okdirs:
                continue
            if p not in before:
                self.bad.append(("leftover-temp" if "subvol" in p else "extra-file", f"{p} left behind"))
            else:
                k = "input-changed" if p.startswith("in/") else "foreign-changed"
                self.bad.append((k, f"{p} was {'deleted' if p not in after else 'changed'}"))


def execute(plan):
    plan = dict(plan, programs=["vsim.pop"])
    for mode in ((plan["mode"],) if plan.get("mode") else ("fork", "spawn")):
        root = engine.fresh_root(setup.scratch())
        try:
            r = Exec(dict(plan, mode=mode), root).run()
            r["mode"] = mode
            return r
        except NeedFresh as e:
            if mode == "spawn":
                raise HarnessError(str(e))
            if os.environ.get("VSIM_DEBUG"):
                print("NeedFresh", str(e)[-1500:], flush=True)
        finally:
            engine.drop_root(root)
    raise HarnessError("no mode left (replay of a forked run needs XLA)")


NAMES = [[0], [0, 1], [0, 1, 2], [1, 2], [9, 10, 11], [1, 2, 3], [5], [98, 99, 100, 101], [1, 10], [0, 1, 2, 3]]


def gen_halos(rng, big):
    us = usable()
    if big:
        # so many in one bin that the cap matters
        n_m, n_t = big
        t = rng.choice(list(t_obs_grid(n_t)))
        g = rng.choice(list(lgm_grid(t, n_m)))
        near = [i for i in us if abs(lm_at(t)[i] - g) < HALF]
        if near:
            return [rng.choice(near) for _ in range(rng.randint(36, 80))] + [rng.choice(us) for _ in range(10)]
    return [rng.choice(us) for _ in range(rng.choice([1, 2, 5, 12, 25, 40]))]


def foreign(rng, wl, ranges):
    n_m, n_t = wl["n_m"], wl["n_t"]
    used = {s for r in ranges for s in range(*r)}
    txt = "# logm0\n12.0000 0.1000 2.0000 1.0000 5.0000 5.0000\n"
    c = [("notes.txt", "x\n"), ("subvol_notes.txt", "y\n"), (".hidden", "z\n")]
    for _ in range(8):
        t = rng.choice(list(t_obs_grid(n_t)))
        g = rng.choice(list(lgm_grid(t, n_m)))
        cs = rng.choice(["cens", "sats"])
        near = [x for s in used for x in (s * 10, s * 10 + 1, 10 + s, s + 100)] + [7, 57, 300]
        s = rng.choice([x for x in near if x not in used])
        c.append((f"subvol_{s}_{binname(g, t, cs)}.txt", txt))
        s = rng.choice(sorted(used))
        c.append((rng.choice([f"xsubvol_{s}_{binname(g, t, cs)}.txt", f"subvol_{s}_{binname(g, t, cs)}.txt.bak", f"subvol_{s}_lgm_99.00_t_{t:.2f}_mah_params.{cs}.txt",
                              f"subvol_0{s}_{binname(g, t, cs)}.txt", f"subvol_{s}_{s}_{binname(g, t, cs)}.txt", f"lgm_{g:.2f}_t_{t:.2f}_mah_params.{cs}.npy"]), txt))
    return sorted({n: t for n, t in rng.sample(c, rng.randint(2, 8))}.items())


DIRS = ["out", "out", "out", "my out", "it's", "a*b", "run[1]", "deep/er/out", "q?x", "subvol_0"]


def run_task(task, emit):
    seed = task["seed"]
    rng = random.Random(mix(seed, "case"))
    n_m, n_t = BIG if task.get("big") else rng.choice(GRIDS)
    names = rng.choice(NAMES)
    sub = {str(s): gen_halos(rng, (n_m, n_t) if rng.random() < 0.25 else None) for s in names}
    wl = dict(n_m=n_m, n_t=n_t, subvols=sub, seed=rng.randrange(10**6), upid=rng.choice(["mix", "mix", "mix", "cens", "sats"]), bad=rng.choice([0, 0.2, 0.2, 1.0 if rng.random() < 0.3 else 0.5]),
              dt=rng.choice(["f8", "f4"]))
    # the ranges: consecutive names
    runs, cur = [], [names[0], names[0] + 1]
    for s in names[1:]:
        if s == cur[1]:
            cur[1] += 1
        else:
            runs.append(cur)
            cur = [s, s + 1]
    runs.append(cur)
    if len(runs) == 1 and runs[0][1] - runs[0][0] > 1 and rng.random() < 0.6:
        a, b = runs[0]
        m = rng.randint(a + 1, b - 1)
        runs = [[a, m], [m, b]]
        rng.shuffle(runs)
    if len(runs) > 1 and rng.random() < 0.2:
        runs = runs[:1]
    plan = dict(prop="C12", seed=seed, wl=wl, outdir=rng.choice(DIRS), form=rng.choice(["rel", "rel", "abs", "slash"]), policy=rng.choice(["uniform", "sticky", "favor", "default"]),
                knobs=gen_knobs(rng))
    both = len(runs) > 1 and rng.random() < 0.6
    plan["incs"] = [dict(jobs=[dict(range=r) for r in runs])] if both else [dict(jobs=[dict(range=r)]) for r in runs]
    plan["foreign"] = foreign(rng, wl, runs) if rng.random() < 0.7 else []
    if task.get("mode"):
        plan["mode"] = task["mode"]
    if rng.random() < 0.2:
        plan["incs"] = plan["incs"] + [copy.deepcopy(plan["incs"][0])]  # and once more
    plan["record_ops"] = 1
    r = execute(plan)
    plan.pop("record_ops")
    if emit(plan, r):
        return
    inc0 = plan["incs"][0]
    oplist = {k: v for k, v in r["oplist"].items() if k.startswith("0:")}
    actors = sorted(oplist)
    for v in range(task["variants"] if any(oplist.values()) else 0):
        p = copy.deepcopy(plan)
        vr = random.Random(mix(seed, "vr", v))
        incs = []
        for q in range(vr.choice([1, 1, 1, 2, 3])):
            f = gen_crash(vr, oplist, actors, allow_power=False) if vr.random() < 0.5 else gen_err(vr, oplist, actors, "smdpl")
            if f is None:
                continue
            j = copy.deepcopy(inc0["jobs"])
            if len(j) > 1 and vr.random() < 0.5:
                k = int(f["actor"].split(".")[0])
                j, f["actor"] = [j[k]], "0.0"
            incs.append(dict(jobs=j, faults=[f]))
        p["incs"] = incs + [dict(jobs=[j for i in ([inc0] if len(inc0["jobs"]) > 1 else plan["incs"][:len(runs)]) for j in copy.deepcopy(i["jobs"])])]
        if vr.random() < 0.3 and len(p["incs"][-1]["jobs"]) > 1:
            last = p["incs"].pop()
            p["incs"] += [dict(jobs=[j]) for j in last["jobs"]]
        if emit(p, execute(p)):
            return


def shrinks(plan):
    def cp():
        return copy.deepcopy(plan)
    if plan.get("policy") != "default":
        p = cp(); p.update(policy="default", sched=None); yield p
    for k, v in plan.get("knobs", {}).items():
        if v:
            p = cp(); p["knobs"][k] = 0; yield p
    if len(plan["incs"]) > 1:
        for i in range(len(plan["incs"]) - 1, -1, -1):
            p = cp(); del p["incs"][i]; yield p
    for i, inc in enumerate(plan["incs"]):
        for q in range(len(inc.get("faults", []))):
            p = cp(); del p["incs"][i]["faults"][q]; yield p
        if len(inc["jobs"]) > 1 and not inc.get("faults"):
            for q in range(len(inc["jobs"])):
                p = cp(); del p["incs"][i]["jobs"][q]; yield p
    if plan.get("foreign"):
        p = cp(); p["foreign"] = []; yield p
        for q in range(len(plan["foreign"])):
            p = cp(); del p["foreign"][q]; yield p
    for k, v in (("outdir", "out"), ("form", "rel")):
        if plan.get(k) != v:
            p = cp(); p[k] = v; yield p
    for s, hs in plan["wl"]["subvols"].items():
        if len(hs) > 1:
            for part in (hs[:len(hs) // 2], hs[len(hs) // 2:]):
                p = cp(); p["wl"]["subvols"][s] = part; yield p
            if len(hs) <= 8:
                for i in range(len(hs)):
                    p = cp(); del p["wl"]["subvols"][s][i]; yield p
    for k, v in (("upid", "cens"), ("bad", 0), ("dt", "f8")):
        if plan["wl"][k] != v:
            p = cp(); p["wl"][k] = v; yield p


def init(group):
    import h5py  # noqa: F401
    import umachine_pyio.load_mock  # noqa: F401
    import diffmah.diffmah_kernels  # noqa: F401
    if DIR not in sys.path:
        sys.path.insert(0, DIR)
    import smdpl_diffmahpop_utils as u
    pop.wrap_jitted(u)
    for n_m, n_t in GRIDS + [BIG]:
        for t in t_obs_grid(n_t):
            pop.remember(np.linspace(0.5, t, 2), np.log10(pop.T0))
            try:
                u.lgmarr_table_from_t_obs_kern(t, n_m=n_m)
            except Exception:
                pass
    usable()
    sys.path.remove(DIR)


def tasks(prop, tier, seed):
    n = 300 if tier == "quick" else 15000
    out = [dict(group="plain", seed=mix(seed, prop, i) >> 12, variants=6) for i in range(n)]
    for i in range(4 if tier == "quick" else 100):
        out.insert(i * 9, dict(group="plain", seed=mix(seed, prop, "real", i) >> 12, variants=0, mode="spawn"))
    for i in range(3 if tier == "quick" else 60):
        out.insert(i * 11 + 1, dict(group="plain", seed=mix(seed, prop, "big", i) >> 12, variants=2, big=1))
    return out


def group_of(plan):
    return "plain"


REAL = ["scripts/diffmahpop_tabulation/measure_smdpl_diffmahpop.py and smdpl_diffmahpop_utils.py (whole program, unmodified)", "umachine_pyio, numpy, h5py/HDF5",
        "real files on a scratch file system below the fault seam"]
STUB = ["halo histories in forked ranks are looked up: the real kernel computed them for the same parameters and times before the fork; the runs counted as real_fit_runs compute them in the rank",
        "numpy's C-stdio fast path for .npy files (its Python path is used, below which the fault seam sits)", "system clock (simulated)"]


def describe(plan):
    wl = plan["wl"]
    return dict(grid=[wl["n_m"], wl["n_t"]], halos={s: len(h) for s, h in wl["subvols"].items()}, upid=wl["upid"], bad=wl["bad"],
                ranges=[[j["range"] for j in i["jobs"]] for i in plan["incs"]], faults=[i.get("faults", []) for i in plan["incs"]], foreign=[n for n, _ in plan["foreign"]],
                knobs=plan["knobs"], policy=plan["policy"], outdir=plan["outdir"], seed=plan["seed"])
