"""Check C06: un-chunking Last Journey fits under kills, errors and reruns."""
import copy
import os
import random

import numpy as np

from . import child, engine, setup
from .engine import HarnessError, NeedFresh, Sim, Violation, mix
from .jobs import FATAL, gen_crash, gen_err, gen_knobs, tree

PATH = os.path.join(setup.REPO, "scripts", "fitting_scripts", "unchunk_last_journey_script.py")
NCH = 20
KINDS = {"C06": FATAL | {"wrong-table", "missing-table", "job-failed", "leftover-temp", "extra-file", "foreign-changed", "input-changed", "outside-mutation",
                         "early-delete", "silent-wrong", "lost-row", "error-then-delete"}}
GROUPS = {"plain": []}
WORKERS = {"plain": 7}
COLSETS = [
    [("logm0", "f8"), ("logtc", "f8"), ("early_index", "f8"), ("late_index", "f8"), ("t_peak", "f8"), ("loss", "f8"), ("n_points_per_fit", "i8"), ("fit_algo", "i8")],
    [("logm0", "f8"), ("fit_algo", "i8")],
    [("halo_id", "i8"), ("logm0", "f4"), ("loss", "f8"), ("cov", "f8x3")],
]


def chunk_data(wl, s, c):
    """Columns of one chunk file; every value identifies its row."""
    n = wl["sizes"][str(s)][c]
    base = (s * 100 + c) * 1000
    out = {}
    for j, (name, dt) in enumerate(COLSETS[wl["cols"]]):
        w = 1
        if "x" in dt:
            dt, w = dt.split("x")[0], int(dt.split("x")[1])
        if dt == "i8":
            a = base + np.arange(n * w) + j * 10**7 + (9007199254740993 if name == "halo_id" else 0)
        else:
            a = base + np.arange(n * w) + j * 0.001 + 1 / 3
            if n and (s + c + j) % 5 == 0:
                a[0] = np.nan
        a = np.asarray(a).astype(dt)
        out[name] = a.reshape(n, w) if w > 1 else a
    return out


def write_h5(fn, d):
    import h5py
    with h5py.File(fn, "w") as f:
        for k, v in d.items():
            f[k] = v


def file_is(fn, exp):
    """None if fn is a complete file holding exactly these columns."""
    import h5py
    try:
        with h5py.File(fn, "r") as f:
            if sorted(f.keys()) != sorted(exp):
                return f"columns {sorted(f.keys())} instead of {sorted(exp)}"
            for k, e in exp.items():
                g = f[k][...]
                if g.shape != e.shape:
                    return f"column {k} has shape {g.shape}, expected {e.shape}"
                if g.dtype.kind != e.dtype.kind or not np.array_equal(g, e, equal_nan=e.dtype.kind == "f"):
                    return f"column {k} holds {g.ravel()[:6].tolist()}..., expected {e.ravel()[:6].tolist()}..."
    except FileNotFoundError:
        return "missing"
    except Exception as ex:
        return f"unreadable ({type(ex).__name__}: {str(ex)[:80]})"
    return None


class Exec:
    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.fs = os.path.join(root, "fs")
        self.bad, self.notes = [], []
        self.indir = os.path.normpath(os.path.join(self.fs, plan["indir"]))
        self.outdir = os.path.normpath(os.path.join(self.fs, plan["outdir"]))
        self.exp = {}
        self.deleting = False

    def chunk(self, s, c):
        return os.path.join(self.indir, f"subvol_{s}_chunk_{c:02d}.hdf5")

    def out(self, s):
        return os.path.join(self.outdir, f"subvol_{s}_diffmah_fits.hdf5")

    def whole(self, s):
        if s not in self.exp:
            parts = [chunk_data(self.plan["wl"], s, c) for c in range(NCH)]
            self.exp[s] = {k: np.concatenate([p[k] for p in parts]) for k in parts[0]}
        return self.exp[s]

    def subs(self):
        return sorted(map(int, self.plan["wl"]["sizes"]))

    def prepare(self):
        p = self.plan
        os.makedirs(self.indir, exist_ok=True)
        if p.get("premade", 1):
            os.makedirs(self.outdir, exist_ok=True)
        self.raw = {}
        for s in self.subs():
            for c in range(NCH):
                write_h5(self.chunk(s, c), chunk_data(p["wl"], s, c))
                with open(self.chunk(s, c), "rb") as f:
                    self.raw[s, c] = f.read()
        for i, n in enumerate(p.get("foreign", [])):
            for d in {self.indir, self.outdir}:
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, n), "w") as f:
                    f.write(f"foreign {i}\n")
        for dp, ds, fs in os.walk(self.fs):
            os.chmod(dp, 0o777)
            for x in fs:
                os.chmod(os.path.join(dp, x), 0o666)

    def chunk_ok(self, s, c):
        try:
            with open(self.chunk(s, c), "rb") as f:
                return f.read() == self.raw[s, c]
        except OSError:
            return False

    def lost(self, s):
        """None if every row of subvolume s is readable somewhere."""
        if all(self.chunk_ok(s, c) for c in range(NCH)):
            return None
        why = file_is(self.out(s), self.whole(s))
        if why is None:
            return None
        miss = [c for c in range(NCH) if not self.chunk_ok(s, c)]
        return f"subvolume {s}: chunk files {miss[:5]} are gone or changed and the collated file is {why}"

    # ---- observer
    def on_outside(self, sim, a, op, path):
        self.bad.append(("outside-mutation", f"{a.name} tried to {op} {path}"))

    def on_mutate(self, sim, a, cls, path):
        if cls not in ("open_w", "trunc"):
            return
        for s in self.subs():
            if path == self.out(s) and os.path.exists(path) and not all(self.chunk_ok(s, c) for c in range(NCH)):
                self.bad.append(("lost-row", f"{a.name} rewrites the collated file of subvolume {s} although some of its chunk files are gone"))

    def on_remove(self, sim, a, op, path, path2):
        if op == "rmdir" or not os.path.isfile(path):
            return
        sim.probe("delete")
        if self.err_seen(sim):
            self.del_after_err = True
        for s in self.subs():
            for c in range(NCH):
                if path == self.chunk(s, c):
                    self.deleting = True
                    job = a.job.spec["range"]
                    for q in range(*job):
                        why = file_is(self.out(q), self.whole(q))
                        if why:
                            self.bad.append(("early-delete", f"{a.name} deletes {sim.rel(path)} while the collated file of subvolume {q} is {why}"))
                            return

    def err_seen(self, sim):
        return any(v != self.fired0.get(k, 0) for k, v in sim.fired.items() if k.startswith(("open_", "read_E", "write_", "trunc_", "persist")))

    def job_spec(self, j):
        def form(d):
            ab = os.path.join(self.fs, d)
            return {"abs": ab, "slash": d + "/", "rel": d}[self.plan.get("form", "rel")]
        return dict(nranks=1, cwd="", range=j["range"], program=dict(kind="script", path=PATH, sys_path=[os.path.dirname(PATH)],
                    argv=[j["range"][0], j["range"][1], "-indir", form(self.plan["indir"]), "-outdir", form(self.plan["outdir"])]))

    def run(self):
        plan = self.plan
        self.prepare()
        self.sim = sim = Sim(plan, self.root, child.child_main, setup.SHIM, observer=self)
        ntab = 0
        try:
            for i, inc in enumerate(plan["incs"]):
                before = tree(self.fs)
                self.fired0 = dict(sim.fired)
                self.deleting, self.del_after_err = False, False
                want = {s for j in inc["jobs"] for s in range(*j["range"])}
                intact = all(self.chunk_ok(s, c) for s in want for c in range(NCH))
                done0 = {s for s in self.subs() if file_is(self.out(s), self.whole(s)) is None}
                res = sim.run_inc(i, dict(jobs=[self.job_spec(j) for j in inc["jobs"]], faults=inc.get("faults", [])))
                disturbed = any(v != self.fired0.get(k, 0) for k, v in sim.fired.items() if not k.startswith(("short_", "eintr", "dir_permuted", "clock_jump")))
                for j, r in zip(inc["jobs"], res):
                    self.notes.append((i, r["ok"], r["status"], [e and list(e) for e in r["exc"]]))
                    if r["ok"]:
                        sim.probe("ok_despite_fault" if disturbed else "ok")
                        for s in range(*j["range"]):
                            why = file_is(self.out(s), self.whole(s))
                            ntab += 1
                            if why:
                                self.bad.append(("silent-wrong" if disturbed else "wrong-table", f"collated file of subvolume {s}: {why}"))
                    elif not disturbed and intact:
                        self.bad.append(("job-failed", f"undisturbed run failed: {r['exc']} status {r['status']}"))
                    else:
                        sim.probe("failed")
                if self.del_after_err and any(not r["ok"] for r in res) and len(res) == 1 and not any(k.startswith(("unlink", "crash", "kill")) for k in sim.fired if sim.fired[k] != self.fired0.get(k, 0)):
                    # a run that met a read or write error and failed must not have deleted anything
                    self.bad.append(("error-then-delete", f"the run failed after a file error but deleted chunk files: {res[0]['exc']}"))
                for s in self.subs():
                    why = self.lost(s)
                    if why:
                        self.bad.append(("lost-row", why))
                    if s in done0 and s not in want and file_is(self.out(s), self.whole(s)) is not None:
                        self.bad.append(("foreign-changed", f"collated file of subvolume {s} damaged by a run on others"))
                if not disturbed and intact and all(r["ok"] for r in res):
                    self.check_tree(before, want)
                if self.bad:
                    break
        except Violation as v:
            self.bad.append((v.kind, v.detail))
        finally:
            sim.close()
        return dict(bad=self.bad, events=sim.nev, digest=sim.events.hexdigest(), sched=sim.sched_hash.hexdigest(), steps=sim.steps_total, choices=sim.nchoice,
                    simtime=sim.simtime, fired=sim.fired, probes=sim.probes, oplist=sim.oplist, log=sim.choice_log, tables=ntab, notes=self.notes, trace=sim.trace)

    def check_tree(self, before, want):
        after = tree(self.fs)
        rel = lambda p: os.path.relpath(p, self.fs)
        gone = {rel(self.chunk(s, c)) for s in want for c in range(NCH)}
        outp = {rel(self.out(s)) for s in want}
        od = rel(self.outdir)
        for p in sorted(set(before) | set(after)):
            if p in gone:
                if p in after:
                    self.bad.append(("leftover-temp", f"{p} was not deleted"))
                continue
            if p in outp or before.get(p, 0) == after.get(p, 0) or p == od or od.startswith(p + "/"):
                continue
            if p not in before:
                self.bad.append(("extra-file", f"{p} left behind"))
            else:
                self.bad.append(("foreign-changed", f"{p} was {'deleted' if p not in after else 'changed'}"))


def execute(plan):
    for mode in ((plan["mode"],) if plan.get("mode") else ("fork", "spawn")):
        root = engine.fresh_root(setup.scratch())
        try:
            r = Exec(dict(plan, mode=mode), root).run()
            r["mode"] = mode
            return r
        except NeedFresh as e:
            if mode == "spawn":
                raise HarnessError(str(e))
        finally:
            engine.drop_root(root)
    raise HarnessError("no mode left (replay of a forked run needs XLA)")


DIRS = [("in", "out"), ("in", "in"), ("my chunks", "out dir"), ("it's", "a*b"), ("run[1]", "do$llar"), ("in/deep", "in/deep/un"), ('q"q', "semi;colon")]


def run_task(task, emit):
    seed = task["seed"]
    rng = random.Random(mix(seed, "case"))
    names = rng.choice([[0], [3], [0, 1], [9, 10], [1, 2, 11], [0, 1, 2], [255]])
    sizes = {}
    for s in names:
        prof = rng.choice(["small", "empty", "one", "big"])
        sizes[str(s)] = [{"small": rng.randint(0, 4), "empty": rng.choice([0, 0, 1]), "one": 1, "big": rng.randint(1, 90)}[prof] for _ in range(NCH)]
    wl = dict(sizes=sizes, cols=rng.choice([0, 0, 1, 2]))
    runs = []
    lo = rng.choice(names)
    hi = lo + 1
    while hi in names and rng.random() < 0.7:
        hi += 1
    ind, outd = rng.choice(DIRS) if rng.random() < 0.6 else DIRS[0]
    plan = dict(prop="C06", seed=seed, wl=wl, indir=ind, outdir=outd, form=rng.choice(["rel", "rel", "abs", "slash"]), premade=rng.choice([0, 1]),
                policy=rng.choice(["uniform", "sticky", "favor", "default"]), knobs=gen_knobs(rng), incs=[dict(jobs=[dict(range=[lo, hi])])],
                foreign=rng.sample(["notes.txt", "subvol_0_chunk_00.hdf5.bak", f"subvol_{lo}_chunk_20.hdf5", "subvol_77_chunk_03.hdf5", f"subvol_{lo}_chunk_0.hdf5", f"1subvol_{lo}_chunk_00.hdf5"], 2))
    other = [n for n in names if not lo <= n < hi]
    if other and rng.random() < 0.4:
        plan["incs"][0]["jobs"].append(dict(range=[other[0], other[0] + 1]))
    plan["record_ops"] = 1
    r = execute(plan)
    plan.pop("record_ops")
    if emit(plan, r):
        return
    oplist = {k: v for k, v in r["oplist"].items() if k.startswith("0:")}
    actors = sorted(oplist)
    for v in range(task["variants"]):
        p = copy.deepcopy(plan)
        vr = random.Random(mix(seed, "vr", v))
        nf = vr.choice([1, 1, 1, 2])
        incs = []
        for q in range(nf):
            j = p["incs"][0]["jobs"]
            if q and vr.random() < 0.3:
                a = vr.randint(lo, hi - 1)
                j = [dict(range=[a, hi])]
            if vr.random() < 0.5:
                f = gen_crash(vr, oplist, actors, allow_power=False)
            else:
                f = gen_err(vr, oplist, actors, "unchunk")
            if f is None:
                continue
            if len(j) == 1:
                f["actor"] = "0.0"
            incs.append(dict(jobs=copy.deepcopy(j), faults=[f]))
        incs.append(dict(jobs=copy.deepcopy(p["incs"][0]["jobs"])))
        p["incs"] = incs
        if emit(p, execute(p)):
            return


def shrinks(plan):
    def cp():
        return copy.deepcopy(plan)
    if plan.get("policy") != "default":
        p = cp(); p.update(policy="default", sched=None); yield p
    for k, v in plan.get("knobs", {}).items():
        if v:
            p = cp(); p["knobs"][k] = 0; yield p
    if len(plan["incs"]) > 1:
        for i in range(len(plan["incs"]) - 1, -1, -1):
            p = cp(); del p["incs"][i]; yield p
    for i, inc in enumerate(plan["incs"]):
        for q in range(len(inc.get("faults", []))):
            p = cp(); del p["incs"][i]["faults"][q]; yield p
        if len(inc["jobs"]) > 1:
            for q in range(len(inc["jobs"])):
                p = cp(); del p["incs"][i]["jobs"][q]; yield p
    if plan.get("foreign"):
        p = cp(); p["foreign"] = []; yield p
    for k, v in (("indir", "in"), ("outdir", "out"), ("form", "rel"), ("premade", 1)):
        if plan.get(k) != v:
            p = cp(); p[k] = v; yield p
    used = {s for i in plan["incs"] for j in i["jobs"] for s in range(*j["range"])}
    for s in list(plan["wl"]["sizes"]):
        if int(s) not in used:
            p = cp(); del p["wl"]["sizes"][s]; yield p
        elif any(x != 1 for x in plan["wl"]["sizes"][s]):
            p = cp(); p["wl"]["sizes"][s] = [1] * NCH; yield p
    if plan["wl"]["cols"] != 1:
        p = cp(); p["wl"]["cols"] = 1; yield p


def init(group):
    import diffmah.data_loaders.io_utils  # noqa: F401
    import shlex, subprocess, h5py, gc, argparse  # noqa: F401,E401
    child.preload_script(PATH)


def tasks(prop, tier, seed):
    n = 90 if tier == "quick" else 4000
    return [dict(group="plain", seed=mix(seed, prop, i) >> 12, variants=7) for i in range(n)]


def group_of(plan):
    return "plain"


REAL = ["scripts/fitting_scripts/unchunk_last_journey_script.py (whole program, unmodified)", "diffmah.data_loaders.io_utils", "h5py/HDF5, numpy, the shell and rm"]
STUB = ["diffsky.data_loaders.load_flat_hdf5 (re-exports diffmah's own copy)", "system clock (simulated)"]


def describe(plan):
    return dict(sizes={k: sum(v) for k, v in plan["wl"]["sizes"].items()}, cols=plan["wl"]["cols"], ranges=[[j["range"] for j in i["jobs"]] for i in plan["incs"]],
                faults=[i.get("faults", []) for i in plan["incs"]], dirs=[plan["indir"], plan["outdir"]], policy=plan["policy"], knobs=plan["knobs"], seed=plan["seed"])
