"""Checks C01-C05: the five parallel fit jobs under simulated schedules and faults."""
import copy
import hashlib
import os
import random

import numpy as np

from . import child, engine, fits, setup
from .engine import HarnessError, NeedFresh, Sim, Violation, mix

FATAL = {"deadlock", "mpi-mismatch", "no-progress", "hang"}
TREE = {"leftover-temp", "extra-file", "foreign-changed", "input-changed", "outside-mutation"}
TABLES = {"wrong-table", "missing-table", "job-failed"}
KINDS = {
    "C01": FATAL | TABLES,
    "C02": FATAL | {"job-failed", "missing-table", "unreceived", "silent-wrong"},
    "C03": FATAL | TABLES | {"leftover-temp", "stale-row"},
    "C04": {"early-delete", "silent-wrong", "hang"},
    "C05": FATAL | TABLES | TREE,
}
GROUPS = {"dsps": ["bpl", "disc", "lj"], "plain": ["gal", "tng"]}
POLICIES = ["uniform", "sticky", "pct", "starve", "favor", "vtime", "default"]


# ------------------------------------------------------------------ helpers
def tree(d):
    """relative path -> digest of every file below d (directories: None)"""
    out = {}
    for dp, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(dp, x), d)] = None
        for x in fs:
            p = os.path.join(dp, x)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = "link " + os.readlink(p)
            else:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, d)] = hashlib.sha1(f.read()).hexdigest()
    return out


def fit_lines(path):
    """Complete fit rows of a temporary rank file; [] if it is no such file."""
    try:
        with open(path, "rb") as f:
            b = f.read(1 << 20)
    except OSError:
        return []
    if b[:8] == b"\x89HDF\r\n\x1a\n":
        return []
    out = []
    for ln in b.split(b"\n")[:-1]:
        if ln.startswith(b"#") or not ln.strip():
            continue
        t = ln.split()
        if len(t) not in (8, 9):
            continue
        try:
            out.append([float(x) for x in t])
        except ValueError:
            continue
    return out


def same_row(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-5 * np.abs(b) + 1e-300) | (np.isnan(a) & np.isnan(b))))


class Obs:
    def __init__(self, ex):
        self.ex, self.bad = ex, []

    def on_outside(self, sim, a, op, path):
        self.bad.append(("outside-mutation", f"rank {a.name} tried to {op} {path}"))

    def on_mutate(self, sim, a, cls, path):
        pass

    def on_remove(self, sim, a, op, path, path2):
        if op == "rename":
            if path2 and os.path.isfile(path2) and os.path.realpath(path) != os.path.realpath(path2):
                path = path2
            else:
                return
        if op == "rmdir" or not os.path.isfile(path):
            return
        rows = fit_lines(path)
        sim.probe("temp_delete" if rows else "other_delete")
        if not rows:
            return
        good = []
        for wl in self.ex.plan["wls"]:
            for fn, (exp, ids) in self.ex.F.outputs(wl).items():
                if fits.compare_table(os.path.join(self.ex.outdir, fn), exp, ids) is None:
                    for i, r in enumerate(exp):
                        good.append(([ids[i]] if ids is not None else []) + list(r))
        for r in rows:
            if not any(same_row(r, g) for g in good):
                self.bad.append(("early-delete", f"rank {a.name} deletes {sim.rel(path)} while no complete collated table holds its row {r[:3]}..."))
                return


def guard_bystanders(d, outdir):
    """Files a careless clean-up could hit, outside the output directory."""
    names = ["tmp_mah_fits_rank_0.dat", "subvol_0_chunk_0_tmp_mah_fits_rank_0.dat", "keep.dat"]
    for sub in ("", "o", "fits", "x", "run1", "sub"):
        if os.path.realpath(os.path.join(d, sub)) == os.path.realpath(outdir):
            continue
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        os.chmod(os.path.join(d, sub), 0o777)
        for n in names:
            p = os.path.join(d, sub, n)
            with open(p, "w") as f:
                f.write("bystander\n")
            os.chmod(p, 0o666)


# ------------------------------------------------------------------ execution
class Exec:
    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.fs = os.path.join(root, "fs")
        self.F = fits.FAMS[plan["fam"]]
        self.outrel = plan.get("outdir", "out")
        self.outdir = os.path.normpath(os.path.join(self.fs, self.outrel))
        self.bad = []

    def prepare(self):
        p = self.plan
        ind = os.path.join(self.fs, p.get("indir", "in"))
        self.F.materialise(p["wls"][0], ind)
        if p.get("premade", 1):
            os.makedirs(self.outdir, exist_ok=True)
        for dp, ds, fs in os.walk(self.fs):
            os.chmod(dp, 0o777)
            for x in fs:
                os.chmod(os.path.join(dp, x), 0o644)
        for i, n in enumerate(p.get("foreign", [])):
            fn = os.path.join(self.outdir, n)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            os.chmod(os.path.dirname(fn), 0o777)
            with open(fn, "w") as f:
                f.write(f"# foreign {i}\n1 2 3 4 5 6 7 8\n")
            os.chmod(fn, 0o666)
        if p.get("bystanders"):
            guard_bystanders(self.fs, self.outdir)

    def job_spec(self, j):
        wl = self.plan["wls"][j["wl"]]
        out = self.outrel
        form = self.plan.get("outform", "rel")
        if form == "abs":
            out = self.outdir
        elif form == "slash":
            out = out + "/"
        elif form == "dot":
            out = "./" + out
        prog = dict(kind="script", path=self.F.path, argv=self.F.argv(wl, self.plan.get("indir", "in"), out), prelude="memo_fits",
                    sys_path=[os.path.dirname(self.F.path)])
        return dict(nranks=j["nranks"], cwd="", program=prog)

    def tables(self, wl, kind_wrong="wrong-table", kind_missing="missing-table"):
        n = 0
        for fn, (exp, ids) in sorted(self.F.outputs(wl).items()):
            p = os.path.join(self.outdir, fn)
            if not os.path.exists(p):
                self.bad.append((kind_missing, f"{fn} was not written"))
            else:
                why = fits.compare_table(p, exp, ids)
                if why:
                    self.bad.append((kind_wrong, f"{fn}: {why}"))
            n += 1
        if hasattr(self.F, "check_extra"):
            why = self.F.check_extra(wl, self.outdir)
            if why:
                self.bad.append((kind_wrong, why))
        return n

    def check_tree(self, before, incs_jobs):
        after = tree(self.fs)
        outp = set()
        for j in incs_jobs:
            wl = self.plan["wls"][j["wl"]]
            for n in list(self.F.outputs(wl)) + list(self.F.extra_outputs(wl)):
                outp.add(os.path.relpath(os.path.join(self.outdir, n), self.fs))
        outrel = os.path.relpath(self.outdir, self.fs)
        for p in sorted(set(before) | set(after)):
            if p in outp or before.get(p, 0) == after.get(p, 0):
                continue
            inside = p == outrel or p.startswith(outrel + "/")
            if p not in before:
                if p == outrel or outrel.startswith(p + "/"):
                    continue
                if inside:
                    self.bad.append(("leftover-temp" if "rank" in os.path.basename(p) else "extra-file", f"{p} left behind"))
                else:
                    self.bad.append(("outside-mutation", f"{p} was created"))
            else:
                what = "deleted" if p not in after else "changed"
                k = "foreign-changed" if inside else ("input-changed" if p.startswith(self.plan.get("indir", "in") + "/") else "outside-mutation")
                self.bad.append((k, f"{p} was {what}"))

    def run(self):
        plan = self.plan
        self.prepare()
        self.obs = Obs(self)
        self.sim = sim = Sim(plan, self.root, child.child_main, setup.SHIM, observer=self.obs)
        before = tree(self.fs)
        ntab, last_ok = 0, False
        self.notes = []
        try:
            for i, inc in enumerate(plan["incs"]):
                fired0 = dict(sim.fired)
                spec = dict(jobs=[self.job_spec(j) for j in inc["jobs"]], faults=inc.get("faults", []), durable_dirs=[self.outrel])
                res = sim.run_inc(i, spec)
                disturbed = any(v != fired0.get(k, 0) for k, v in sim.fired.items() if not k.startswith(("short_", "eintr", "dir_permuted", "clock_jump")))
                for j, r in zip(inc["jobs"], res):
                    wl = plan["wls"][j["wl"]]
                    self.notes.append((i, r["ok"], r["status"], [e and list(e) for e in r["exc"]]))
                    if not disturbed:
                        if not r["ok"]:
                            k = next((q for q, s in enumerate(r["status"]) if s != 0 and r["exc"][q]), 0)
                            self.bad.append(("job-failed", f"undisturbed job failed on rank {k}: {r['exc'][k]} status {r['status']}"))
                        else:
                            ntab += self.tables(wl)
                            if r["unreceived"]:
                                self.bad.append(("unreceived", f"{r['unreceived']} messages were never received"))
                    elif r["ok"]:
                        sim.probe("ok_despite_fault")
                        ntab += self.tables(wl, "silent-wrong", "silent-wrong")
                    else:
                        sim.probe("failed_after_fault")
                if not disturbed and all(r["ok"] for r in res):
                    self.check_tree(before if i == 0 else {k: v for k, v in before.items()}, inc["jobs"])
        except Violation as v:
            self.bad.append((v.kind, v.detail))
        finally:
            sim.close()
        self.bad += self.obs.bad
        return dict(bad=self.bad, events=sim.nev, digest=sim.events.hexdigest(), sched=sim.sched_hash.hexdigest(), steps=sim.steps_total,
                    choices=sim.nchoice, simtime=sim.simtime, fired=sim.fired, probes=sim.probes, ops=sim.opcounts, oplist=sim.oplist,
                    log=sim.choice_log, tables=ntab, notes=self.notes, trace=sim.trace)


def execute(plan):
    """Run one plan; a rank that needs XLA makes the whole run restart with
    one interpreter per rank (recorded in the plan)."""
    for mode in ((plan["mode"],) if plan.get("mode") else ("fork", "spawn")):
        root = engine.fresh_root(setup.scratch())
        p = dict(plan, mode=mode)
        try:
            r = Exec(p, root).run()
            r["mode"] = mode
            return r
        except NeedFresh as e:
            if mode == "spawn":
                raise HarnessError(f"spawned rank asked for a fresh interpreter: {e}")
            if os.environ.get("VSIM_DEBUG"):
                print("NeedFresh", str(e)[-1500:], flush=True)
        finally:
            engine.drop_root(root)
    raise HarnessError("no mode left (replay of a forked run needs XLA)")


# ------------------------------------------------------------------ generation
ODD_DIRS = ["my fits", "it's", 'a"b', "run[1]", "a*b", "x?y", "o ut", "semi;colon", "am&p", "tick`s", "do$llar", "back\\slash", "tab\tname", "(par)",
            "o", "new/deep/er", "hash#tag", "trail ", "~tilde", "!bang", "a  b"]


def n_halos(fam, wl):
    if fam == "bpl":
        return sum(len(v) for v in wl["subvols"].values())
    if fam in ("gal", "tng"):
        return len(wl["halos"])
    return sum(len(v) for v in wl["subvols"].values())


def gen_nranks(rng, fam, wl, big=False):
    n = n_halos(fam, wl)
    c = rng.choice(["1", "2", "few", "few", "few", "n", "n+", "many"])
    r = {"1": 1, "2": 2, "few": rng.randint(2, 5), "n": n, "n+": n + rng.randint(1, 3), "many": rng.randint(6, 13)}[c]
    return max(1, min(r, 13 if big else 9))


def gen_knobs(rng, calm=0.3):
    if rng.random() < calm:
        return dict(sync=rng.choice([0, 1]))
    return dict(sync=rng.choice([0, 1, 2]), perm=rng.choice([0, 1]), short=rng.choice([0, 0, 0.1, 0.5]), eintr=rng.choice([0, 0, 0.1, 0.3]),
                slow=rng.choice([0, 1]), jump=rng.choice([0, 0, 1]), buf_size=rng.choice([0, 0, 1, 40, 200]))


def base_plan(prop, fam, seed):
    rng = random.Random(mix(seed, "case", prop, fam))
    F = fits.FAMS[fam]
    wl = F.gen(rng)
    plan = dict(prop=prop, fam=fam, seed=seed, wls=[wl], policy=rng.choice(POLICIES), knobs=gen_knobs(rng),
                incs=[dict(jobs=[dict(nranks=gen_nranks(rng, fam, wl, big=prop in ("C01", "C02")), wl=0)])],
                premade=rng.choice([0, 1]))
    return plan, rng


def two_jobs(plan, rng):
    """Two HACC jobs on disjoint subvolumes in one output directory."""
    fam = plan["fam"]
    names = rng.choice([[1, 11], [0, 10], [2, 12], [0, 1], [1, 10, 11], [3, 33]])
    wl = plan["wls"][0]
    if fam == "lj":
        names = [n for n in names if n < 13]
        allsubs = list(range(max(names) + 1))
    else:
        allsubs = names
    sub, nch = {}, rng.choice([1, 2, 3])
    for s in allsubs:
        k = rng.randint(1, 3) if s in names else 1
        sub[str(s)] = [rng.randrange(len(fits.POOL)) for _ in range(k)]
    wl = dict(wl, subvols=sub, nchunks=nch)
    wl.pop("junk", None)
    order = names[:2] if rng.random() < 0.5 else names[:2][::-1]
    wls, jobs = [], []
    for j, s in enumerate(order):
        i = allsubs.index(s)
        wls.append(dict(wl, istart=i, iend=i + 1))
        jobs.append(dict(nranks=rng.randint(1, 4), wl=j))
    plan["wls"], plan["incs"] = wls, [dict(jobs=jobs)]
    plan["policy"] = rng.choice(["uniform", "sticky", "pct", "favor", "starve"])


def gen_foreign(plan, rng):
    c = ["notes.txt", "README", "diffmah_fits_old.hdf5", "rank.dat", "tmp_mah_fits.dat", "rank_0.dat.bak", "keep/tmp_mah_fits_rank_0.dat", "subvol_77_chunk_0.hdf5",
         "xtmp_mah_fits.dat", "fits rank 0.dat", ".hidden", "tmp_mah_fits_rank_0.dat.gz", "-rf"]
    if plan["fam"] in ("disc", "lj"):
        c += ["subvol_99_chunk_0_tmp_mah_fits_rank_0.dat", "subvol_99_chunk_00_tmp_mah_fits_rank_1.dat", "subvol_100_chunk_1_tmp_mah_fits_rank_0.dat", "subvol_98_chunk_0.hdf5"]
    plan["foreign"] = rng.sample(c, rng.randint(2, 7))
    plan["premade"] = 1


def gen_err(rng, oplist, actors, fam):
    """One failing operation, placed where the actor really performs one."""
    for _ in range(50):
        an = rng.choice(actors)
        ops = [(n + 1, c, p) for n, (c, p) in enumerate(oplist[an]) if c in engine.ERRNOS and not (c == "opendir" and p.startswith("in")) and c != "opendir"]
        if not ops:
            continue
        cls = rng.choice(sorted({c for _, c, _ in ops}))
        n = rng.choice([n for n, c, _ in ops if c == cls])
        f = dict(kind="err", actor=an.split(":")[1], n=n, e=rng.randrange(6))
        if cls in ("write", "open_w", "trunc") and rng.random() < 0.4:
            f["persist"] = 1
            f["e"] = 0
        if cls == "write" and rng.random() < 0.3:
            f["partial"] = rng.randrange(1, 10000)
        return f
    return None


def gen_crash(rng, oplist, actors, allow_power=True):
    an = rng.choice(actors)
    ops = oplist[an]
    if not ops:
        return None
    w = [n + 1 for n, (c, p) in enumerate(ops) if c in ("write", "open_w", "unlink", "close", "trunc", "rename", "mkdir")]
    n = rng.choice(w) if w and rng.random() < 0.85 else rng.randint(1, len(ops))
    kind = rng.choice(["crash", "crash", "kill", "power"] if allow_power else ["crash", "kill"])
    f = dict(kind=kind, actor=an.split(":")[1], n=n, mode=rng.choice(["before", "after", "torn"]), arg=rng.randrange(1 << 16))
    if kind == "kill":
        f["delay"] = rng.choice([0, 1, 5, 20, 60])
    return f


def run_task(task, emit):
    """One case: a fault-free run, then variants of it.  emit(plan, result)
    returns True when the search should stop."""
    prop, fam, seed, kvar = task["prop"], task["fam"], task["seed"], task["variants"]
    plan, rng = base_plan(prop, fam, seed)
    if task.get("mode"):
        plan["mode"] = task["mode"]
        plan["incs"][0]["jobs"][0]["nranks"] = min(3, plan["incs"][0]["jobs"][0]["nranks"])
    if prop == "C05":
        if rng.random() < 0.75:
            gen_foreign(plan, rng)
        plan["bystanders"] = 1
        if rng.random() < 0.7:
            plan["outdir"] = rng.choice(ODD_DIRS)
        plan["outform"] = rng.choice(["rel", "rel", "abs", "slash", "dot"])
        if rng.random() < 0.4:
            plan["indir"] = rng.choice(["src ", "[0-9]", "in[x]"]) + rng.choice(ODD_DIRS)
        if fam in ("disc", "lj") and rng.random() < 0.5:
            two_jobs(plan, rng)
    plan["record_ops"] = 1
    r = execute(plan)
    plan.pop("record_ops")
    if emit(plan, r):
        return
    oplist = {k: v for k, v in r["oplist"].items() if k.startswith("0:")}
    actors = sorted(oplist)
    for v in range(kvar):
        p = copy.deepcopy(plan)
        p["seed"] = mix(seed, "variant", v) >> 12
        vr = random.Random(mix(seed, "vr", v))
        if prop == "C01":
            # same workload, other rank count, schedule and message timing
            p["policy"] = vr.choice(POLICIES)
            p["knobs"] = gen_knobs(vr)
            p["incs"][0]["jobs"][0]["nranks"] = gen_nranks(vr, fam, p["wls"][0], True)
        elif prop == "C02":
            p["seed"] = seed
            if vr.random() < 0.5:
                p["seed"] = mix(seed, "variant", v) >> 12
                p["policy"] = vr.choice(POLICIES)
                p["knobs"] = gen_knobs(vr)
                p["incs"][0]["jobs"][0]["nranks"] = gen_nranks(vr, fam, p["wls"][0], True)
            else:
                f = gen_err(vr, oplist, actors, fam)
                if f is None:
                    continue
                f.pop("persist", None)
                p["incs"][0]["faults"] = [f]
        elif prop == "C03":
            p["seed"] = seed
            f = gen_crash(vr, oplist, actors)
            if f is None:
                continue
            incs = [dict(p["incs"][0], faults=[f])]
            nr0 = p["incs"][0]["jobs"][0]["nranks"]
            for _ in range(vr.choice([0, 0, 0, 1, 2])):
                # crash the rerun as well
                f2 = gen_crash(vr, oplist, actors)
                nr = vr.choice([nr0, vr.randint(1, 6)])
                f2["actor"] = "0.0" if nr == 1 else f"0.{vr.randrange(nr)}" if vr.random() < 0.5 else "0.0"
                incs.append(dict(jobs=[dict(nranks=nr, wl=0)], faults=[f2]))
            nrf = vr.choice([nr0, max(1, nr0 - 1), max(1, nr0 // 2), 1, nr0 + 1, nr0 + 2])
            incs.append(dict(jobs=[dict(nranks=nrf, wl=0)]))
            p["incs"] = incs
        elif prop == "C04":
            p["seed"] = seed
            fs = []
            if vr.random() < 0.85:
                for _ in range(vr.choice([1, 1, 1, 2, 3])):
                    f = gen_err(vr, oplist, actors, fam)
                    if f:
                        fs.append(f)
            else:
                fs = [gen_crash(vr, oplist, actors, allow_power=False)]
            p["incs"][0]["faults"] = [f for f in fs if f]
            if vr.random() < 0.4:
                p["incs"].append(dict(jobs=[dict(nranks=vr.randint(1, 5), wl=0)]))
        elif prop == "C05":
            p["policy"] = vr.choice(POLICIES)
            p["knobs"] = gen_knobs(vr)
            for j in p["incs"][0]["jobs"]:
                j["nranks"] = vr.randint(1, 5)
        if emit(p, execute(p)):
            return


# ------------------------------------------------------------------ shrinking
def shrinks(plan):
    """Simpler variants of a failing plan, most aggressive first."""
    fam = plan["fam"]

    def mod(**kw):
        p = copy.deepcopy(plan)
        p.update(kw)
        return p

    if plan.get("policy") != "default":
        yield mod(policy="default", sched=None)
    for k, v in plan.get("knobs", {}).items():
        if v:
            p = copy.deepcopy(plan)
            p["knobs"][k] = 0
            yield p
    for i in range(len(plan["incs"]) - 1, -1, -1):
        if len(plan["incs"]) > 1:
            p = copy.deepcopy(plan)
            del p["incs"][i]
            yield p
    for i, inc in enumerate(plan["incs"]):
        for q in range(len(inc.get("faults", []))):
            p = copy.deepcopy(plan)
            del p["incs"][i]["faults"][q]
            yield p
        if len(inc["jobs"]) > 1:
            for q in range(len(inc["jobs"])):
                p = copy.deepcopy(plan)
                del p["incs"][i]["jobs"][q]
                yield p
        for q, j in enumerate(inc["jobs"]):
            for n in sorted({1, 2, j["nranks"] // 2, j["nranks"] - 1}):
                if 1 <= n < j["nranks"]:
                    p = copy.deepcopy(plan)
                    p["incs"][i]["jobs"][q]["nranks"] = n
                    yield p
    if plan.get("foreign"):
        yield mod(foreign=[])
        for x in plan["foreign"]:
            yield mod(foreign=[y for y in plan["foreign"] if y != x])
    for k, v in (("bystanders", 0), ("outform", "rel"), ("outdir", "out"), ("indir", "in"), ("premade", 1)):
        if plan.get(k, v) != v:
            yield mod(**{k: v})
    wl = plan["wls"][0]
    if "halos" in wl and len(plan["wls"]) == 1:
        h = wl["halos"]
        for part in (h[: len(h) // 2], h[len(h) // 2:]) + tuple(h[:i] + h[i + 1:] for i in range(len(h))):
            if 0 < len(part) < len(h):
                yield mod(wls=[dict(wl, halos=part)])
    if "subvols" in wl:
        for s in sorted(wl["subvols"]):
            h = wl["subvols"][s]
            for i in range(len(h)):
                if len(h) > 1:
                    p = copy.deepcopy(plan)
                    for w in p["wls"]:
                        w["subvols"][s] = h[:i] + h[i + 1:]
                    yield p
        if len(wl["subvols"]) > 1 and fam == "bpl":
            s = max(wl["subvols"], key=int)
            yield mod(wls=[dict(wl, subvols={k: v for k, v in wl["subvols"].items() if k != s})])
        if wl.get("nchunks", 1) > 1 and len(plan["wls"]) == 1:
            yield mod(wls=[dict(wl, nchunks=1)])
        if wl.get("junk"):
            yield mod(wls=[dict(wl, junk=[])])
    for i, inc in enumerate(plan["incs"]):
        for q, f in enumerate(inc.get("faults", [])):
            for k in ("persist", "partial"):
                if f.get(k):
                    p = copy.deepcopy(plan)
                    p["incs"][i]["faults"][q].pop(k)
                    yield p


# ------------------------------------------------------------------ check description
def init(group):
    fits.warm(GROUPS[group])
    fits.SEALED[0] = True


def tasks(prop, tier, seed):
    n, kvar = {"C01": (22, 4), "C02": (22, 5), "C03": (22, 10), "C04": (22, 10), "C05": (26, 4)}[prop]
    if tier == "thorough":
        n *= 40
    out = []
    for i in range(n):
        for g, fams in GROUPS.items():
            for fam in fams:
                out.append(dict(group=g, prop=prop, fam=fam, seed=mix(seed, prop, fam, i) >> 12, variants=kvar))
    if prop == "C01":
        # the same with real fits in every rank instead of remembered ones
        for i in range(2 if tier == "quick" else 40):
            for g, fams in GROUPS.items():
                for fam in fams:
                    out.insert(i * 5, dict(group=g, prop=prop, fam=fam, seed=mix(seed, prop, fam, "real", i) >> 12, variants=0, mode="spawn"))
    return out


WORKERS = {"dsps": 5, "plain": 3}
REAL = ["scripts/fitting_scripts/*_fitter_script.py / bolshoi_planck_fitting_script.py (whole program, unmodified)", "diffmah.fitting_helpers.diffmah_fitter_helpers",
        "diffmah.data_loaders.load_{bpl_um_data,galacticus_eps_mahs,hacc_mahs,tng_mahs}", "numpy, h5py/HDF5, umachine_pyio, the shell and rm of the clean-up step",
        "real files on a scratch file system below the fault seam"]
STUB = ["mpi4py (simulated communicator, message delivery and launcher)", "haccytrees (HDF5-backed catalogue stand-in)", "system clock (simulated)",
        "fits with inputs seen in the parent are looked up there (same code, computed once); the runs counted as real_fit_runs recompute them in every rank",
        "numpy's C-stdio fast path for .npy files (its Python path is used, below which the fault seam sits)"]


def describe(plan):
    return dict(family=plan["fam"], workloads=plan["wls"], ranks=[[j["nranks"] for j in i["jobs"]] for i in plan["incs"]], policy=plan["policy"], knobs=plan["knobs"],
                faults=[i.get("faults", []) for i in plan["incs"]], indir=plan.get("indir", "in"), outdir=plan.get("outdir", "out"), seed=plan["seed"])
