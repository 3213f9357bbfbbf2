"""Check C07: the parallel HACC loader under simulated schedules."""
import copy
import os
import random

import numpy as np

from . import child, engine, fakes, fits, setup
from .engine import HarnessError, NeedFresh, Sim, Violation, mix
from .jobs import FATAL, POLICIES, gen_err, gen_knobs

NT = fits.NT
KINDS = {"C07": FATAL | {"job-failed", "wrong-block", "wrong-times", "unreceived", "not-partition", "silent-wrong", "outside-mutation", "input-changed"}}
GROUPS = {"dsps": []}
WORKERS = {"dsps": 7}
SIMS = ["LastJourney", "DiscoveryLCDM", "DiscoveryW0WA", "OtherCustomSim"]
MCOLS = ["infall_tree_node_mass", "tree_node_mass", "mystery_mass"]


def the_sim(name):
    return fakes.Simulation.simulations.get(name) or fakes.Simulation.parse_config(name)


def times(name):
    s = the_sim(name)
    z = s.step2z(np.array(s.cosmotools_steps))
    return fits.age_at_z(z, s.cosmo.Omega_m, s.cosmo.w0, s.cosmo.wa, s.cosmo.h)


def raw(f):
    """Raw catalogue columns of a file; every value identifies its place."""
    r = np.random.RandomState(f["rseed"])
    n = f["n"]
    out = {}
    for j, c in enumerate(MCOLS):
        m = (10.0 ** r.uniform(9, 13, (n, NT))) * (1 + j)
        m[r.uniform(size=(n, NT)) < 0.15] = 0.0
        out[c] = m.astype(f["dt"])
    return out


def members(call, n):
    """World ranks of each communicator used by a call, in rank order."""
    k = call["comm"]
    if k in ("default", "world", "dup"):
        return [list(range(n))]
    if k == "reverse":
        return [list(range(n))[::-1]]
    m = int(k[5:])  # split by world rank modulo m
    return [x for x in ([i for i in range(n) if i % m == c] for c in range(m)) if x]


@child.program
def load_calls(calls):
    import h5py  # noqa: F401
    from mpi4py import MPI

    from diffmah.data_loaders import load_hacc_mahs as L

    W = MPI.COMM_WORLD
    top = os.getcwd()
    out = []
    for call in calls:
        k = call["comm"]
        kw = {}
        if k == "default":
            comm = W
        elif k == "world":
            comm = kw["comm"] = W
        elif k == "dup":
            comm = kw["comm"] = W.Dup()
        elif k == "reverse":
            comm = kw["comm"] = W.Split(0, -W.rank)
        else:
            comm = kw["comm"] = W.Split(W.rank % int(k[5:]), W.rank)
        f = call["files"][W.rank % int(k[5:]) if k.startswith("split") else 0]
        if call["mcol"] is not None:
            kw["mass_colname"] = call["mcol"]
        # only the root of the communicator can see the catalogue
        os.chdir(top if comm.rank == 0 else os.path.join(top, "elsewhere"))
        t, m = L.load_mahs_per_rank(f"in/f{f}.hdf5", call["sim"], call["chunk"], call["nchunks"], **kw)
        os.chdir(top)
        out.append((np.array(t), np.array(m)))
    return out


class Exec:
    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.fs = os.path.join(root, "fs")
        self.bad, self.notes = [], []

    def on_outside(self, sim, a, op, path):
        self.bad.append(("outside-mutation", f"{a.name} tried to {op} {path}"))

    def on_mutate(self, sim, a, cls, path):
        self.bad.append(("input-changed", f"{a.name}: {cls} of {sim.rel(path)}"))

    def on_remove(self, sim, a, op, path, path2):
        self.bad.append(("input-changed", f"{a.name}: {op} of {sim.rel(path)}"))

    def prepare(self):
        import h5py
        os.makedirs(os.path.join(self.fs, "in"))
        os.makedirs(os.path.join(self.fs, "elsewhere"))
        self.data = []
        for i, f in enumerate(self.plan["files"]):
            d = raw(f)
            self.data.append(d)
            with h5py.File(os.path.join(self.fs, "in", f"f{i}.hdf5"), "w") as h:
                for k, v in d.items():
                    h[k] = v
        for dp, ds, fs in os.walk(self.fs):
            os.chmod(dp, 0o755)
            for x in fs:
                os.chmod(os.path.join(dp, x), 0o644)

    def check(self, results, n, kind):
        """results: per world rank, list of (t, m) or None"""
        for ci, call in enumerate(self.plan["calls"]):
            for g, mem in enumerate(members(call, n)):
                f = call["files"][g if call["comm"].startswith("split") else 0]
                d = self.data[f][call["mcol"] or MCOLS[0]]
                lo, hi = fakes.chunk_bounds(len(d), call["nchunks"], call["chunk"])
                s = the_sim(call["sim"])
                exp = np.maximum.accumulate(d[lo:hi].astype("f8"), axis=1) / s.cosmo.h
                t = np.asarray(times(call["sim"]))
                got = [results[w][ci] if results[w] is not None else None for w in mem]
                where = f"call {ci} ({call['sim']}, chunk {call['chunk']} of {call['nchunks']}, {len(exp)} rows, {len(mem)} ranks)"
                for q, r in enumerate(got):
                    if r is not None and (r[0].shape != t.shape or not np.allclose(r[0], t, rtol=3e-6, atol=0)):
                        self.bad.append((kind or "wrong-times", f"{where}: rank {q} got times {r[0].ravel()[:3].tolist()}... of shape {r[0].shape}"))
                        return
                if any(r is None for r in got):
                    continue
                sizes = [len(r[1]) for r in got]
                if max(sizes) - min(sizes) > 1 or sum(sizes) != len(exp):
                    self.bad.append((kind or "not-partition", f"{where}: block sizes {sizes}"))
                    return
                if any(r[1].ndim != 2 or r[1].shape[1] != NT for r in got):
                    self.bad.append((kind or "wrong-block", f"{where}: block shapes {[r[1].shape for r in got]}"))
                    return
                m = np.concatenate([r[1] for r in got])
                bad = ~(np.abs(m - exp) <= 1e-6 * np.abs(exp))
                if bad.any():
                    i, k = map(int, np.argwhere(bad)[0])
                    self.bad.append((kind or "wrong-block", f"{where}: row {i} column {k} is {m[i, k]!r}, expected {exp[i, k]!r} ({int(bad.any(axis=1).sum())} rows differ)"))
                    return

    def run(self):
        plan = self.plan
        self.prepare()
        self.sim = sim = Sim(plan, self.root, child.child_main, setup.SHIM, observer=self)
        n = plan["nranks"]
        try:
            spec = dict(jobs=[dict(nranks=n, cwd="", program=dict(kind="call", fn="load_calls", prelude="memo_fits", args=dict(calls=plan["calls"])))], faults=plan.get("faults", []))
            r = sim.run_inc(0, spec)[0]
            disturbed = any(not k.startswith(("short_", "eintr", "dir_permuted", "clock_jump")) for k in sim.fired)
            if r["ok"]:
                self.check(r["results"], n, "silent-wrong" if disturbed else None)
                if not disturbed and r["unreceived"]:
                    self.bad.append(("unreceived", f"{r['unreceived']} messages were never received"))
            elif not disturbed:
                q = next((q for q in range(n) if r["exc"][q]), 0)
                self.bad.append(("job-failed", f"rank {q}: {r['exc'][q]} status {r['status']}"))
            else:
                sim.probe("failed_after_fault")
                self.check(r["results"], n, "silent-wrong")
        except Violation as v:
            self.bad.append((v.kind, v.detail))
        finally:
            sim.close()
        return dict(bad=self.bad, events=sim.nev, digest=sim.events.hexdigest(), sched=sim.sched_hash.hexdigest(), steps=sim.steps_total, choices=sim.nchoice,
                    simtime=sim.simtime, fired=sim.fired, probes=sim.probes, oplist=sim.oplist, log=sim.choice_log, trace=sim.trace,
                    extra=dict(loader_calls=len(plan["calls"]), more_ranks_than_rows=int(any(f["n"] < n for f in plan["files"]))))


def execute(plan):
    plan = dict(plan, programs=["vsim.loader"])
    for mode in ((plan["mode"],) if plan.get("mode") else ("fork", "spawn")):
        root = engine.fresh_root(setup.scratch())
        try:
            r = Exec(dict(plan, mode=mode), root).run()
            r["mode"] = mode
            return r
        except NeedFresh as e:
            if mode == "spawn":
                raise HarnessError(str(e))
            if os.environ.get("VSIM_DEBUG"):
                print("NeedFresh", str(e)[-1500:], flush=True)
        finally:
            engine.drop_root(root)
    raise HarnessError("no mode left (replay of a forked run needs XLA)")


def gen(seed):
    rng = random.Random(mix(seed, "case"))
    nf = rng.randint(1, 3)
    files = [dict(n=rng.choice([0, 1, 2, 3, rng.randint(4, 12), rng.randint(13, 40)]), rseed=rng.randrange(1 << 30), dt=rng.choice(["f4", "f8"])) for _ in range(nf)]
    calls = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        nch = rng.choice([1, 1, 2, 3, 5, 10])
        comm = rng.choice(["default", "default", "world", "dup", "reverse", "split2", "split3"])
        m = int(comm[5:]) if comm.startswith("split") else 1
        calls.append(dict(comm=comm, files=[rng.randrange(nf) for _ in range(m)], sim=rng.choice(SIMS), chunk=rng.randrange(nch), nchunks=nch,
                          mcol=rng.choice([None, None] + MCOLS)))
    return dict(prop="C07", seed=seed, files=files, calls=calls, nranks=rng.choice([1, 2, 3, 4, 5, 7, 9, 13]), policy=rng.choice(POLICIES), knobs=gen_knobs(rng)), rng


def run_task(task, emit):
    plan, rng = gen(task["seed"])
    if task.get("mode"):
        plan["mode"], plan["nranks"] = task["mode"], min(plan["nranks"], 4)
    plan["record_ops"] = 1
    r = execute(plan)
    plan.pop("record_ops")
    if emit(plan, r):
        return
    oplist = {k: v for k, v in r["oplist"].items() if k.startswith("0:")}
    actors = sorted(oplist)
    for v in range(task["variants"]):
        p = copy.deepcopy(plan)
        vr = random.Random(mix(task["seed"], "vr", v))
        if v % 2 and actors:
            f = gen_err(vr, oplist, actors, "loader")
            if f:
                f.pop("persist", None)
                p["faults"] = [f]
        else:
            p["seed"] = mix(task["seed"], "variant", v) >> 12
            p["policy"], p["knobs"] = vr.choice(POLICIES), gen_knobs(vr)
            p["nranks"] = vr.choice([1, 2, 3, 4, 5, 6, 8, 11])
        if emit(p, execute(p)):
            return


def shrinks(plan):
    def cp():
        return copy.deepcopy(plan)
    if plan.get("policy") != "default":
        p = cp(); p.update(policy="default", sched=None); yield p
    for k, v in plan.get("knobs", {}).items():
        if v:
            p = cp(); p["knobs"][k] = 0; yield p
    for q in range(len(plan.get("faults", []))):
        p = cp(); del p["faults"][q]; yield p
    if len(plan["calls"]) > 1:
        for q in range(len(plan["calls"])):
            p = cp(); del p["calls"][q]; yield p
    for n in sorted({1, 2, plan["nranks"] // 2, plan["nranks"] - 1}):
        if 1 <= n < plan["nranks"]:
            p = cp(); p["nranks"] = n; yield p
    for q, c in enumerate(plan["calls"]):
        for k, v in (("comm", "default"), ("sim", "LastJourney"), ("mcol", None), ("nchunks", 1)):
            if c[k] != v:
                p = cp(); p["calls"][q][k] = v
                if k == "nchunks":
                    p["calls"][q]["chunk"] = 0
                yield p
    for q, f in enumerate(plan["files"]):
        for n in (1, 2, f["n"] // 2, f["n"] - 1):
            if 0 < n < f["n"]:
                p = cp(); p["files"][q]["n"] = n; yield p
        if f["dt"] != "f8":
            p = cp(); p["files"][q]["dt"] = "f8"; yield p


def init(group):
    import h5py  # noqa: F401

    import diffmah.data_loaders.load_hacc_mahs  # noqa: F401
    for s in SIMS:
        times(s)


def tasks(prop, tier, seed):
    n = 260 if tier == "quick" else 12000
    out = [dict(group="dsps", seed=mix(seed, prop, i) >> 12, variants=6) for i in range(n)]
    for i in range(5 if tier == "quick" else 60):
        out.insert(i * 9, dict(group="dsps", seed=mix(seed, prop, "real", i) >> 12, variants=0, mode="spawn"))
    return out


def group_of(plan):
    return "dsps"


REAL = ["diffmah.data_loaders.load_hacc_mahs (load_mahs_per_rank and all it calls)", "numpy, h5py/HDF5, jax arrays in messages"]
STUB = ["mpi4py (simulated communicator)", "haccytrees (HDF5-backed stand-in)", "dsps' age_at_z is looked up in forked ranks; in the runs counted as real_fit_runs it is computed"]


def describe(plan):
    return dict(calls=plan["calls"], files=plan["files"], nranks=plan["nranks"], policy=plan["policy"], knobs=plan["knobs"], faults=plan.get("faults", []), seed=plan["seed"])
