"""Check C08: readers and writers of parameter and catalogue files."""
import copy
import gc
import os
import random
import warnings
from collections import namedtuple

import numpy as np

from . import child, engine, fits, setup
from .engine import HarnessError, NeedFresh, Sim, Violation, mix
from .fakes import rpc
from .jobs import FATAL, gen_crash, gen_err, gen_knobs, tree

KINDS = {"C08": FATAL | {"wrong-values", "spurious-error", "silent-wrong", "torn-accepted", "lasting-effect", "input-changed", "outside-mutation"}}
GROUPS = {"dsps": []}
WORKERS = {"dsps": 7}
NAMES = ["zeta", "alpha", "Mu", "b2", "logm0", "x", "_a"[1:] + "lpha2", "index_col", "tau_long_parameter_name_for_a_value", "Kappa", "count_", "c1", "c10", "c2"]


# ------------------------------------------------------------------ contents
def nt_value(r, kind):
    if kind == "float":
        return float(r.normal())
    if kind == "int":
        return int(r.randint(-10**9, 10**9)) * 10**7 + 1
    if kind == "bool":
        return bool(r.randint(2))
    if kind == "f4":
        return np.float32(r.normal())
    if kind == "nan":
        return float("nan")
    if kind == "inf":
        return np.array([np.inf, -np.inf, 0.0, -0.0])
    if kind == "arr":
        return r.normal(size=r.randint(0, 5))
    if kind == "mat":
        return r.normal(size=(r.randint(1, 4), r.randint(1, 4))).astype("f4")
    if kind == "ints":
        return r.randint(-5, 5, size=r.randint(1, 30)).astype("i4")
    if kind == "big":
        return r.normal(size=r.randint(1000, 9000))
    if kind == "cube":
        return np.asfortranarray(r.normal(size=(2, 3, 2)))
    if kind == "strided":
        return r.normal(size=40)[::3]
    raise ValueError(kind)


NTK = ["float", "int", "bool", "f4", "nan", "inf", "arr", "mat", "ints", "big", "cube", "strided"]


def make_nt(spec):
    r = np.random.RandomState(spec["seed"])
    T = namedtuple(spec.get("tname", "P"), [f for f, _ in spec["fields"]])
    return T(*[nt_value(r, k) for _, k in spec["fields"]])


def flat_cols(spec):
    r = np.random.RandomState(spec["seed"])
    n = spec["n"]
    out = {}
    for i, c in enumerate(spec["cols"]):
        dt = ["f8", "f4", "i8", "i4", "f8x3"][(i + spec["seed"]) % 5]
        a = r.normal(size=(n, 3)) if dt == "f8x3" else r.normal(size=n) * 1e6 if dt[0] == "f" else r.randint(-10**6, 10**6, n)
        out[c] = a if dt == "f8x3" else a.astype(dt)
        if dt == "i8":
            out[c] = out[c] + 9007199254740993
    return out


def col_table(spec):
    """Strings as a fit job collates them, and the columns they stand for."""
    r = np.random.RandomState(spec["seed"])
    rows, n = [], spec["n"]
    for i in range(n):
        v = ["%.5e" % x for x in r.normal(size=6)] + [str(r.randint(0, 200)), str(r.randint(-1, 2))]
        rows.append(([str(9007199254740993 + i * 7)] if spec["ids"] else []) + v)
    names = (["halo_id"] if spec["ids"] else []) + fits.COLS
    return np.array(rows), names


def logm(spec):
    r = np.random.RandomState(spec["seed"])
    m = r.uniform(9, 13, (spec["n"], 12))
    m[r.uniform(size=m.shape) < 0.2] = 0.0
    if spec["n"]:
        m[0, 5] = 11.0
    return m


def make_file(d, name, f):
    import h5py
    p = os.path.join(d, name)
    k = f["kind"]
    if k == "nt":
        v = make_nt(f)
        with h5py.File(p, "w") as h:
            for a, b in zip(v._fields, v):
                h[a] = b
            h.attrs["_fields"] = np.array(v._fields, dtype="S")
    elif k == "flat":
        with h5py.File(p, "w") as h:
            for g in ("", "grp/", "deep/er/"):
                for a, b in flat_cols(dict(f, seed=f["seed"] + len(g))).items():
                    if g or not f.get("noflat"):
                        h[g + a] = b
    elif k == "gal":
        ms, ts, iso, tl = gal_data(f)
        with h5py.File(p, "w") as h:
            g = h.create_group("Outputs/Output1/nodeData")
            vt = h5py.vlen_dtype(np.dtype("f8"))
            for nm, src in (("haloAccretionHistoryMass", ms), ("haloAccretionHistoryTime", ts)):
                ds = g.create_dataset(nm, (f["n"],), dtype=vt)
                for i in range(f["n"]):
                    ds[i] = src[i]
            g["nodeIsIsolated"], g["basicTimeLastIsolated"] = iso, tl
    elif k == "tng":
        os.makedirs(p)
        m = logm(f)
        a = np.zeros(f["n"], dtype=[("mpeak", "f8"), ("mpeakh", "f8", (12,))])
        a["mpeakh"], a["mpeak"] = m, m.max(axis=1) if f["n"] else 0
        np.save(os.path.join(p, "tng_diffmah.npy"), a)
        np.save(os.path.join(p, "tng_cosmic_time.npy"), np.linspace(0.5, 13.8, 12))
    elif k == "pub":
        os.makedirs(p)
        for pre in ("bpl", "mdpl2"):
            for gt, off in (("cens", 0), ("sats", 1), ("orphans", 2)):
                m = logm(dict(f, seed=f["seed"] + off + len(pre)))
                a = np.zeros(f["n"], dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", "f4", (12,))])
                a["halo_id"] = 9007199254740993 + off + 10 * np.arange(f["n"])
                a["mpeak_history_main_prog"] = np.where(m > 0, 10**m, 0)
                np.save(os.path.join(p, f"{pre}_diffmah_{gt}.npy"), a)
        np.save(os.path.join(p, "bpl_cosmic_time.npy"), np.linspace(0.4, 13.7, 12))
        np.savetxt(os.path.join(p, "mdpl2_cosmic_time.txt"), np.linspace(0.3, 13.6, 12))
    elif k == "bpl":
        fits.FAMS["bpl"].materialise(f["wl"], p)
    for dp, ds, fs in os.walk(d):
        os.chmod(dp, 0o777)
        for x in fs:
            os.chmod(os.path.join(dp, x), 0o666)


def gal_data(f):
    r = np.random.RandomState(f["seed"])
    ns = [r.randint(2, 9) for _ in range(f["n"])]
    ms = [10 ** np.sort(r.uniform(9, 13, k)) for k in ns]
    ts = [np.sort(r.uniform(0.5, 13.8, k)) for k in ns]
    return ms, ts, r.randint(0, 2, f["n"]), r.uniform(0, 13, f["n"])


# ------------------------------------------------------------------ program under simulation
def plain(x):
    if hasattr(x, "_fields"):
        return ("nt", list(x._fields), [plain(v) for v in x])
    if isinstance(x, dict):
        return ("dict", list(x), [plain(v) for v in x.values()])
    if isinstance(x, (tuple, list)):
        return ("tuple", [plain(v) for v in x])
    a = np.array(x)
    if a.dtype == object:
        return ("objs", [np.array(v) for v in a.ravel()])
    return a


def do(op):
    k = op["op"]
    if k in ("wnt", "rnt", "flat"):
        from diffmah.data_loaders import io_utils as I
        if k == "wnt":
            I.write_namedtuple_to_hdf5(make_nt(op["spec"]), op["file"])
            return None
        if k == "rnt":
            return I.load_namedtuple_from_hdf5(op["file"])
        return I.load_flat_hdf5(op["file"], **op["kw"])
    if k == "wcol":
        fits.cfh().write_collated_data(op["file"], col_table(op["spec"])[0])
        return None
    if k == "galn":
        from diffmah.data_loaders import load_galacticus_eps_mahs as G
        return G.get_nhalos_tot(op["file"])
    if k == "gal":
        from diffmah.data_loaders import load_galacticus_eps_mahs as G
        return G.extract_galacticus_mah_tables(op["file"], **op["kw"])
    if k == "tng":
        from diffmah.data_loaders import load_tng_mahs as T
        return T.load_tng_data(op["file"])
    if k == "pubtng":
        from diffmah.data_loaders import load_diffmah_pub_data as P
        return P.load_tng_data(op["file"])
    if k == "pub":
        from diffmah.data_loaders import load_diffmah_pub_data as P
        return (P.load_bolshoi_data if op["sim"] == "bpl" else P.load_mdpl2_data)(op["gt"], op["file"])
    if k == "bpl":
        from diffmah.data_loaders import load_bpl_um_data as B
        return B.load_bpl_mah_data(op["file"], op["subs"])
    raise ValueError(k)


@child.program
def io_history(ops):
    out = []
    for i, op in enumerate(ops):
        rpc("note", ("start", i))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = ("ok", plain(do(op)))
        except Exception as e:
            r = ("raise", type(e).__name__, str(e).split("(")[0][:120])
        gc.collect()
        rpc("note", ("end", i, r))
        out.append(r[0])
    return out


# ------------------------------------------------------------------ oracle
def same(a, b, tol):
    """exact comparison of structures; tol only for computed values"""
    a, b = (x if isinstance(x, tuple) else np.asarray(x) for x in (a, b))
    if type(a) is not type(b):
        return f"{type(a).__name__} instead of {type(b).__name__}"
    if isinstance(a, tuple):
        if a[0] != b[0]:
            return f"a {a[0]} instead of a {b[0]}"
        if a[0] in ("nt", "dict"):
            if (a[1] if a[0] == "nt" else sorted(a[1])) != (b[1] if b[0] == "nt" else sorted(b[1])):
                return f"fields {a[1]} instead of {b[1]}"
            bd = dict(zip(b[1], b[2]))
            for n, x in zip(a[1], a[2]):
                w = same(x, bd[n], tol)
                if w:
                    return f"{n}: {w}"
            return None
        if len(a[1]) != len(b[1]):
            return f"{len(a[1])} items instead of {len(b[1])}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            w = same(x, y, tol)
            if w:
                return f"item {i}: {w}"
        return None
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if tol:
        if a.dtype.kind != b.dtype.kind:
            return f"type {a.dtype} instead of {b.dtype}"
        ok = np.abs(a - b) <= tol * np.abs(b) + tol
        return None if np.all(ok) else f"{a.ravel()[~ok.ravel()][0]!r} instead of {b.ravel()[~ok.ravel()][0]!r}"
    if a.dtype != b.dtype:
        return f"type {a.dtype} instead of {b.dtype}"
    if a.tobytes() != b.tobytes() and not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
        return f"{a.ravel()[:4].tolist()} instead of {b.ravel()[:4].tolist()}"
    return None


def expected(op, f):
    """(structure, tolerance) an intact file f gives under op"""
    k = op["op"]
    if k == "rnt":
        v = make_nt(f)
        return ("nt", list(v._fields), [np.array(x) for x in v]), 0
    if k == "flat":
        kw = op["kw"]
        if f["kind"] == "wcol":
            s, names = col_table(f)
            cols = {n: s[:, j].astype(int if n in ("halo_id", "n_points_per_fit", "fit_algo") else float) for j, n in enumerate(names)}
        else:
            g = kw.get("dataset")
            pre = g.strip("/") + "/" if g else ""
            cols = flat_cols(dict(f, seed=f["seed"] + len(pre)))
        keys = kw.get("keys") or list(cols)
        d = {q: cols[q][kw.get("istart", 0):kw.get("iend")] for q in keys}
        return ("dict", list(d), [np.array(x) for x in d.values()]), 0
    if k == "galn":
        return np.array(f["n"]), 0
    if k == "gal":
        lo, hi = op["kw"].get("istart", 0), op["kw"].get("iend")
        ms, ts, iso, tl = gal_data(f)
        return ("tuple", [("objs", ms[lo:hi]), ("objs", ts[lo:hi]), iso[lo:hi], tl[lo:hi]]), 0
    if k in ("tng", "pubtng"):
        x = np.maximum.accumulate(logm(f), axis=1)
        t = np.linspace(0.5, 13.8, 12)
        if k == "tng":
            return ("tuple", [t, np.where(x == 0.0, 0.0, 10**x) / 0.6774]), 1e-12
        return ("tuple", [np.arange(f["n"]).astype("i8"), x, t, np.array(10.0)]), 0
    if k == "pub":
        off = dict(cens=0, sats=1, orphans=2)[op["gt"]]
        m = logm(dict(f, seed=f["seed"] + off + len(op["sim"])))
        m = np.maximum.accumulate(np.where(m > 0, 10**m, 0).astype("f4"), axis=1)
        with np.errstate(all="ignore"):
            x = np.where(m == 0, 0, np.log10(m))
        t = np.linspace(0.4, 13.7, 12) if op["sim"] == "bpl" else np.linspace(0.3, 13.6, 12)
        return ("tuple", [9007199254740993 + off + 10 * np.arange(f["n"]), x, t, np.array(10.0 if op["sim"] == "bpl" else 11.25)]), 1e-6
    if k == "bpl":
        F = fits.FAMS["bpl"]
        wl = dict(f["wl"], subvols={str(s): f["wl"]["subvols"][str(s)] for s in op["subs"]})
        allh, ids = F.halos(f["wl"]), F.ids(f["wl"])
        sel = [i for s in op["subs"] for i, (q, _) in enumerate(allh) if int(q) == s]
        m = np.array([np.clip(np.maximum.accumulate(F.masses(allh[i][1])), 1.0, np.inf) for i in sel])
        t = np.asarray(F.tgrid())
        return ("tuple", [np.array([ids[i] for i in sel]), m, t, np.array(10.0), np.log10(t[-1])]), 3e-6
    raise ValueError(k)


FITS = dict(nt=["rnt"], flat=["flat"], wcol=["flat"], gal=["gal", "galn"], tng=["tng", "pubtng"], pub=["pub"], bpl=["bpl"])


class Exec:
    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.fs = os.path.join(root, "fs")
        self.bad = []

    def on_outside(self, sim, a, op, path):
        self.bad.append(("outside-mutation", f"tried to {op} {path}"))

    def on_mutate(self, sim, a, cls, path):
        pass

    def on_remove(self, sim, a, op, path, path2):
        pass

    def errs(self):
        return sum(v for k, v in self.sim.fired.items() if not k.startswith(("short_", "eintr", "dir_permuted", "clock_jump")))

    def on_note(self, sim, a, m):
        if m[0] == "start":
            self.e0, self.cur = self.errs(), m[1]
            return
        i, r = m[1], m[2]
        self.cur = None
        op = self.ops[i]
        disturbed = self.errs() > self.e0
        if disturbed:
            self.nerr += 1
        path = op["file"]
        if op["op"] in ("wnt", "wcol"):
            new = dict(op["spec"], kind="nt" if op["op"] == "wnt" else "wcol")
            if r[0] == "ok":
                self.state[path] = [new]
                sim.probe("written")
            else:
                if not disturbed:
                    self.bad.append(("lasting-effect" if self.nerr else "spurious-error", f"op {i} {op['op']} {path}: {r[1]}: {r[2]}"))
                self.state[path] = self.state.get(path, []) + [new, None]
            return
        st = self.state.get(path, [None])
        intact = len(st) == 1 and st[0] is not None
        if any(f is not None and op["op"] not in FITS[f["kind"]] for f in st):
            return
        if r[0] == "raise":
            sim.probe("raised")
            if not disturbed and intact:
                self.bad.append(("lasting-effect" if self.nerr else "spurious-error", f"op {i} {op['op']} {op.get('kw', '')} {path}: {r[1]}: {r[2]}"))
            return
        if op["op"] == "flat" and not intact:
            return  # a cut-off flat table is outside the property
        whys = []
        for f in st:
            if f is None:
                continue
            try:
                e, tol = expected(op, f)
            except KeyError:
                continue  # columns that only another version of the file has
            w = same(r[1], e, tol)
            if w is None:
                sim.probe("exact_after_tear" if not intact else "exact_despite_fault" if disturbed else "exact")
                return
            whys.append(w)
        kind = "silent-wrong" if disturbed else "wrong-values" if intact and not self.nerr else "lasting-effect" if intact else "torn-accepted"
        self.bad.append((kind, f"op {i} {op['op']} {op.get('kw', '')} {path}: {whys}"))

    def run(self):
        plan = self.plan
        self.state = {}
        for n, f in plan["files"].items():
            make_file(self.fs, n, f)
            self.state[n] = [f]
        self.sim = sim = Sim(plan, self.root, child.child_main, setup.SHIM, observer=self)
        before = tree(self.fs)
        try:
            for i, inc in enumerate(plan["incs"]):
                self.ops, self.cur, self.nerr = inc["ops"], None, 0
                spec = dict(jobs=[dict(nranks=1, cwd="", program=dict(kind="call", fn="io_history", prelude="memo_fits", args=dict(ops=inc["ops"])))], faults=inc.get("faults", []))
                r = sim.run_inc(i, spec)[0]
                if not r["ok"]:
                    # HDF5 itself may die of a failing write: a fail-stop, like a crash
                    died = self.cur is not None and r["status"][0] is not None and r["status"][0] < 0 and self.errs() > self.e0
                    sim.probe("library_died") if died and not any(f["kind"] != "err" for f in inc.get("faults", [])) else None
                    if not died and not any(f["kind"] != "err" for f in inc.get("faults", [])):
                        self.bad.append(("spurious-error", f"program died: {r['exc']} {r['status']}"))
                    elif self.cur is not None and self.ops[self.cur]["op"] in ("wnt", "wcol"):
                        op = self.ops[self.cur]
                        sim.probe("writer_crashed")
                        self.state[op["file"]] = self.state.get(op["file"], []) + [dict(op["spec"], kind="nt" if op["op"] == "wnt" else "wcol"), None]
                if self.bad:
                    break
            after = tree(self.fs)
            written = {op["file"] for inc in plan["incs"] for op in inc["ops"] if op["op"] in ("wnt", "wcol")}
            for p in sorted(set(before) | set(after)):
                if p not in written and before.get(p, 0) != after.get(p, 0):
                    self.bad.append(("input-changed", f"{p} was {'created' if p not in before else 'deleted' if p not in after else 'changed'}"))
        except Violation as v:
            self.bad.append((v.kind, v.detail))
        finally:
            sim.close()
        return dict(bad=self.bad, events=sim.nev, digest=sim.events.hexdigest(), sched=sim.sched_hash.hexdigest(), steps=sim.steps_total, choices=sim.nchoice,
                    simtime=sim.simtime, fired=sim.fired, probes=sim.probes, oplist=sim.oplist, log=sim.choice_log, trace=sim.trace,
                    extra=dict(file_operations_of_the_api=sum(len(i["ops"]) for i in plan["incs"])))


def execute(plan):
    plan = dict(plan, programs=["vsim.readers"])
    for mode in ((plan["mode"],) if plan.get("mode") else ("fork", "spawn")):
        root = engine.fresh_root(setup.scratch())
        try:
            r = Exec(dict(plan, mode=mode), root).run()
            r["mode"] = mode
            return r
        except NeedFresh as e:
            if mode == "spawn":
                raise HarnessError(str(e))
            if os.environ.get("VSIM_DEBUG"):
                print("NeedFresh", str(e)[-1500:], flush=True)
        finally:
            engine.drop_root(root)
    raise HarnessError("no mode left (replay of a forked run needs XLA)")


# ------------------------------------------------------------------ generation
def gen_nt(rng):
    names = rng.sample(sorted(set(NAMES)), rng.randint(1, 8))
    return dict(seed=rng.randrange(1 << 30), fields=[[n, rng.choice(NTK)] for n in names])


def gen_case(rng):
    files = {}
    files["a.h5"] = dict(gen_nt(rng), kind="nt")
    if rng.random() < 0.6:
        files["flat.h5"] = dict(kind="flat", seed=rng.randrange(1 << 20), n=rng.choice([0, 1, 5, 30, 2000]), cols=rng.sample(NAMES, rng.randint(1, 5)))
    if rng.random() < 0.5:
        files["gal.hdf5"] = dict(kind="gal", seed=rng.randrange(1 << 20), n=rng.choice([1, 2, 7, 20]))
    if rng.random() < 0.4:
        files["tng"] = dict(kind="tng", seed=rng.randrange(1 << 20), n=rng.choice([1, 2, 9]))
    if rng.random() < 0.4:
        files["pub"] = dict(kind="pub", seed=rng.randrange(1 << 20), n=rng.choice([1, 3, 50]))
    if rng.random() < 0.25:
        sub = {str(s): [rng.randrange(len(fits.POOL)) for _ in range(rng.randint(1, 3))] for s in range(rng.randint(1, 3))}
        files["bpl"] = dict(kind="bpl", wl=dict(subvols=sub, idbase=rng.choice([1, 9007199254740993]), others=False))
    ops = []
    for _ in range(rng.randint(3, 9)):
        ops.append(gen_op(rng, files))
    return files, ops


def gen_op(rng, files):
    fn = rng.choice(sorted(files))
    f = files[fn]
    k = f["kind"]
    if rng.random() < 0.25:
        k = "write"
    if k == "write":
        if rng.random() < 0.6:
            spec = gen_nt(rng)
            fn = rng.choice(["a.h5", "b.h5", "new.h5"])
            files[fn] = dict(spec, kind="nt")
            return dict(op="wnt", file=fn, spec=spec)
        spec = dict(seed=rng.randrange(1 << 20), n=rng.choice([1, 2, 9, 400]), ids=rng.choice([0, 1]))
        fn = rng.choice(["c.h5", "new.h5"])
        files[fn] = dict(spec, kind="wcol")
        return dict(op="wcol", file=fn, spec=spec)
    if k == "nt":
        return dict(op="rnt", file=fn)
    if k in ("flat", "wcol"):
        kw = {}
        cols = f["cols"] if k == "flat" else (["halo_id"] if f["ids"] else []) + fits.COLS
        if rng.random() < 0.5:
            lo = rng.randint(0, f["n"])
            if lo or rng.random() < 0.3:
                kw["istart"] = lo
            if rng.random() < 0.6:
                kw["iend"] = rng.randint(lo, f["n"] + 2)
        if k == "flat" and rng.random() < 0.6:
            kw["dataset"] = rng.choice(["grp", "deep/er"])
        if rng.random() < 0.4 or (k == "flat" and not kw.get("dataset")):
            kw["keys"] = rng.sample(cols, rng.randint(1, len(cols)))
        return dict(op="flat", file=fn, kw=kw)
    if k == "gal":
        if rng.random() < 0.2:
            return dict(op="galn", file=fn)
        kw = {}
        if rng.random() < 0.6:
            kw["istart"] = rng.randint(0, f["n"] - 1)
            if rng.random() < 0.7:
                kw["iend"] = rng.randint(kw["istart"] + 1, f["n"])
        return dict(op="gal", file=fn, kw=kw)
    if k == "tng":
        return dict(op=rng.choice(["tng", "pubtng"]), file=fn)
    if k == "pub":
        return dict(op="pub", file=fn, sim=rng.choice(["bpl", "mdpl2"]), gt=rng.choice(["cens", "sats", "orphans"]))
    if k == "bpl":
        subs = sorted(map(int, f["wl"]["subvols"]))
        return dict(op="bpl", file=fn, subs=rng.sample(subs, rng.randint(1, len(subs))))
    raise ValueError(k)


def run_task(task, emit):
    seed = task["seed"]
    rng = random.Random(mix(seed, "case"))
    files, ops = gen_case(rng)
    init_files = {n: f for n, f in gen_case(random.Random(mix(seed, "case")))[0].items() if n not in {o["file"] for o in ops if o["op"] in ("wnt", "wcol")} or n == "a.h5"}
    if "a.h5" in init_files:
        init_files["a.h5"] = dict(gen_nt(random.Random(mix(seed, "a"))), kind="nt")
    k = gen_knobs(rng)
    k.update(sync=0, slow=0)
    plan = dict(prop="C08", seed=seed, files=init_files, policy="default", knobs=k, incs=[dict(ops=ops)])
    if task.get("mode"):
        plan["mode"] = task["mode"]
    plan["record_ops"] = 1
    r = execute(plan)
    plan.pop("record_ops")
    if emit(plan, r):
        return
    oplist = {k: v for k, v in r["oplist"].items() if k.startswith("0:")}
    actors = sorted(oplist)
    wops = [(n + 1, c) for n, (c, p) in enumerate(oplist.get("0:0.0", [])) if p in ("a.h5", "b.h5", "new.h5", "c.h5") and c in ("write", "trunc", "close", "open_w")]
    for v in range(task["variants"] if actors else 0):
        p = copy.deepcopy(plan)
        vr = random.Random(mix(seed, "vr", v))
        if vr.random() < 0.6 or not wops:
            fs = [gen_err(vr, oplist, actors, "io") for _ in range(vr.choice([1, 1, 2]))]
            for f in fs:
                if f and f.get("persist") and vr.random() < 0.5:
                    f.pop("persist")
            p["incs"][0]["faults"] = [f for f in fs if f]
            # what was written before must be readable afterwards as well
            last = [dict(op="rnt", file=o["file"]) if o["op"] == "wnt" else dict(op="flat", file=o["file"], kw={}) for o in ops if o["op"] in ("wnt", "wcol")]
            p["incs"].append(dict(ops=check_ops(ops)))
        else:
            n, c = vr.choice(wops)
            p["incs"][0]["faults"] = [dict(kind="crash", actor="0.0", n=n, mode=vr.choice(["before", "after", "torn"]), arg=vr.randrange(1 << 16))]
            p["incs"].append(dict(ops=check_ops(ops)))
        if not p["incs"][-1]["ops"]:
            p["incs"].pop()
        if emit(p, execute(p)):
            return


def check_ops(ops):
    """Reads of the parameter files written by ops (flat tables cut off by a
    crash are outside the property)."""
    last = {o["file"]: o for o in ops if o["op"] in ("wnt", "wcol")}
    nt = [f for f, o in last.items() if all(q["op"] == "wnt" for q in ops if q["op"] in ("wnt", "wcol") and q["file"] == f)]
    return [dict(op="rnt", file=f, maybe=1) for f in sorted(nt)]


def shrinks(plan):
    def cp():
        return copy.deepcopy(plan)
    for k, v in plan.get("knobs", {}).items():
        if v:
            p = cp(); p["knobs"][k] = 0; yield p
    if len(plan["incs"]) > 1:
        p = cp(); del p["incs"][-1]; yield p
    for i, inc in enumerate(plan["incs"]):
        for q in range(len(inc.get("faults", []))):
            p = cp(); del p["incs"][i]["faults"][q]; yield p
        if not inc.get("faults") and len(inc["ops"]) > 1:
            for q in range(len(inc["ops"])):
                p = cp(); del p["incs"][i]["ops"][q]; yield p
        elif len(inc["ops"]) > 1:
            p = cp(); p["incs"][i]["ops"] = inc["ops"][:-1]; yield p
    used = {o["file"] for i in plan["incs"] for o in i["ops"]}
    for n in plan["files"]:
        if n not in used:
            p = cp(); del p["files"][n]; yield p


def init(group):
    import diffmah.data_loaders.io_utils  # noqa: F401
    import diffmah.data_loaders.load_bpl_um_data  # noqa: F401
    import diffmah.data_loaders.load_diffmah_pub_data  # noqa: F401
    import diffmah.data_loaders.load_galacticus_eps_mahs  # noqa: F401
    import diffmah.data_loaders.load_tng_mahs  # noqa: F401
    import umachine_pyio.load_mock  # noqa: F401
    import h5py  # noqa: F401
    t = fits.FAMS["bpl"].tgrid()
    np.log10(t[-1])
    fits.cfh()


def tasks(prop, tier, seed):
    n = 300 if tier == "quick" else 15000
    out = [dict(group="dsps", seed=mix(seed, prop, i) >> 12, variants=8) for i in range(n)]
    for i in range(4 if tier == "quick" else 60):
        out.insert(i * 9, dict(group="dsps", seed=mix(seed, prop, "real", i) >> 12, variants=0, mode="spawn"))
    return out


def group_of(plan):
    return "dsps"


REAL = ["diffmah.data_loaders.{io_utils,load_galacticus_eps_mahs,load_tng_mahs,load_diffmah_pub_data,load_bpl_um_data}", "write_collated_data", "numpy, h5py/HDF5, umachine_pyio"]
STUB = ["numpy's C-stdio fast path for .npy files (its Python path is used, below which the fault seam sits)", "dsps' age_at_z is looked up in forked ranks"]


def describe(plan):
    return dict(files={n: f["kind"] for n, f in plan["files"].items()}, ops=[[(o["op"], o["file"]) for o in i["ops"]] for i in plan["incs"]],
                faults=[i.get("faults", []) for i in plan["incs"]], knobs=plan["knobs"], seed=plan["seed"])
