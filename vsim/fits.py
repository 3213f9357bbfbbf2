"""The five parallel fit jobs: workloads, input files, command lines, oracles."""
import json
import os
import shutil
import sys

import numpy as np

from . import child, engine, fakes

REPO = os.environ.get("VSIM_REPO", "/repo")
SCRIPTS = os.path.join(REPO, "scripts", "fitting_scripts")
COLS = ["logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo"]
NT = 24

# (kind, seed, first index with mass)
POOL = [
    ("reg", 1, 6), ("reg", 2, 6), ("dip", 3, 6), ("peak", 4, 6), ("reg", 5, 9), ("dip", 6, 9),
    ("skip", 7, 0), ("zero", 8, 0), ("reg", 9, 6), ("peak", 10, 9), ("low", 11, 6), ("dip", 12, 6), ("one", 13, 0),
]


def raw_mah(kind, seed, k0, t):
    """Raw (not accumulated) mass history on the time grid t."""
    r = np.random.RandomState(1000 + seed)
    n = len(t)
    lgm0 = 11.3 + 0.23 * seed
    if kind == "low":
        lgm0 = 9.4
    x = lgm0 + (1.1 + 0.15 * (seed % 5)) * np.log10(t / t[-1]) + r.normal(0, 0.03, n)
    x[-1] = lgm0
    if kind == "dip":
        i = n // 2
        x[i:i + 3] -= 0.25
        x[-1] = x[-3:].max() - 0.05
    if kind == "peak":
        i = int(n * 0.7)
        x[i] = x[i:].max() + 0.02
        x[i + 1:] = x[i] - 0.1 - 0.01 * np.arange(n - i - 1)
    m = 10.0 ** x
    if kind == "skip":
        m[: n - 2] = 0.0
    elif kind == "one":
        m[: n - 1] = 0.0
    elif kind == "zero":
        m[:] = 0.0
    else:
        m[:k0] = 0.0
    return m


def cfh():
    from diffmah.fitting_helpers import diffmah_fitter_helpers as h
    return h


_FIT_CACHE = {}
SEALED = [False]
BROKEN = []  # halos the fitter itself fails on


def fit_row(t, mah, **kw):
    """Reference row for one halo: the serial fitter on the prescribed history."""
    key = (t.tobytes(), str(t.dtype), mah.tobytes(), tuple(sorted(kw.items())))
    if key not in _FIT_CACHE:
        if SEALED[0]:
            raise engine.HarnessError("reference fit missing")
        try:
            f = cfh().diffmah_fitter(t, mah, **kw)
        except Exception as e:
            _FIT_CACHE[key] = (None, None)
            BROKEN.append(f"{type(e).__name__}: {e}")
            return None
        tgt = np.asarray(f.loss_data.log_mah_target)
        npts = int((tgt < tgt[-1]).sum()) if tgt.size else 0
        vals = [float(x) for x in f.p_best] + [float(f.loss_best)]
        _FIT_CACHE[key] = (vals + [npts, int(f.code_used)], f)
        try:
            cfh().get_outline(f)  # so that forked ranks need not compile for it
        except Exception:
            pass
    return _FIT_CACHE[key][0]


_AGE_CACHE = {}


def age_at_z(z, *cosmo):
    """dsps' age_at_z, remembered (its XLA program does not run in a fork)."""
    from dsps.cosmology import flat_wcdm
    z = np.asarray(z)
    key = (z.tobytes(), str(z.dtype), tuple(float(c) for c in cosmo))
    if key not in _AGE_CACHE:
        _AGE_CACHE[key] = flat_wcdm.age_at_z(z, *cosmo)
    return _AGE_CACHE[key]


@child.program
def memo_fits():
    """Prelude of forked ranks: look up fits already made in the parent (same
    inputs, same code).  Anything else needs a fresh interpreter."""
    h = cfh()

    def fit(t_sim, mah_sim, **kw):
        t, m = np.asarray(t_sim), np.asarray(mah_sim)
        hit = _FIT_CACHE.get((t.tobytes(), str(t.dtype), m.tobytes(), tuple(sorted(kw.items()))))
        if hit is None or hit[1] is None:
            child.need_fresh()
        return hit[1]

    h.diffmah_fitter = fit
    from dsps.cosmology import flat_wcdm

    def age(z, *cosmo):
        z = np.asarray(z)
        hit = _AGE_CACHE.get((z.tobytes(), str(z.dtype), tuple(float(c) for c in cosmo)))
        if hit is None:
            child.need_fresh()
        return hit

    flat_wcdm.age_at_z = age


def compare_table(fn, exp, ids=None):
    """None if the HDF5 file at fn holds exactly the expected rows."""
    import h5py
    if any(r is None for r in exp):
        return f"the fitter itself fails on one of the halos ({BROKEN[:1]})"
    names = (["halo_id"] if ids is not None else []) + COLS
    try:
        with h5py.File(fn, "r") as f:
            got = {k: f[k][...] for k in f.keys()}
    except Exception as e:
        return f"unreadable ({type(e).__name__}: {str(e)[:80]})"
    if sorted(got) != sorted(names):
        return f"columns {sorted(got)} instead of {sorted(names)}"
    n = len(exp)
    for k in names:
        if got[k].shape != (n,):
            return f"column {k} has shape {got[k].shape}, expected ({n},)"
    if ids is not None:
        if not np.array_equal(got["halo_id"], np.asarray(ids)):
            return f"halo_id {got['halo_id'].tolist()[:8]} instead of {list(ids)[:8]}"
    for j, k in enumerate(COLS):
        e = np.array([r[j] for r in exp], dtype=float)
        g = got[k].astype(float)
        if j >= 6:
            bad = g != e
        else:
            bad = ~((np.abs(g - e) <= 6e-6 * np.abs(e) + 1e-300) | (np.isnan(g) & np.isnan(e)))
        if bad.any():
            i = int(np.argmax(bad))
            return f"row {i} column {k} is {g[i]!r}, expected {e[i]!r} ({int(bad.sum())} of {n} rows differ)"
    return None


# ================================================================= families
class Family:
    script = None
    multi = False  # several tables per job

    @property
    def path(self):
        return os.path.join(SCRIPTS, self.script)

    def outputs(self, wl):
        """relative path -> (expected rows, ids or None)"""
        raise NotImplementedError

    def extra_outputs(self, wl):
        return set()

    def inputs_dir(self, wl):
        return "in"

    def table_of_temp(self, wl, bn):
        """Which output a temporary file feeds (None: any)."""
        o = list(self.outputs(wl))
        return o[0] if len(o) == 1 else None

    def table_key(self, wl, bn):
        return None


class BPL(Family):
    name = "bpl"
    script = "bolshoi_planck_fitting_script.py"

    def tgrid(self):
        from dsps.cosmology import DEFAULT_COSMOLOGY
        if not hasattr(self, "_t"):
            a = np.round(np.linspace(0.16, 1.0, NT), 5)
            c = DEFAULT_COSMOLOGY._replace(Om0=0.307, h=0.678, w0=-1.0, wa=0.0)
            self._a, self._t = a, age_at_z(1.0 / a - 1.0, *c)
        return self._t

    def masses(self, i):
        k, s, k0 = POOL[i]
        return raw_mah(k, s, k0, np.asarray(self.tgrid(), dtype=float)).astype("f4")

    def gen(self, rng, big=0):
        ns = rng.choice([1, 1, 2, 3])
        s0 = rng.choice([0, 0, 1, 7, 9])
        sub = {}
        for s in range(s0, s0 + ns):
            sub[str(s)] = [rng.randrange(len(POOL)) for _ in range(big or rng.randint(1, 4))]
        return dict(fam=self.name, subvols=sub, idbase=rng.choice([1, 10**6, 9_007_199_254_740_993 // 4 * 4 + 12345]),
                    others=rng.random() < 0.5)

    def halos(self, wl):
        return [(s, h) for s in sorted(wl["subvols"], key=int) for h in wl["subvols"][s]]

    def ids(self, wl):
        # unsorted on purpose
        return [wl["idbase"] + (7919 * i) % 10007 for i in range(len(self.halos(wl)))]

    def materialise(self, wl, d):
        from umachine_pyio.memmap_array_utils import write_ndarray_to_memmap
        self.tgrid()
        os.makedirs(d)
        np.savetxt(os.path.join(d, "scale_list_bpl.dat"), self._a)
        i = 0
        ids = self.ids(wl)
        for s in sorted(wl["subvols"], key=int):
            hs = wl["subvols"][s]
            sd = os.path.join(d, f"subvol_{s}")
            for name, arr in (("halo_id", np.array(ids[i:i + len(hs)], dtype="i8")),
                              ("mpeak_history_main_prog", np.array([self.masses(h) for h in hs], dtype="f4").reshape(len(hs), NT))):
                os.makedirs(os.path.join(sd, name))
                write_ndarray_to_memmap(arr, os.path.join(sd, name, name + ".memmap"))
            i += len(hs)
        if wl.get("others"):  # a subvolume outside the requested range
            m = max(map(int, wl["subvols"])) + 1
            sd = os.path.join(d, f"subvol_{m}")
            for name, arr in (("halo_id", np.array([5], dtype="i8")), ("mpeak_history_main_prog", np.array([self.masses(0)], dtype="f4"))):
                os.makedirs(os.path.join(sd, name))
                write_ndarray_to_memmap(arr, os.path.join(sd, name, name + ".memmap"))

    def argv(self, wl, ind, outd):
        ks = sorted(map(int, wl["subvols"]))
        return [ind, outd, "-istart", ks[0], "-iend", ks[-1]]

    def row(self, h):
        m = np.maximum.accumulate(np.clip(np.maximum.accumulate(self.masses(h)), 1.0, np.inf))
        return fit_row(self.tgrid(), m, lgm_min=10.0, t_fit_min=1.0, nstep=200, n_warmup=1)

    def outputs(self, wl):
        return {"diffmah_fits.hdf5": ([self.row(h) for _, h in self.halos(wl)], self.ids(wl))}

    def extra_outputs(self, wl):
        return {"bpl_mpeak_histories.hdf5"}

    def check_extra(self, wl, outd):
        import h5py
        fn = os.path.join(outd, "bpl_mpeak_histories.hdf5")
        try:
            with h5py.File(fn, "r") as f:
                g = {k: f[k][...] for k in f}
        except Exception as e:
            return f"target histories unreadable ({type(e).__name__})"
        m = np.array([np.maximum.accumulate(np.clip(np.maximum.accumulate(self.masses(h)), 1.0, np.inf)) for _, h in self.halos(wl)])
        if sorted(g) != ["bpl_t_table", "halo_id", "mpeak_history"]:
            return f"target histories have columns {sorted(g)}"
        if g["halo_id"].tolist() != self.ids(wl) or g["mpeak_history"].shape != m.shape or not np.allclose(g["mpeak_history"], m, rtol=1e-6) \
                or not np.allclose(g["bpl_t_table"], self.tgrid(), rtol=1e-6):
            return "target histories differ from the catalogue"
        return None


class GAL(Family):
    name = "gal"
    script = "galacticus_diffmah_fitter_script.py"

    def times(self, i, end):
        n = NT if i % 3 else NT - 3
        t_end = (13.8, 11.0, 0.9)[end]
        t0 = 0.7
        if end == 2:
            t0 = t_end - 0.4  # lifetime below the minimum
        return np.linspace(t0, t_end, n)

    def gen(self, rng, big=0):
        n = big or rng.randint(1, 8)
        return dict(fam=self.name, halos=[[rng.randrange(len(POOL)), rng.choice([0, 0, 0, 1, 1, 2])] for _ in range(n)],
                    outbn=rng.choice([None, "eps_fits.hdf5"]))

    def materialise(self, wl, d):
        import h5py
        os.makedirs(d)
        n = len(wl["halos"])
        with h5py.File(os.path.join(d, "gal.hdf5"), "w") as f:
            g = f.create_group("Outputs/Output1/nodeData")
            vt = h5py.vlen_dtype(np.dtype("f8"))
            dm = g.create_dataset("haloAccretionHistoryMass", (n,), dtype=vt)
            dt = g.create_dataset("haloAccretionHistoryTime", (n,), dtype=vt)
            for i, (h, e) in enumerate(wl["halos"]):
                t = self.times(h, e)
                dt[i] = t
                dm[i] = self.mass(h, e)
            g["nodeIsIsolated"] = np.arange(n) % 2
            g["basicTimeLastIsolated"] = np.linspace(1, 13, n)

    def mass(self, h, e):
        k, s, k0 = POOL[h]
        return raw_mah(k, s, k0, self.times(h, e))

    def argv(self, wl, ind, outd):
        a = ["-indir", ind, "-inbn", "gal.hdf5", "-outdir", outd]
        if wl["outbn"]:
            a += ["-outbn", wl["outbn"]]
        return a

    def row(self, h, e, T0):
        t, m = self.times(h, e), np.maximum.accumulate(self.mass(h, e))
        skip = bool(t[-1] - t[0] < 0.5)
        if t[-1] < T0:
            t, m = np.append(t, T0), np.append(m, m[-1])
        return fit_row(t, m, force_skip_fit=skip)

    def T0(self, wl):
        return max(self.times(h, e)[-1] for h, e in wl["halos"])

    def outputs(self, wl):
        T0 = self.T0(wl)
        return {wl["outbn"] or "diffmah_fits.h5": ([self.row(h, e, T0) for h, e in wl["halos"]], None)}


class HACC(Family):
    multi = True

    def simname(self, wl):
        raise NotImplementedError

    def tgrid(self, sim):
        if not hasattr(self, "_t"):
            self._t = {}
        if sim not in self._t:
            s = fakes.Simulation.simulations[sim]
            z = s.step2z(np.array(s.cosmotools_steps))
            self._t[sim] = age_at_z(z, s.cosmo.Omega_m, s.cosmo.w0, s.cosmo.wa, s.cosmo.h)
        return self._t[sim]

    def mass(self, h, sim):
        k, s, k0 = POOL[h]
        return raw_mah(k, s, k0, np.asarray(self.tgrid(sim), dtype=float))

    def row(self, h, sim):
        m = np.maximum.accumulate(self.mass(h, sim)) / fakes.Simulation.simulations[sim].cosmo.h
        return fit_row(self.tgrid(sim), m)

    def materialise(self, wl, d):
        import h5py
        os.makedirs(d)
        sim = self.simname(wl)
        for s, hs in wl["subvols"].items():
            with h5py.File(os.path.join(d, f"m000p.coreforest.{s}.hdf5"), "w") as f:
                a = np.array([self.mass(h, sim) for h in hs], dtype="f8").reshape(len(hs), NT)
                f["infall_tree_node_mass"] = a
                f["tree_node_mass"] = a * 0.5
                f["core_tag"] = np.arange(len(hs))
        for s in wl.get("junk", []):
            open(os.path.join(d, s), "w").write("x")

    def selected(self, wl):
        subs = sorted(map(int, wl["subvols"]))
        lo, hi = wl["istart"], wl["iend"]
        return subs[lo:hi if hi is not None else None]

    def outputs(self, wl):
        out = {}
        nch, sim = wl["nchunks"], self.simname(wl)
        w = len(str(nch))
        for s in self.selected(wl):
            hs = wl["subvols"][str(s)]
            for c in range(nch):
                lo, hi = fakes.chunk_bounds(len(hs), nch, c)
                out[f"subvol_{s}_chunk_{c:0{w}d}.hdf5"] = ([self.row(h, sim) for h in hs[lo:hi]], None)
        return out

    def gen_subs(self, rng, names, big):
        nch = rng.choice([1, 1, 2, 2, 3, 10])
        sub = {}
        for s in names:
            n = big or (rng.randint(1, 5) if nch < 10 else rng.randint(0, 11))
            sub[str(s)] = [rng.randrange(len(POOL)) for _ in range(n)]
        return sub, nch


class DISC(HACC):
    name = "disc"
    script = "hacc_discovery_sims_diffmah_fitter_script.py"

    def simname(self, wl):
        return "Discovery" + wl["sim"]

    def gen(self, rng, big=0):
        names = rng.choice([[0], [0, 1], [1, 11], [2, 10], [0, 9, 10], [3]])
        if big:
            names = names[:1]
        sub, nch = self.gen_subs(rng, names, big)
        if nch == 10 and len(names) > 1:
            nch = 3
        lo, hi = 0, None
        if len(names) > 1 and rng.random() < 0.4:
            lo = rng.randint(0, len(names) - 1)
            hi = rng.randint(lo + 1, len(names))
        return dict(fam=self.name, sim=rng.choice(["LCDM", "W0WA"]), subvols=sub, nchunks=nch, istart=lo, iend=hi,
                    junk=rng.choice([[], ["readme.txt", "m000p.coreforest.hdf5"]]))

    def argv(self, wl, ind, outd):
        a = [ind, wl["sim"], outd, "-nchunks", wl["nchunks"]]
        if wl["istart"]:
            a += ["-istart", wl["istart"]]
        if wl["iend"] is not None:
            a += ["-iend", wl["iend"]]
        return a


class LJ(HACC):
    name = "lj"
    script = "hacc_lastjourney_diffmah_fitter_script.py"

    def simname(self, wl):
        return "LastJourney"

    def gen(self, rng, big=0):
        n = rng.choice([1, 1, 2, 3])
        names = list(range(n))
        if big:
            names = names[:1]
        sub, nch = self.gen_subs(rng, names, big)
        if nch == 10 and len(names) > 1:
            nch = 2
        lo, hi = 0, None
        if len(names) > 1 and rng.random() < 0.4:
            lo = rng.randint(0, len(names) - 1)
            hi = rng.randint(lo + 1, len(names))
        return dict(fam=self.name, subvols=sub, nchunks=nch, istart=lo, iend=hi)

    def argv(self, wl, ind, outd):
        a = [ind, outd, "fits", "-nchunks", wl["nchunks"], "-num_subvols_tot", len(wl["subvols"])]
        if wl["istart"]:
            a += ["-istart", wl["istart"]]
        if wl["iend"] is not None:
            a += ["-iend", wl["iend"]]
        return a


class TNG(Family):
    name = "tng"
    script = "tng_diffmah_fitter_script.py"

    def tgrid(self):
        return np.linspace(0.6, 13.8, NT)

    def logm(self, h):
        k, s, k0 = POOL[h]
        m = raw_mah(k, s, k0, self.tgrid())
        return np.log10(np.where(m > 0, m, 1.0))

    def gen(self, rng, big=0):
        n = big or rng.randint(1, 8)
        hs = [rng.randrange(len(POOL)) for _ in range(n)]
        if all(POOL[h][0] == "zero" for h in hs):
            hs[0] = 0
        return dict(fam=self.name, halos=hs)

    def materialise(self, wl, d):
        os.makedirs(d)
        n = len(wl["halos"])
        a = np.zeros(n, dtype=[("mpeak", "f8"), ("mpeakh", "f8", (NT,))])
        for i, h in enumerate(wl["halos"]):
            a["mpeakh"][i] = self.logm(h)
            a["mpeak"][i] = a["mpeakh"][i].max()
        np.save(os.path.join(d, "tng_diffmah.npy"), a)
        np.save(os.path.join(d, "tng_cosmic_time.npy"), self.tgrid())

    def argv(self, wl, ind, outd):
        return [ind, outd]

    def row(self, h):
        x = np.maximum.accumulate(self.logm(h))
        m = np.where(x == 0.0, 0.0, 10**x) * (1 / 0.6774)
        return fit_row(self.tgrid(), m)

    def outputs(self, wl):
        return {"diffmah_tng_fits.hdf5": ([self.row(h) for h in wl["halos"]], None)}


FAMS = {f.name: f for f in (BPL(), GAL(), DISC(), LJ(), TNG())}


def warm(names):
    """Make every reference fit once: compiles all shapes and fills the memo."""
    import importlib
    # import only what these scripts import: dsps switches JAX to 64 bits for
    # the whole process, so jobs with and without it are warmed separately
    mods = ["argparse", "shlex", "subprocess", "h5py", "glob"]
    for n in names:
        mods += dict(bpl=["diffmah.data_loaders.load_bpl_um_data", "umachine_pyio.load_mock"], disc=["diffmah.data_loaders.load_hacc_mahs"],
                     lj=["diffmah.data_loaders.load_hacc_mahs"], gal=["diffmah.data_loaders.load_galacticus_eps_mahs"],
                     tng=["diffmah.data_loaders.load_tng_mahs"])[n]
    for m in mods:
        try:
            importlib.import_module(m)
        except Exception:
            pass  # the script reports it
    for n in names:
        f = FAMS[n]
        child.preload_script(f.path)
        if n == "bpl" or n == "tng":
            for h in range(len(POOL)):
                f.row(h)
        elif n == "gal":
            for h in range(len(POOL)):
                for e in range(3):
                    for T0 in (13.8, 11.0, 0.9):
                        if f.times(h, e)[-1] <= T0:
                            f.row(h, e, T0)
        else:
            for sim in (("LastJourney",) if n == "lj" else ("DiscoveryLCDM", "DiscoveryW0WA")):
                for h in range(len(POOL)):
                    f.row(h, sim)
