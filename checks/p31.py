"""Batch fitting scripts: one fit per halo of the input catalog, in catalog order."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks import p12
from pbt import gen, jobs, stubs
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

RULE = (
    "A case is a generated catalog (up to 14 halos, 12 snapshots, some too small or too short-lived "
    "to be fitted) in the format of one simulation, and the command line of its fitting script run "
    "on 1-12 simulated ranks (threads). Non-trivial: more than one rank or more than one sub-volume, "
    "chunk or output file, with at least two halos."
)
ASSUMPTIONS = [
    "mpi4py, haccytrees, umachine_pyio, dsps and diffsky are not installed: stand-ins with their "
    "documented interface serve the generated data and run the ranks as threads",
    "shell commands of the scripts are expanded by a real shell without programs, and the deletions "
    "they ask for are carried out by a stand-in confined to a scratch directory",
]

top = Lazy("diffmah")
fh = Lazy("diffmah.fitting_helpers.diffmah_fitter_helpers")
bpl = Lazy("diffmah.data_loaders.load_bpl_um_data")

NT = 12
COLS = ["logm0", "logtc", "early_index", "late_index", "t_peak", "loss"]


OUT = st.sampled_from(["out", "out", "my fits", "fits (v2)", "it's", "fits[2]", "a&b", "x*"])


def strat_base():
    return dict(n=st.one_of(st.integers(1, 9), st.just(14)),
                size=st.one_of(st.integers(1, 5), st.just(12)), seed=gen.seed(),
                stale=st.booleans(), relative=st.booleans(), skip=st.booleans(), out=OUT,
                cut=st.booleans())


def histories(rng, n, t, skip, cut):
    """log10 masses; only few distinct numbers of fitted snapshots, each size is compiled once"""
    u = np.log10(t / t[-1])
    lg = np.empty((n, len(t)))
    for i in range(n):
        a = rng.uniform(0.6, 1.9)
        lg[i] = rng.uniform(11.5, 14.5) + a * u - rng.uniform(0.0, 0.5) * u**2
        lg[i] = np.maximum.accumulate(lg[i] + rng.normal(0, 0.01, len(t)))
        if rng.random() < 0.4:  # peaked before the end
            lg[i, -4:] = lg[i, -4]
        if cut and rng.random() < 0.5:
            lg[i, :4] = 0.0
        elif skip and rng.random() < 0.3:
            lg[i] = lg[i, -1]
            lg[i, : len(t) - 2] = 0.0  # too few points to fit
    return lg


def mods():
    p12.mods()


_direct = {}


def direct(t, mah, **kw):
    """Columns of the output for one halo as printed by the library itself"""
    key = (np.asarray(t).tobytes(), np.asarray(mah).tobytes(), tuple(sorted(kw.items())))
    if key not in _direct:
        if len(_direct) > 500:
            _direct.clear()
        res = top.diffmah_fitter(t, mah, **kw)
        words = fh.get_outline(res).split()
        cols = fh.HEADER[1:].split()
        _direct[key] = dict(zip(cols, words))
    return _direct[key]


def read(fn):
    import h5py

    with h5py.File(fn, "r") as hdf:
        return {k: hdf[k][...] for k in hdf}


def compare(got, want, ids=None):
    cols = set(COLS) | {"n_points_per_fit", "fit_algo"} | ({"halo_id"} if ids is not None else set())
    require(set(got) == cols, "columns of the output file", got=sorted(got))
    n = len(want)
    for k in got:
        require(np.shape(got[k]) == (n,), "number of rows differs from the number of halos",
                column=k, got=str(np.shape(got[k])), want=n)
    if ids is not None:
        require(np.array_equal(got["halo_id"], ids), "halo ids are not those of the catalog in order",
                got=got["halo_id"], want=ids)
    for k in COLS:
        w = np.array([float(row[k]) for row in want])
        close(got[k], w, f"{k} differs from a direct fit of that halo", rtol=2e-5, atol=1e-7)
    for k in ("n_points_per_fit", "fit_algo"):
        w = np.array([int(float(row[k])) for row in want])
        require(np.array_equal(got[k], w), f"{k} differs from a direct fit of that halo",
                got=got[k], want=w)


class Job:
    """Scratch layout: in/ for the catalog, out/ for results and a bystander file"""

    def __init__(self, case):
        self.case = case
        self.tmp = tempfile.TemporaryDirectory(prefix="pbt_job_")

    def __enter__(self):
        self.root = os.path.realpath(self.tmp.name)
        self.indir = os.path.join(self.root, "in")
        name = self.case.get("out", "out")
        self.out = os.path.join(self.root, name)
        os.mkdir(self.indir)
        self.outarg = name if self.case["relative"] else self.out
        self.keep = os.path.join(self.out, "notes.dat")
        os.mkdir(self.out)
        # bystanders a sloppily built path would hit
        self.others = [w for w in (name.split()[0], "fits2", "xy") if w != name]
        for w in self.others:
            with open(os.path.join(self.root, w), "w") as f:
                f.write("keep me\n")
        with open(self.keep, "w") as f:
            f.write("keep me\n")
        return self

    def stale(self, name, text):
        if self.case["stale"]:
            # left by an earlier, interrupted run on more ranks
            with open(os.path.join(self.out, name), "w") as f:
                f.write(text)

    def run(self, name, *argv):
        return jobs.run_script(name, argv, self.case["size"], self.root)

    def check_files(self, *want):
        have = sorted(os.listdir(self.out))
        # (whether the left-over of the earlier run is cleaned up as well is left open)
        have = [x for x in have if not (self.case["stale"] and "tmp_mah_fits_rank_77" in x)]
        temp = [x for x in have if "tmp_mah_fits" in x]
        require(not temp, "temporary rank files are left behind", files=temp)
        require("notes.dat" in have, "a file of the user was deleted")
        require(sorted(set(have) - {"notes.dat"}) == sorted(want), "output files", got=have,
                want=sorted(want))
        self.check_others()

    def check_others(self):
        have = sorted(os.listdir(self.root))
        want = sorted({"in", os.path.basename(self.out)} | set(self.others))
        require(have == want, "files written or deleted outside the output directory", got=have)

    def __exit__(self, *a):
        self.tmp.cleanup()


def stale_rows(header, ncol):
    return header + " ".join(["7"] * ncol) + "\n"


# ------------------------------------------------------------------ TNG


def check_tng(case, rec):
    mods()
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    t = np.linspace(1.5, 13.8, NT)
    lg = histories(rng, n, t, case["skip"], case["cut"])
    h = np.zeros(n, dtype=[("mpeak", "f8"), ("mpeakh", "f8", (NT,))])
    h["mpeakh"], h["mpeak"] = lg, lg.max(axis=1)
    rec.count(n)
    rec.nontrivial(case["size"] > 1 and n > 1)
    rec.label("fewer halos than ranks", n < case["size"])
    with Job(case) as job:
        np.save(os.path.join(job.indir, "tng_diffmah.npy"), h)
        np.save(os.path.join(job.indir, "tng_cosmic_time.npy"), t)
        job.stale("tmp_mah_fits_rank_77.dat", stale_rows(fh.HEADER, 8))
        job.run("tng_diffmah_fitter_script.py", job.indir, job.outarg)
        job.check_files("diffmah_tng_fits.hdf5")
        got = read(os.path.join(job.out, "diffmah_tng_fits.hdf5"))
        tarr, mahs = p12.tng.load_tng_data(data_drn=job.indir)
    want = [direct(tarr, mahs[i]) for i in range(n)]
    rec.label("halo without fit", any(int(w["fit_algo"]) < 0 for w in want))
    compare(got, want)


# ------------------------------------------------------------------ Galacticus


def strat_gal():
    return st.fixed_dictionaries(dict(strat_base(), dtmin=st.sampled_from([None, 0.2, 3.0]),
                                      bn=st.sampled_from([None, "fits_a.hdf5"])))


def check_gal(case, rec):
    import h5py

    mods()
    rng = np.random.default_rng(case["seed"])
    n, size = case["n"], case["size"]
    full = np.linspace(1.5, 13.8, NT)
    ts, ms = [], []
    for i in range(n):
        kind = rng.integers(0, 4)
        if kind == 0:  # halo disrupted before the end: its last mass is extended to the last time
            t = full[: NT - 1]
        elif kind == 1 and case["skip"]:  # short-lived
            t = np.sort(full[-1] - rng.uniform(0.0, 4.0) * np.linspace(0, 1, NT - 1))
        else:
            t = full
        lg = histories(rng, 1, t, False, False)[0]
        if rng.random() < 0.5:
            lg[len(t) // 2] -= 0.15  # losing mass
        ts.append(t)
        ms.append(10**lg)
    dt_min = 0.5 if case["dtmin"] is None else case["dtmin"]
    near = min(abs(t[-1] - t[0] - dt_min) for t in ts)
    rec.count(n)
    rec.nontrivial(size > 1 and n > 1)
    rec.label("fewer halos than ranks", n < size)
    with Job(case) as job:
        fn = os.path.join(job.indir, "g.h5")
        with h5py.File(fn, "w") as hdf:
            node = hdf.create_group("Outputs/Output1/nodeData")
            dt = h5py.vlen_dtype(np.dtype("f8"))
            for k, v in (("haloAccretionHistoryMass", ms), ("haloAccretionHistoryTime", ts)):
                ds = node.create_dataset(k, (n,), dtype=dt)
                for i in range(n):
                    ds[i] = v[i]
            node["nodeIsIsolated"] = rng.integers(0, 2, n)
            node["basicTimeLastIsolated"] = rng.uniform(1, 13, n)
        job.stale("tmp_mah_fits_rank_77.dat", stale_rows(fh.HEADER, 8))
        args = ["-indir", job.indir, "-inbn", "g.h5", "-outdir", job.outarg]
        if case["dtmin"] is not None:
            args += ["-dt_fit_min", case["dtmin"]]
        if case["bn"]:
            args += ["-outbn", case["bn"]]
        job.run("galacticus_diffmah_fitter_script.py", *args)
        bn = case["bn"] or "diffmah_fits.h5"
        job.check_files(bn)
        got = read(os.path.join(job.out, bn))
    if near < 1e-6:
        return
    t0 = max(t[-1] for t in ts)
    want = []
    for t, m in zip(ts, ms):
        skip = bool(t[-1] - t[0] < dt_min)
        m = np.maximum.accumulate(m)
        if t[-1] < t0:
            t, m = np.append(t, t0), np.append(m, m[-1])
        want.append(direct(t, m, force_skip_fit=skip))
    rec.label("halo without fit", any(int(w["fit_algo"]) < 0 for w in want))
    compare(got, want)


# ------------------------------------------------------------------ Bolshoi-Planck


def strat_bpl():
    return st.fixed_dictionaries(dict(strat_base(), istart=st.integers(0, 3),
                                      nsub=st.integers(1, 3), test=st.booleans()))


SCALE_BPL = np.linspace(0.2, 1.0, NT)


def check_bpl(case, rec):
    mods()
    rng = np.random.default_rng(case["seed"])
    n, size = case["n"], case["size"]
    t = stubs.age_at_z(1 / SCALE_BPL - 1, 0.307, -1.0, 0.0, 0.678)
    lg = histories(rng, n, t, case["skip"], case["cut"])
    m = np.where(lg == 0, 0.0, 10.0**lg)
    if rng.random() < 0.5:
        m[:, NT // 2] *= 0.7  # losing mass
    ids = rng.integers(0, 2**62, n)
    sub = list(range(case["istart"], case["istart"] + case["nsub"]))
    part = np.sort(rng.integers(0, len(sub), n))
    rec.count(n)
    rec.nontrivial((size > 1 or len(sub) > 1) and n > 1)
    rec.label("fewer halos than ranks", n < size)
    rec.label("short test run", case["test"])
    with Job(case) as job:
        np.savetxt(os.path.join(job.indir, "scale_list_bpl.dat"), SCALE_BPL, fmt="%.18e")
        stubs.UM_TABLES.clear()
        for i, s in enumerate(sub):
            stubs.UM_TABLES[(job.indir, s)] = {"halo_id": ids[part == i],
                                               "mpeak_history_main_prog": m[part == i]}
        for s in (sub[0] - 1, sub[-1] + 1):  # neighbours that were not asked for
            stubs.UM_TABLES[(job.indir, s)] = {"halo_id": ids[:1] + 1,
                                               "mpeak_history_main_prog": m[:1] * 2}
        job.stale("tmp_mah_fits_rank_77.dat", stale_rows(fh.HEADER_HALO_ID, 9))
        args = [job.indir, job.outarg, "-istart", sub[0], "-iend", sub[-1]]
        job.run("bolshoi_planck_fitting_script.py", *args, *(["-test", 1] if case["test"] else []))
        job.check_files("diffmah_fits.hdf5", "bpl_mpeak_histories.hdf5")
        got = read(os.path.join(job.out, "diffmah_fits.hdf5"))
        hist = read(os.path.join(job.out, "bpl_mpeak_histories.hdf5"))
    mah = np.maximum(np.maximum.accumulate(m, axis=1), 1.0)
    require(np.array_equal(hist["halo_id"], ids), "ids of the target histories")
    close(hist["mpeak_history"], mah, "target histories written by the job", rtol=1e-12)
    close(hist["bpl_t_table"], t, "times written by the job", rtol=1e-6)
    nfit = min(n, 5 * size) if case["test"] else n
    want = [direct(hist["bpl_t_table"], mah[i], lgm_min=10.0, t_fit_min=1.0, nstep=200, n_warmup=1)
            for i in range(nfit)]
    rec.label("halo without fit", any(int(w["fit_algo"]) < 0 for w in want))
    compare(got, want, ids[:nfit])


# ------------------------------------------------------------------ HACC


def strat_hacc():
    return st.fixed_dictionaries(dict(
        strat_base(), script=st.sampled_from(["discovery", "lastjourney"]),
        cosmo=st.sampled_from(["LCDM", "W0WA"]), nchunks=st.sampled_from([1, 2, 3, 11]),
        subvols=st.lists(st.integers(0, 12), min_size=1, max_size=3, unique=True),
        istart=st.sampled_from([None, 0, 1]), iend=st.sampled_from([None, 1, 2, 3]),
        test=st.booleans(), order=st.booleans()))


def check_hacc(case, rec):
    mods()
    rng = np.random.default_rng(case["seed"])
    size, nchunks = case["size"], case["nchunks"]
    disc = case["script"] == "discovery"
    avail = sorted(case["subvols"]) if disc else list(range(len(case["subvols"])))
    if case["test"]:
        nchunks = max(nchunks, 3)
    # the two cosmologies share the catalog directory name but not the simulation
    par = {"DiscoveryLCDM": (0.31, -1.0, 0.0, 0.7), "DiscoveryW0WA": (0.33, -0.8, -0.3, 0.65),
           "LastJourney": (0.26, -1.0, 0.0, 0.71)}
    steps = np.arange(100, 100 + NT)
    z = np.linspace(4.0, 0.0, NT)
    stubs.HaccSim.simulations = {
        k: stubs.HaccSim(steps, z, stubs.HaccCosmo(*v)) for k, v in par.items()}
    sim = "Discovery" + case["cosmo"] if disc else "LastJourney"
    t = stubs.age_at_z(z, *par[sim])
    stubs.CORES.clear()
    mass = {}
    with Job(case) as job:
        for s in avail:
            n = int(rng.integers(1, case["n"] + 1))
            lg = histories(rng, n, t, case["skip"], case["cut"])
            m = np.where(lg == 0, 0.0, 10.0**lg)
            fn = os.path.join(job.indir, f"m000p.coreforest.{s}.hdf5")
            open(fn, "w").close()
            stubs.CORES[fn] = {"infall_tree_node_mass": m, "other": m * 2}
            mass[s] = m / par[sim][3]
        lo = 0 if case["istart"] is None else case["istart"]
        hi = None if case["iend"] is None else case["iend"]
        todo = avail[:1] if case["test"] else avail[lo:hi]
        chunks = range(3) if case["test"] else range(nchunks)
        width = len(str(nchunks))
        name = lambda s, c: f"subvol_{s}_chunk_{c:0{width}d}.hdf5"  # noqa: E731
        if todo:
            job.stale(f"subvol_{todo[0]}_chunk_{0:0{width}d}_tmp_mah_fits_rank_77.dat",
                      stale_rows(fh.HEADER, 8))
        args = [job.indir] + ([case["cosmo"], job.outarg] if disc else
                              [job.outarg, "fits.hdf5", "-num_subvols_tot", len(avail)])
        args += ["-nchunks", nchunks]
        if case["istart"] is not None:
            args += ["-istart", case["istart"]]
        if case["iend"] is not None:
            args += ["-iend", case["iend"]]
        if case["test"]:
            args += ["-test", 1]
        script = "hacc_discovery_sims" if disc else "hacc_lastjourney"
        job.run(f"{script}_diffmah_fitter_script.py", *args)
        job.check_files(*[name(s, c) for s in todo for c in chunks])
        got = {(s, c): read(os.path.join(job.out, name(s, c))) for s in todo for c in chunks}
    rec.nontrivial(len(got) * size > 1)
    rec.label(case["script"])
    for s in todo:
        rows = np.array_split(np.arange(len(mass[s])), nchunks)
        rec.count(len(mass[s]))
        for c in chunks:
            compare(got[s, c], [direct(t, mass[s][i]) for i in rows[c]])


# ------------------------------------------------------------------ collation of Last Journey


def strat_unchunk():
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), istart=st.integers(0, 12), nsub=st.integers(1, 2),
        same=st.booleans(), relative=st.booleans(), ids=st.booleans(), size=st.just(1), out=OUT))


def install_diffsky():
    import sys
    import types

    from diffmah.data_loaders import io_utils

    pkg, mod = types.ModuleType("diffsky"), types.ModuleType("diffsky.data_loaders")
    mod.load_flat_hdf5 = io_utils.load_flat_hdf5
    pkg.data_loaders = mod
    pkg.__path__ = []
    sys.modules.update({"diffsky": pkg, "diffsky.data_loaders": mod})


def check_unchunk(case, rec):
    import h5py

    mods()
    install_diffsky()
    rng = np.random.default_rng(case["seed"])
    cols = COLS + ["n_points_per_fit", "fit_algo"] + (["halo_id"] if case["ids"] else [])
    todo = range(case["istart"], case["istart"] + case["nsub"])
    rec.nontrivial(True)
    with Job(case) as job:
        indir = job.outarg  # chunks are deleted: they lie next to a file of the user
        outdir = indir if case["same"] else os.path.join(job.root, "in")
        want = {}
        for s in list(todo) + [todo[0] + 100]:
            parts = []
            for c in range(20):
                n = int(rng.integers(0, 4))
                d = {k: rng.normal(size=n).astype("f4") for k in COLS}
                for k in cols[6:]:
                    d[k] = rng.integers(0, 2**62 if k == "halo_id" else 200, n)
                with h5py.File(os.path.join(job.out, f"subvol_{s}_chunk_{c:02d}.hdf5"), "w") as h:
                    for k in cols:
                        h[k] = d[k]
                parts.append(d)
            want[s] = {k: np.concatenate([p[k] for p in parts]) for k in cols}
        job.run("unchunk_last_journey_script.py", todo[0], todo[-1] + 1, "-indir", indir,
                     "-outdir", outdir)
        other = todo[0] + 100
        left = [f"subvol_{other}_chunk_{c:02d}.hdf5" for c in range(20)]
        made = [f"subvol_{s}_diffmah_fits.hdf5" for s in todo]
        have = sorted(os.listdir(job.out))
        require(have == sorted(left + ["notes.dat"] + (made if case["same"] else [])),
                "files left in the directory of the chunks", got=have)
        job.check_others()
        for s in todo:
            fn = os.path.join(job.root, outdir, f"subvol_{s}_diffmah_fits.hdf5")
            require(os.path.isfile(fn), "no collated file for a sub-volume", subvol=s)
            got = read(fn)
            rec.count(len(want[s]["loss"]))
            require(sorted(got) == sorted(cols), "columns of the collated file", got=sorted(got))
            for k in cols:
                require(got[k].dtype == want[s][k].dtype and np.array_equal(got[k], want[s][k]),
                        "collated column is not the chunks in order", column=k)


SUBS = [
    Sub("tng", lambda: st.fixed_dictionaries(strat_base()), check_tng, quick=100, thorough=1500),
    Sub("galacticus", strat_gal, check_gal, quick=120, thorough=1500),
    Sub("bolshoi", strat_bpl, check_bpl, quick=120, thorough=1500),
    Sub("hacc", strat_hacc, check_hacc, quick=100, thorough=1500, shards=2,
        cover=[{"script": s} for s in ("discovery", "lastjourney")]),
    Sub("collate", strat_unchunk, check_unchunk, quick=80, thorough=1000),
]
