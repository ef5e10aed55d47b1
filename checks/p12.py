"""Catalog loaders: every halo gets its own data in the documented units."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import env, gen, stubs
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

RULE = (
    "A case is a generated catalog (1-12 halos, 5-12 snapshots, histories with dips and empty "
    "snapshots) written in the on-disk format of a simulation, or served by a stand-in for the "
    "reader package of that simulation, then loaded with generated options. Non-trivial: some "
    "history is not monotonic or has empty snapshots, or only part of the catalog is requested."
)

ASSUMPTIONS = [
    "umachine_pyio, haccytrees and dsps are not installed: stand-ins with their documented "
    "interface serve generated data, and cosmic ages come from an independent integration",
]

_ready = []


def mods():
    if not _ready:
        stubs.install_dsps()
        stubs.install_haccytrees()
        stubs.install_umachine()
        stubs.install_mpi()
        _ready.append(1)
    return Lazy


tng = Lazy("diffmah.data_loaders.load_tng_mahs")
pub = Lazy("diffmah.data_loaders.load_diffmah_pub_data")


def script_loaders():
    """The same loaders as shipped with the fitting scripts"""
    import runpy
    from types import SimpleNamespace

    if "s" not in _script:
        fn = os.path.join(env.REPO, "scripts", "fitting_scripts", "load_mah_data.py")
        _script["s"] = SimpleNamespace(**runpy.run_path(fn))
    return _script["s"]


_script = {}
gal = Lazy("diffmah.data_loaders.load_galacticus_eps_mahs")
hacc = Lazy("diffmah.data_loaders.load_hacc_mahs")
bpl = Lazy("diffmah.data_loaders.load_bpl_um_data")


def catalog(case, lo=9.0, hi=15.0):
    """log10 masses with dips and empty early snapshots (0), times"""
    rng = np.random.default_rng(case["seed"])
    n, nt = case["n"], case["nt"]
    end = rng.uniform(lo, hi, (n, 1))
    steps = np.where(rng.random((n, nt)) < case["dips"], -rng.random((n, nt)) * 0.2,
                     rng.random((n, nt)) * 0.5)
    lg = end - steps[:, ::-1].cumsum(axis=1)[:, ::-1]
    empty = rng.integers(0, nt - 1, n) if case["empty"] else np.zeros(n, int)
    lg[np.arange(nt)[None, :] < empty[:, None]] = 0.0
    t = np.sort(rng.uniform(0.2, 13.8, nt))
    return lg, t, empty, rng


def strat_cat():
    return dict(n=st.integers(1, 12), nt=st.integers(5, 12), seed=gen.seed(),
                dips=st.sampled_from([0.0, 0.3]), empty=st.booleans())


def runmax(x):
    return np.maximum.accumulate(x, axis=1)


# ------------------------------------------------------------------ numpy catalogs


def strat_npy():
    return st.fixed_dictionaries(dict(
        strat_cat(), which=st.sampled_from(["tng", "pub_tng", "bpl", "mdpl2"]),
        gal_type=st.sampled_from(["cens", "sats", "orphans"]), f4=st.booleans(),
        script=st.booleans(), tiny=st.booleans()))


def check_npy(case, rec):
    lg, t, empty, rng = catalog(case)
    n, nt = lg.shape
    f = "f4" if case["f4"] else "f8"
    ids = rng.integers(0, 2**62, n)
    which = case["which"]
    if which == "tng" and case["tiny"]:  # masses of a few Msun/h are not empty snapshots
        first = np.minimum(empty, nt - 2)
        lg[np.arange(n), first] = rng.uniform(0.02, 2.0, n)
    rec.count(n)
    rec.nontrivial((np.diff(lg, axis=1) < 0).any() or empty.any())
    rec.label(which)
    pubs = script_loaders() if case["script"] else pub
    tol = 3e-6 if case["f4"] else 1e-12
    with tempfile.TemporaryDirectory() as drn:
        if which in ("tng", "pub_tng"):
            h = np.zeros(n, dtype=[("mpeak", f), ("mpeakh", f, (nt,))])
            h["mpeakh"], h["mpeak"] = lg, lg.max(axis=1)
            np.save(os.path.join(drn, "tng_diffmah.npy"), h)
            np.save(os.path.join(drn, "tng_cosmic_time.npy"), t)
            if which == "tng":
                t_got, mah = tng.load_tng_data(data_drn=drn)
                want = runmax(h["mpeakh"].astype("f8"))
                close(t_got, t, "times of the catalog changed")
                require(mah.shape == (n, nt), "wrong number of histories")
                require((mah[want == 0] == 0).all(), "an empty snapshot received mass")
                # the catalog stores Msun/h, the loader returns Msun
                with np.errstate(divide="ignore"):
                    close(np.log10(mah[want > 0]), want[want > 0] - np.log10(0.6774),
                          "history is not the running maximum of the catalog in Msun",
                          atol=2e-6 if case["f4"] else 1e-12)
                return
            got = pubs.load_tng_data(data_drn=drn)
            want_ids, want_t, want_min, want = np.arange(n), t, 10.0, runmax(h["mpeakh"])
        else:
            with np.errstate(over="ignore"):
                m = np.where(lg == 0, 0.0, 10.0**lg)
            h = np.zeros(n, dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", f, (nt,))])
            h["halo_id"], h["mpeak_history_main_prog"] = ids, m
            np.save(os.path.join(drn, f"{which}_diffmah_{case['gal_type']}.npy"), h)
            other = h[::-1].copy()
            other["mpeak_history_main_prog"] *= 2
            for g in ("cens", "sats", "orphans"):
                if g != case["gal_type"]:
                    np.save(os.path.join(drn, f"{which}_diffmah_{g}.npy"), other)
            if which == "bpl":
                np.save(os.path.join(drn, "bpl_cosmic_time.npy"), t)
                got = pubs.load_bolshoi_data(case["gal_type"], data_drn=drn)
                want_min = 10.0
            else:
                np.savetxt(os.path.join(drn, "mdpl2_cosmic_time.txt"), t, fmt="%.18e")
                got = pubs.load_mdpl2_data(case["gal_type"], data_drn=drn)
                want_min = 11.25
            want_ids, want_t = ids, t
            mm = runmax(h["mpeak_history_main_prog"])
            with np.errstate(divide="ignore"):
                want = np.where(mm == 0, 0.0, np.log10(mm.astype("f8")))
    require(len(got) == 4, "wrong number of results")
    require(np.array_equal(got[0], want_ids), "halo ids changed")
    require(np.asarray(got[0]).dtype == np.int64, "halo ids are not 64-bit")
    close(got[1], want, "log-history is not the running maximum of the catalog", rtol=tol)
    close(got[2], want_t, "times of the catalog changed", rtol=1e-12)
    require(got[3] == want_min, "wrong smallest mass of the fit", got=got[3])


# ------------------------------------------------------------------ Galacticus


def strat_gal():
    return st.fixed_dictionaries(dict(
        strat_cat(), istart=st.one_of(st.none(), st.integers(0, 11)),
        iend=st.one_of(st.none(), st.integers(0, 14))))


def check_gal(case, rec):
    import h5py

    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    lens = rng.integers(2, case["nt"] + 1, n)
    m = [10 ** np.sort(rng.uniform(8, 14, k)) for k in lens]
    t = [np.sort(rng.uniform(0.3, 13.8, k)) for k in lens]
    iso = rng.integers(0, 2, n)
    last = rng.uniform(1, 13, n)
    rec.count(n)
    with tempfile.TemporaryDirectory() as drn:
        fn = os.path.join(drn, "g.h5")
        with h5py.File(fn, "w") as hdf:
            node = hdf.create_group("Outputs/Output1/nodeData")
            dt = h5py.vlen_dtype(np.dtype("f8"))
            for k, v in (("haloAccretionHistoryMass", m), ("haloAccretionHistoryTime", t)):
                ds = node.create_dataset(k, (n,), dtype=dt)
                for i in range(n):
                    ds[i] = v[i]
            node["nodeIsIsolated"] = iso
            node["basicTimeLastIsolated"] = last
        require(gal.get_nhalos_tot(fn) == n, "wrong number of halos")
        kw = {k: case[k] for k in ("istart", "iend") if case[k] is not None}
        got = gal.extract_galacticus_mah_tables(fn, **kw)
    rows = np.arange(n)[kw.get("istart", 0):kw.get("iend", n)]
    rec.nontrivial(0 < rows.size < n)
    require(len(got) == 4 and all(len(x) == rows.size for x in got), "wrong number of halos",
            got=[len(x) for x in got], want=rows.size)
    for j, i in enumerate(rows):
        require(np.array_equal(got[0][j], m[i]), "mass history of another halo")
        require(np.array_equal(got[1][j], t[i]), "times of another halo")
    require(np.array_equal(got[2], iso[rows]), "central flag of another halo")
    require(np.array_equal(got[3], last[rows]), "infall time of another halo")


# ------------------------------------------------------------------ HACC


def strat_hacc():
    return st.fixed_dictionaries(dict(
        strat_cat(), om=gen.uniform(0.15, 0.45), h=gen.uniform(0.55, 0.8),
        w0=gen.uniform(-1.3, -0.7), wa=gen.uniform(-0.3, 0.3), nchunks=st.integers(1, 4),
        chunk=st.integers(0, 3), registered=st.booleans(), colname=st.booleans()))


def hacc_sim(case):
    mods()
    lg, t, empty, rng = catalog(case, 10.5, 15)
    n, nt = lg.shape
    cosmo = stubs.HaccCosmo(case["om"], case["w0"], case["wa"], case["h"])
    steps = np.sort(rng.choice(np.arange(20, 500), nt, replace=False)).tolist()
    z = np.sort(rng.uniform(0, 10, nt))[::-1]
    z[-1] = 0.0
    sim = stubs.HaccSim(steps, z, cosmo)
    m = np.where(lg == 0, 0.0, 10.0**lg)
    name = "sim_x"
    stubs.HaccSim.simulations, stubs.CONFIGS = {}, stubs.CONFIGS
    stubs.CONFIGS.clear()
    if case["registered"]:
        stubs.HaccSim.simulations[name] = sim
    else:
        stubs.CONFIGS[name] = sim
    col = "other_mass" if case["colname"] else "infall_tree_node_mass"
    cols = {"infall_tree_node_mass": m * 3, "other_mass": m * 5}
    cols[col] = m
    stubs.CORES.clear()
    stubs.CORES["/data/core.hdf5"] = cols
    stubs.HACC_CALLS.clear()
    return sim, name, m, z, cosmo, col


def check_hacc(case, rec):
    sim, name, m, z, cosmo, col = hacc_sim(case)
    chunk = case["chunk"] % case["nchunks"]
    kw = dict(mass_colname=col) if case["colname"] else {}
    tarr, mahs = hacc.load_mahs("/data/core.hdf5", name, chunk, case["nchunks"], **kw)
    rows = np.array_split(np.arange(len(m)), case["nchunks"])[chunk]
    rec.count(len(rows))
    rec.nontrivial(case["nchunks"] > 1 or (np.diff(m, axis=1) < 0).any())
    call = stubs.HACC_CALLS[-1]
    require(call["chunknum"] == chunk and call["nchunks"] == case["nchunks"]
            and call["simulation"] is sim, "reader was asked for another part of the catalog")
    want_t = stubs.age_at_z(z, *cosmo)
    close(tarr, want_t, "cosmic times do not belong to the snapshots", rtol=1e-6)
    require(np.asarray(mahs).shape == (len(rows), m.shape[1]), "wrong number of histories")
    close(mahs, runmax(m)[rows] / cosmo.h, "history is not the peak mass of the catalog in Msun",
          rtol=1e-6)
    close(stubs.CORES["/data/core.hdf5"][col], m, "catalog was modified")
    if case["registered"]:
        z2, t2 = hacc.get_cosmic_time_hacc(name)
        close(z2, z, "redshifts do not belong to the snapshots", rtol=1e-12)
        close(t2, want_t, "cosmic times do not belong to the snapshots", rtol=1e-6)


# ------------------------------------------------------------------ Bolshoi-Planck


def strat_bpl():
    return st.fixed_dictionaries(dict(
        strat_cat(), subvols=st.lists(st.integers(0, 20), min_size=1, max_size=4, unique=True)))


def check_bpl(case, rec):
    mods()
    lg, t, empty, rng = catalog(case)
    n, nt = lg.shape
    m = np.where(lg == 0, 0.0, 10.0**lg)
    ids = rng.integers(0, 2**62, n)
    scale = np.sort(rng.uniform(0.06, 1.0, nt))
    scale[-1] = rng.choice([1.0, 1.00230])
    sub = case["subvols"]
    part = rng.integers(0, len(sub), n)
    with tempfile.TemporaryDirectory() as drn:
        np.savetxt(os.path.join(drn, "scale_list_bpl.dat"), scale, fmt="%.18e")
        stubs.UM_TABLES.clear()
        stubs.UM_CALLS.clear()
        for i, s in enumerate(sub):
            stubs.UM_TABLES[(drn, s)] = {"halo_id": ids[part == i],
                                         "mpeak_history_main_prog": m[part == i]}
        got = bpl.load_bpl_mah_data(drn, sub)
    rec.count(n)
    rec.nontrivial((np.diff(m, axis=1) < 0).any() or (m == 0).any())
    order = np.argsort(part, kind="stable")
    require(len(got) == 5, "wrong number of results")
    require(np.array_equal(got[0], ids[order]), "halo ids changed")
    # empty snapshots are represented by 1 Msun
    close(got[1], np.maximum(runmax(m)[order], 1.0), "history is not the peak mass of the catalog",
          rtol=1e-12)
    want_t = stubs.age_at_z(1 / scale - 1, 0.307, -1.0, 0.0, 0.678)
    close(got[2], want_t, "cosmic times do not belong to the snapshots", rtol=1e-6)
    close(got[4], np.log10(want_t[-1]), "wrong age at the last snapshot", rtol=1e-6)
    require(got[3] == 10.0, "wrong smallest mass of the fit", got=got[3])


SUBS = [
    Sub("npy", strat_npy, check_npy, quick=900, thorough=6000,
        cover=[{"which": w} for w in ("tng", "pub_tng", "bpl", "mdpl2")]),
    Sub("galacticus", strat_gal, check_gal, quick=450, thorough=3000),
    Sub("hacc", strat_hacc, check_hacc, quick=600, thorough=4000),
    Sub("bolshoi", strat_bpl, check_bpl, quick=600, thorough=4000),
]
