"""Tabulation of population targets: halo fits -> samples per bin -> means and scatters."""

import os
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks import p12
from pbt import env, gen, jobs, ref, stubs
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

RULE = (
    "A case is 1-3 sub-volumes of 20-200 halo fits (some without a fit), central/satellite flags "
    "that change with time, and numbers of mass and time bins, tabulated by the command-line "
    "script; or a directory of binned samples reduced to means and scatters and loaded again. "
    "Non-trivial: both centrals and satellites fill some bin, or some bin is too small to be kept."
)
ASSUMPTIONS = [
    "umachine_pyio is not installed: a stand-in serves the generated catalogs",
    "shell commands of the scripts are expanded by a real shell without programs, and the deletions "
    "they ask for are carried out by a stand-in confined to a scratch directory",
]

FOLDER = os.path.join(env.REPO, "scripts", "diffmahpop_tabulation")
T0 = 13.7976158
CAP = 20_000 // 576  # halos kept per sub-volume and bin
loader = Lazy("diffmah.diffmahpop_kernels.load_diffmahpop_fitdata")


def utils():
    import importlib

    p12.mods()
    if FOLDER not in sys.path:
        sys.path.append(FOLDER)
    return importlib.import_module("smdpl_diffmahpop_utils")


def halos(rng, n, crowd=None):
    m0 = np.where(rng.random(n) < 0.7, rng.uniform(10.9, 15.0, n), rng.choice([11.1, 13.0], n))
    if crowd is not None:  # most of the halos are in one bin of mass
        m0 = np.where(rng.random(n) < 0.8, crowd + rng.uniform(-0.2, 0.2, n), m0)
    early = rng.uniform(0.8, 5.0, n)
    return dict(logm0=m0, logtc=rng.uniform(-0.5, 0.9, n), early_index=early,
                late_index=rng.uniform(0.11, 0.7, n), t_peak=rng.uniform(2.0, 16.0, n))


def log_mah(p, t):
    return ref.log_mah({k: v.reshape(-1, 1) for k, v in p.items()}, np.atleast_1d(t), np.log10(T0))


def bins(nm, nt):
    return [(m, t) for t in np.linspace(2.0, T0, nt)
            for m in np.linspace(11.0, 15 + 0.075 * (t - 15.0), nm)]


# ------------------------------------------------------------------ sampling


def strat():
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), nsub=st.integers(1, 3), istart=st.sampled_from([0, 3, 9]),
        n=st.integers(20, 200), crowd=st.booleans(), nm=st.integers(2, 4), nt=st.integers(2, 4),
        between=st.booleans(), same=st.booleans(),
        out=st.sampled_from(["out", "out", "my fits", "it's", "fits[2]", "a&b"]), bad=st.sampled_from([0.0, 0.2]), fsat=st.sampled_from([0.0, 0.3, 1.0])))


def tree(path):
    return [os.path.join(d, x) for d, dirs, files in os.walk(path) for x in dirs + files]


def check(case, rec):
    import h5py

    p12.mods()
    rng = np.random.default_rng(case["seed"])
    if case["between"]:  # observation times lie between snapshots
        times = np.append(np.sort(rng.uniform(0.3, T0 - 0.1, int(rng.integers(4, 25)))), T0)
    else:
        times = np.unique(np.concatenate([np.linspace(0.3, T0, 25),
                                          np.linspace(2.0, T0, case["nt"])]))
    todo = range(case["istart"], case["istart"] + case["nsub"])
    grid = bins(case["nm"], case["nt"])
    cats = {}
    for s in [*todo, todo[-1] + 1]:  # the last one is not asked for
        p = halos(rng, case["n"], grid[-1 - rng.integers(case["nm"])][0] if case["crowd"] else None)
        x = np.concatenate([np.abs(log_mah(p, t)[:, 0] - m)[None] for m, t in grid])
        keep = (np.abs(x - 0.15) > 1e-3).all(axis=0)  # not at the very edge of a bin
        p = {k: v[keep] for k, v in p.items()}
        n = int(keep.sum())
        loss = rng.uniform(1e-5, 1e-2, n)
        fit = rng.random(n) >= case["bad"]
        upid = np.where(rng.random((n, len(times))) < case["fsat"],
                        rng.integers(0, 2**60, (n, len(times))) * (rng.random((n, 1)) < 0.8), -1)
        cols = dict({k: np.where(fit, v, -99.0) for k, v in p.items()},
                    loss=np.where(fit, loss, -99.0), fit_algo=np.where(fit, 0, -99),
                    n_points_per_fit=np.full(n, 50))
        cats[s] = dict(p=p, fit=fit, upid=upid, cols=cols, n=n)
    rec.count(sum(cats[s]["n"] for s in todo))
    with tempfile.TemporaryDirectory(prefix="pbt_job_") as tmp:
        tmp = os.path.realpath(tmp)
        fits, sfh, out = (os.path.join(tmp, x) for x in ("fits", "sfh", case["out"]))
        if case["same"]:  # samples are written next to the fits
            fits = out
        for d in {fits, sfh, out}:
            os.mkdir(d)
        np.savetxt(os.path.join(sfh, "smdpl_cosmic_time.txt"), times, fmt="%.18e")
        stubs.UM_TABLES.clear()
        for s, c in cats.items():
            stubs.UM_TABLES[(sfh, s)] = dict(halo_id=np.arange(c["n"]), upid_history=c["upid"])
            with h5py.File(os.path.join(fits, f"subvol_{s:03d}_diffmah_fits.h5"), "w") as hdf:
                for k, v in c["cols"].items():
                    hdf[k] = v
        for d in (tmp, out):
            for x in ("notes.txt", "my", "a", "fits2"):
                with open(os.path.join(d, x), "w") as f:
                    f.write("keep me\n")
        had = tree(tmp)
        jobs.run_script("measure_smdpl_diffmahpop.py", [
            out, "-istart", todo[0], "-iend", todo[-1] + 1, "-diffmah_drn", fits, "-sfhcat_drn",
            sfh, "-n_m", case["nm"], "-n_t", case["nt"]], 1, tmp, folder=FOLDER)
        final = f"NM_{case['nm']}_NT_{case['nt']}_ISTART_{todo[0]}_IEND_{todo[-1] + 1}"
        drn = os.path.join(out, final)
        have = tree(tmp)
        lost = sorted(set(had) - set(have))
        require(not lost, "other files were deleted", files=lost[:5])
        made = sorted(x for x in set(have) - set(had) if not x.startswith(drn))
        require(not made, "temporary files left behind", got=made[:5])
        got = {x: np.load(os.path.join(drn, x)) for x in os.listdir(drn)}
    both = set()
    for m, t in grid:
        it = int(np.argmin(np.abs(times - t)))
        for word, cen in (("cens", True), ("sats", False)):
            parts = []
            for s in todo:
                c = cats[s]
                lg = log_mah(c["p"], t)[:, 0]
                sel = c["fit"] & (np.abs(lg - m) < 0.15) & ((c["upid"][:, it] == -1) == cen)
                rows = np.array([c["p"][k][sel] for k in ref.PNAMES]).T[:CAP]
                if len(rows):
                    parts.append(rows)
                rec.label("sub-volume with more halos than are kept", sel.sum() > CAP)
            name = closest(got, m, t, word)
            if not parts:
                require(name is None, "sample of an empty bin", name=name)
                continue
            both.add((m, t, word))
            require(name, "no sample for a bin with halos", lgm=m, t=t, have=sorted(got))
            g, w = got.pop(name), np.concatenate(parts)
            require(g.shape == w.shape, f"number of {word} sampled in a bin", name=name,
                    got=str(g.shape), want=str(w.shape))
            # sub-volumes are collated in any order
            g, w = g[np.lexsort(np.round(g.T, 3))], w[np.lexsort(np.round(w.T, 3))]
            near(g, w, f"{word} sampled in a bin are not the halos of that bin")
    rec.nontrivial(any((m, t, "cens") in both and (m, t, "sats") in both for m, t in grid))
    require(not got, "samples of bins that do not exist", names=sorted(got))


def closest(names, m, t, word):
    """The file of a bin; masses and times are rounded to two digits in single precision"""
    for x in names:
        w = x.split("_")
        if x.endswith(f"params.{word}.npy") and abs(float(w[1]) - m) < 0.00501 \
                and abs(float(w[3]) - t) < 0.00501:
            return x
    return None


def near(g, w, msg):
    """Same rows up to the printed precision, whatever their order"""
    left = list(range(len(w)))
    for row in g:
        d = np.abs(w[left] - row).max(axis=1)
        i = int(np.argmin(d))
        require(d[i] < 6e-5, msg, row=row, closest=w[left[i]])
        left.pop(i)


# ------------------------------------------------------------------ moments


def strat_mom():
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), nm=st.integers(1, 3), nt=st.integers(1, 3), nmin=st.integers(3, 60),
        out=st.sampled_from(["t", "t", "my fits", "fits[2]"]),
        script=st.booleans(), rescale=st.booleans(), n_t=st.integers(3, 8), load=st.booleans()))


def check_mom(case, rec):
    import h5py

    u = utils()
    rng = np.random.default_rng(case["seed"])
    full = case["script"]  # write_mean_variance_to_disk uses the default settings
    nmin, n_t = (100, 25) if full else (case["nmin"], case["n_t"])
    data = {}
    with tempfile.TemporaryDirectory(prefix="pbt_job_") as tmp:
        drn = os.path.join(tmp, case["out"])
        os.mkdir(drn)
        for word in ("cens", "sats"):
            for m, t in bins(case["nm"] + 1, case["nt"] + 1):
                if rng.random() < 0.3 and data:
                    continue
                n = int(rng.choice([nmin - 1, nmin, nmin + 1, nmin + 40, 2]))
                p = halos(rng, n)
                p["logm0"] = m + rng.uniform(-0.3, 0.5, n)
                name = (f"{m:.2f}", f"{t:.2f}", word)
                np.save(os.path.join(drn, "lgm_{}_t_{}_mah_params.{}".format(*name)),
                        np.array([p[k] for k in ref.PNAMES]).T)
                data[name] = p
        if full:
            fns = {w: os.path.join(drn, f"mean_var_{w}.h5") for w in ("cens", "sats")}
            u.write_mean_variance_to_disk(drn, fns["cens"], fns["sats"])
            got = {}
            for w, fn in fns.items():
                with h5py.File(fn, "r") as hdf:
                    got[w] = {k: hdf[k][...] for k in hdf}
            if case["load"] and all(len(g["t_obs"]) for g in got.values()):
                tables = loader.load_diffmahpop_targets(
                    drn=drn, t_obs_min_cen=0, t_obs_min_sat=0, lgm_obs_max_cen=99,
                    lgm_obs_max_sat=99, n_sample_min=101)
                for tab, w in zip(tables, ("cens", "sats")):
                    require(len(tab) == len(got[w]["t_obs"]), "bins lost when loading the targets")
                    for r in tab:
                        p = data[(f"{r['lgm_obs']:.2f}", f"{r['t_obs']:.2f}", w)]
                        require(r["n_samples"] == len(p["logm0"]), "number of samples of a bin")
                        require(np.isin(r["logm0_samples"], p["logm0"]).all(),
                                "samples of another bin")
        else:
            c, s = u.tabulate_target_means_vars(drn, nh_min=nmin, n_t_target=n_t,
                                                rescale=case["rescale"])
            got = dict(cens=c, sats=s)
    rescale = True if full else case["rescale"]
    for word in ("cens", "sats"):
        g = got[word]
        want = {k: p for k, p in data.items() if k[2] == word and len(p["logm0"]) > nmin}
        rec.nontrivial(0 < len(want) < len(data))
        names = [(f"{a:.2f}", f"{b:.2f}", word) for a, b in zip(g["lgm_obs"], g["t_obs"])]
        require(sorted(names) == sorted(want), f"bins of the {word} targets", got=names,
                want=sorted(want))
        for i, name in enumerate(names):
            p, m, t = want[name], float(name[0]), float(name[1])
            tt = np.linspace(0.5, t, n_t)
            lg = log_mah(p, tt)
            if rescale:
                lg = lg + (m - lg[:, -1:])
            rec.count(n_t)
            close(g["t_table"][i], tt, f"{word}: times of a target", rtol=1e-5)
            close(g["mean_log_mah"][i], lg.mean(axis=0), f"{word}: mean of a target", atol=1e-4)
            close(g["std_log_mah"][i], lg.std(axis=0), f"{word}: scatter of a target", atol=2e-4)
            gap = np.abs(p["t_peak"].reshape(-1, 1) - tt).min(axis=0)
            fp = (p["t_peak"].reshape(-1, 1) < tt).mean(axis=0)
            ok = gap > 1e-5
            close(np.asarray(g["frac_peaked"][i])[ok], fp[ok], f"{word}: fraction of peaked halos",
                  atol=1e-6)


SUBS = [
    Sub("samples", strat, check, quick=120, thorough=1500, shards=2),
    Sub("moments", strat_mom, check_mom, quick=120, thorough=1500, shards=2),
]
