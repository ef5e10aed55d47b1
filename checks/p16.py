"""Generated halo populations are finite, physical and complete."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, pops
from pbt.core import Sub, all_finite, require
from pbt.lazy import x64
from pbt.ref import BOUNDS, PNAMES

RULE = (
    "A case is a complete set of model parameters (default, mixed, anywhere inside the bounds, at the "
    "bounds), halo masses 10^10-10^16 and observation times 0.5 Gyr to z=0 given per halo, a random key, "
    "a z=0 age, a time table, and one of the generators for centrals or satellites. "
    "Non-trivial: parameters away from their defaults."
)

NT = 15
SIZES = [1, 24]


FORMS = ["history", "params", "supplied", "single", "sample"]


def strat(sat):
    return lambda: st.fixed_dictionaries(dict(
        params=pops.params_case(), key=gen.seed(), size=st.sampled_from(SIZES),
        sat=st.just(sat), seed=gen.seed(), t0=gen.uniform(12.0, 15.0),
        mass=st.sampled_from(["mixed", "mixed", "lowest", "highest"]),
        time=st.sampled_from(["mixed", "mixed", "first", "last"]),
        form=st.sampled_from(FORMS)))


def physical(mah, n, what, sat):
    for k in PNAMES:
        lo, hi = BOUNDS[k]
        x = np.asarray(getattr(mah, k), "f8")
        require(x.shape == n, f"{what}: wrong number of halos", name=k, shape=x.shape)
        all_finite(x, f"{what}: halo parameter is not finite", name=k)
        # a saturated transform may land on the bound to within rounding
        slack = 2e-6 * (hi - lo)
        require((x >= lo - slack).all() and (x <= hi + slack).all(),
                f"{what}: halo parameter is outside its bounds", name=k, min=x.min(),
                max=x.max())
    e, la = np.asarray(mah.early_index, "f8"), np.asarray(mah.late_index, "f8")
    require((la <= e + 3e-6).all(), f"{what}: late index above early index",
            worst=float((la - e).max()))


def histories(dmhdt, log_mah, shape, what):
    for x, n in ((dmhdt, "rate"), (log_mah, "mass")):
        x = np.asarray(x, "f8")
        require(x.shape == shape, f"{what}: wrong shape of the histories", of=n, got=x.shape)
        all_finite(x, f"{what}: history is not finite", of=n)
    require((np.asarray(dmhdt) >= 0).all(), f"{what}: negative accretion rate",
            worst=float(np.min(dmhdt)))
    d = np.diff(np.asarray(log_mah, "f8"), axis=-1)
    require((d >= -(1e-11 if x64() else 4e-6)).all(), f"{what}: mass decreases with time",
            worst=float(d.min()))


def fractions(f, shape, what):
    f = np.asarray(f, "f8")
    require(f.shape == shape, f"{what}: wrong number of early fractions", got=f.shape)
    require(np.isfinite(f).all() and (f >= 0).all() and (f <= 1).all(),
            f"{what}: early fraction outside [0,1]")


def check(case, rec):
    p = pops.make_params(case["params"])
    rng = np.random.default_rng(case["seed"])
    n = case["size"] if case["form"] == "history" else SIZES[1]  # every size is a compilation
    lgm = dict(mixed=rng.uniform(10, 16, n), lowest=np.full(n, 10.0),
               highest=np.full(n, 16.0))[case["mass"]]
    t_obs = dict(mixed=rng.uniform(0.5, case["t0"], n), first=np.full(n, 0.5),
                 last=np.full(n, case["t0"]))[case["time"]]
    lgt0 = np.log10(case["t0"])
    tarr = np.geomspace(0.2, case["t0"] * rng.choice([1.0, rng.uniform(0.1, 1.0)]), NT)
    sat, key = case["sat"], pops.key(case["key"])
    m = pops.mod(sat)
    what = ("satellites" if sat else "centrals") + "/" + case["form"]
    rec.label(what)
    rec.nontrivial(case["params"]["spread"] > 0)
    rec.count(n)
    if case["form"] == "history":
        h = pops.history_pop(sat)(p, tarr, lgm, t_obs, key, lgt0)
        physical(h.mah_params, (n,), what, sat)
        histories(h.dmhdt, h.log_mah, (n, NT), what)
        t_peak = np.asarray(h.mah_params.t_peak)
    elif case["form"] in ("params", "supplied"):
        tp = None
        if case["form"] == "supplied":
            tp = rng.uniform(0.1, 1.0, n) * t_obs
            tp = np.maximum(tp, 0.1)
        h = pops.params_pop(sat)(p, lgm, t_obs, key, lgt0, tp)
        for q, w in ((h.mah_params, "all"), (h.mah_params_early, "early"),
                     (h.mah_params_late, "late")):
            physical(q, (n,), what + "/" + w, sat)
        fractions(h.frac_early_cens, (n,), what)
        e = np.asarray(h.mc_early)
        require(e.shape == (n,) and np.isin(e, [0, 1]).all(), f"{what}: wrong type flag")
        t_peak = np.asarray(h.mah_params.t_peak)
    elif case["form"] == "single":
        f = m.mc_diffmah_params_singlesat if sat else m.mc_diffmah_params_singlecen
        e, la, fr = f(p, lgm[0], t_obs[0], key, lgt0)
        physical(e, (), what + "/early", sat)
        physical(la, (), what + "/late", sat)
        fractions(fr, (), what)
        t_peak = np.asarray([e.t_peak])
        t_obs = t_obs[:1]
    else:
        ns = 30
        r = pops.sample(sat)(p, tarr, lgm[0], t_obs[0], key, lgt0, n_mc=ns)
        require(len(r) == 7, "sample is incomplete")
        physical(r[0], (ns,), what + "/early", sat)
        histories(r[1], r[2], (ns, NT), what + "/early")
        physical(r[3], (ns,), what + "/late", sat)
        histories(r[4], r[5], (ns, NT), what + "/late")
        fractions(r[6], (ns,), what)
        mom = pops.moments(sat)(p, tarr, lgm[0], t_obs[0], key, lgt0)
        for x in mom:
            require(np.shape(x) == (NT,), f"{what}: wrong shape of the averages")
            all_finite(x, f"{what}: average is not finite")
        t_peak = np.asarray(r[0].t_peak)
        t_obs = np.full(ns, t_obs[0])
    # a satellite peaks before it is observed, a central before z=0
    if case["form"] != "supplied":
        limit = t_obs if sat else np.full_like(t_obs, case["t0"])
        require((t_peak <= limit * (1 + 1e-4) + 1e-4).all() and (t_peak > 0.04 * limit).all(),
                f"{what}: t_peak outside its range", t_peak=t_peak, limit=limit)


SUBS = [
    Sub(name + suffix, strat(sat), check, quick=240, thorough=6000, shards=2, thorough_shards=4,
        x64=bool(suffix), cover=[{"form": f} for f in FORMS])
    for suffix in ("", "_x64") for name, sat in (("centrals", False), ("satellites", True))
]
