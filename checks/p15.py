"""Each parameter of the population model moves its own ingredient and no other."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, popmodel, popref, pops
from pbt.core import Sub, all_finite, require

RULE = (
    "A case is a baseline of the complete model and a set of 12 of its parameters, each moved on its "
    "own by a random amount inside its bounds; 40 centrals and 40 satellites with random masses and times and "
    "fixed random keys are regenerated after each move. Non-trivial: every case; labels count the "
    "moves per ingredient."
)

N = 40
QUANT = ["logm0", "logtc", "early_index", "late_index"]
PART_NAME = {
    "t_peak_kernels.tp_pdf_cens_flex": "tp_cen", "t_peak_kernels.tp_pdf_sats": "tp_sat",
    "bimod_logm0_kernels.logm0_pop_bimod": "m0_cen",
    "bimod_logm0_sats.logm0_pop_bimod_sats": "m0_sat", "logtc_bimod": "logtc",
    "early_index_bimod": "early_index", "late_index_bimod": "late_index",
    "frac_early_cens": "fec", "covariance_kernels": "cov",
}


def kind_of(name, part):
    """early- or late-type halos, from the documented names"""
    if part in ("early_index", "late_index"):
        return "early" if name.endswith("_alpha") else "late"
    base = name[:-5] if name.endswith("_sats") else name
    return "early" if base.endswith("_early") else "late"


def owners():
    out = {}
    for n, (lo, hi, path) in popmodel.full_bounds().items():
        out[n] = PART_NAME[path]
    return out


def rules(name, part):
    """(outputs that may move, outputs that must move somewhere)

    An output is (population, type, quantity); the early and the late index of one halo
    share a bound, so either may follow the other.
    """
    pop = dict(tp_cen=["cen"], tp_sat=["sat"], m0_cen=["cen"], m0_sat=["sat"]).get(
        part, ["cen", "sat"])
    if part in ("tp_cen", "tp_sat"):
        t = {(pop[0], k, "t_peak") for k in ("early", "late")}
        return t, t
    if part == "fec":
        t = {(p, "", "frac_early") for p in pop}
        return t, t
    if part == "cov":
        may = {(p, k, q) for p in pop for k in ("early", "late") for q in QUANT}
        if name.startswith("rho_"):
            # a correlation acts on the scatter of the pair; how the draws of the four
            # parameters are combined is not prescribed
            return may, set()
        short = name.split("_")[2] if name.startswith("std_u_") else name.split("_")[-1]
        q = {"logm0": "logm0", "logtc": "logtc", "early": "early_index",
             "late": "late_index"}[short]
        return may, {(p, k, q) for p in pop for k in ("early", "late")}
    kind = kind_of(name, part)
    q = {"m0_cen": "logm0", "m0_sat": "logm0"}.get(part, part)
    must = {(p, kind, q) for p in pop}
    may = set(must)
    if q in ("early_index", "late_index"):
        may |= {(p, kind, x) for p in pop for x in ("early_index", "late_index")}
    return may, must


def active(name, part, old, new, lgm, t_obs, t_peak):
    """Does the reference model depend on this parameter at these points?

    (A clip or two equal ends of a sigmoid can make a parameter inert in part of the domain.)
    """
    if name.startswith("rho_"):
        return False

    def ref(p):
        p = popref.pmap(p)
        if part == "tp_cen":
            x0 = popref.cen_x0(p, lgm, t_obs)
            return np.where(x0 < 1.1, x0, 1.1)  # mostly peaked before z=0
        if part == "tp_sat":
            return np.concatenate(popref.sat_loc_scale(p, lgm, t_obs))
        if part == "fec":
            return popref.frac_early(p, lgm, t_obs)
        if part == "cov":
            return np.log(np.concatenate(popref.stds(p, lgm)))
        return np.concatenate([
            popref.mean_params(p, kind, sat, lgm, t_obs, t_peak)[q]
            for kind in ("early", "late") for sat in (False, True) for q in QUANT])

    return float(np.max(np.abs(ref(new) - ref(old)))) > 1e-5


def predictions(params, lgm, t_obs, t_peak, seed):
    """outputs with t_peak supplied (so that it decouples) and the drawn t_peak"""
    out = {}
    for pop, sat in (("cen", False), ("sat", True)):
        f = pops.params_pop(sat)
        h = f(params, lgm, t_obs, pops.key(seed), pops.LGT0, t_peak)
        g = f(params, lgm, t_obs, pops.key(seed), pops.LGT0)
        out[pop, "", "frac_early"] = np.asarray(h.frac_early_cens)
        for kind in ("early", "late"):
            q = getattr(h, "mah_params_" + kind)
            for n in QUANT:
                out[pop, kind, n] = np.asarray(getattr(q, n))
            out[pop, kind, "t_peak"] = np.asarray(getattr(g, "mah_params_" + kind).t_peak)
        out[pop, "free", "frac_early"] = np.asarray(g.frac_early_cens)
    return out


def strat():
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), spread=st.sampled_from([0.3, 0.6, 0.9]), start=st.integers(0, 255),
        key=gen.seed()))


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    bounds = popmodel.full_bounds()
    base = pops.make_params(dict(seed=case["seed"], spread=case["spread"], edge=0.0,
                                 scatter="moderate"))
    names = list(base._fields)
    lgm = rng.uniform(10.5, 15.5, N)
    t_obs = rng.uniform(1.0, 13.8, N)
    t_peak = np.where(rng.random(N) < 0.5, t_obs * rng.uniform(0.3, 1, N),
                      rng.uniform(0.5, 13.8, N))
    ref = predictions(base, lgm, t_obs, t_peak, case["key"])
    for v in ref.values():
        all_finite(v, "prediction is not finite")
    owner = owners()
    step = len(names) // 12
    for j in range(12):
        n = names[(case["start"] + j * step) % len(names)]
        lo, hi = bounds[n][:2]
        v = getattr(base, n)
        target = lo + (hi - lo) * (rng.uniform(0.02, 0.3) if v > 0.5 * (lo + hi)
                                   else rng.uniform(0.7, 0.98))
        if n.startswith("std_u_"):
            target = v * rng.choice([0.4, 2.0])
        pnew = base._replace(**{n: float(target)})
        new = predictions(pnew, lgm, t_obs, t_peak, case["key"])
        may, must = rules(n, owner[n])
        if not active(n, owner[n], base, pnew, lgm, t_obs, t_peak):
            rec.label("inert here: " + n, bool(must))
            must = set()
        may = may | {(p, "free", "frac_early") for p, _, q in may if q == "frac_early"}
        rec.label(owner[n])
        rec.count(len(ref))
        for k in ref:
            moved = float(np.max(np.abs(new[k] - ref[k])))
            if k in must:
                require(moved > 1e-10, "parameter has no effect on its own ingredient", name=n,
                        output="/".join(k))
            elif k not in may:
                require(moved <= 1e-12 * max(1.0, float(np.abs(ref[k]).max())),
                        "parameter leaks into another ingredient", name=n,
                        output="/".join(k), moved=moved)
    rec.nontrivial()


SUBS = [
    Sub("dependencies", strat, check, quick=200, thorough=4000, shards=4, thorough_shards=8,
        x64=True, cover=[{"start": i} for i in range(24)]),
]
