"""Ingredients of the population model against float64 references of their functional form."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, popmodel, popref
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import x64

RULE = (
    "A case is one ingredient with parameters drawn inside their bounds (some at a bound) and 40 "
    "points of halo mass 10^9-10^16.5, observation time 0.3-14 Gyr and t_peak 0.3-14 Gyr. "
    "Non-trivial: the prediction is not constant over the points; distinct by ingredient and draw."
)
ASSUMPTIONS = ["the slopes (k) and pivots of the sigmoids that are not parameters are the ones "
               "the repository documents as module constants at the pinned commit"]

N = 40
PK = popmodel.PK


def _m0(kind, sat, pop=False):
    def f(p, m, t, tp):
        return popref.logm0(p, kind, sat, m, t, tp)
    return f


# component -> list of (function name, reference, arguments it takes)
FORMS = {}
for _g, _sat, _bi in (("bimod_logm0_kernels.", False, "logm0_pop_bimod"),
                      ("bimod_logm0_sats.", True, "logm0_pop_bimod_sats")):
    for _k in ("early", "late"):
        FORMS[_g + "logm0_c0_" + _k] = [("_pred_c0_kern", lambda p, m, t, tp, k=_k, s=_sat:
                                         popref.c0(p, k, s, t, tp), "tp")]
        FORMS[_g + "logm0_c1_" + _k] = [("_pred_c1_kern", lambda p, m, t, tp, k=_k, s=_sat:
                                         popref.c1(p, k, s, t, tp), "tp")]
        FORMS[_g + "logm0_pop_" + _k] = [("_pred_logm0_kern", _m0(_k, _sat), "mtp")]
    FORMS[_g + _bi] = [("_pred_logm0_kern_early", _m0("early", _sat), "mtp"),
                       ("_pred_logm0_kern_late", _m0("late", _sat), "mtp")]
for _n, _k in (("alpha", "early"), ("beta", "late"), ("pop", "pop")):
    FORMS["early_index_" + _n] = [("_pred_early_index_kern", lambda p, m, t, tp, k=_k:
                                   popref.early_index(p, k, m, t, tp), "mtp")]
    if _n != "pop":
        FORMS["late_index_" + _n] = [("_pred_late_index_kern", lambda p, m, t, tp, k=_k:
                                      popref.late_index(p, k, m), "m")]
FORMS["early_index_bimod"] = [
    ("_pred_early_index_" + k, lambda p, m, t, tp, k=k: popref.early_index(p, k, m, t, tp), "mtp")
    for k in ("early", "late")]
FORMS["late_index_bimod"] = [
    ("_pred_late_index_" + k, lambda p, m, t, tp, k=k: popref.late_index(p, k, m), "m")
    for k in ("early", "late")]
for _k in ("early", "late"):
    FORMS["logtc_" + _k] = [("_pred_logtc_kern", lambda p, m, t, tp, k=_k:
                             popref.logtc(p, k, m, t, tp), "mtp")]
FORMS["frac_early_cens"] = [("_frac_early_cens_kern", lambda p, m, t, tp:
                             popref.frac_early(p, m, t), "mt")]
FORMS["ftpt0_cens"] = [("_ftpt0_kernel", lambda p, m, t, tp: popref.ftpt0(p, m, t), "mt")]
FORMS["t_peak_kernels.tp_pdf_sats"] = [
    ("_get_utp_loc", lambda p, m, t, tp: popref.sat_loc_scale(p, m, t)[0], "mt"),
    ("_get_utp_scale", lambda p, m, t, tp: popref.sat_loc_scale(p, m, t)[1], "mt")]


def strat():
    return st.fixed_dictionaries(dict(
        path=st.sampled_from(sorted(FORMS)), seed=gen.seed(), edge=st.sampled_from([0.0, 0.0, 0.5]),
        default=st.sampled_from([False, False, False, True]), scalar=st.booleans()))


def inputs(rng):
    m = rng.uniform(9, 16.5, N)
    t = rng.uniform(0.3, 14.0, N)
    tp = np.where(rng.random(N) < 0.5, t * rng.uniform(0.1, 1, N), rng.uniform(0.3, 14.0, N))
    t[:3] = 10.0, 15.0, 0.3
    tp[3:6] = 10.0, 0.1, 13.8
    m[6:8] = 12.0, 12.5
    return m, t, tp


def tol():
    return (1e-10, 1e-10) if x64() else (4e-6, 4e-6)


def check(case, rec):
    c = popmodel.component(case["path"])
    rng = np.random.default_rng(case["seed"])
    bounds = {n: c.bound(n) for n in c.P._fields}
    v = popmodel.random_values(bounds, rng, edge=case["edge"])
    if case["default"]:
        v = {n: float(x) for n, x in c.default._asdict().items()}
    p = c.P(**v)
    pref = popref.pmap(p)
    rec.label(case["path"])
    m, t, tp = inputs(rng)
    rt, at = tol()
    for name, refn, which in FORMS[case["path"]]:
        f = getattr(c.mod, name)
        arrays = dict(m=m, t=t, p=tp)
        sel = dict(mtp=(m, t, tp), mt=(m, t), tp=(t, tp), m=(m,))[which]
        got = np.asarray(f(p, *sel), "f8")
        want = np.broadcast_to(refn(pref, m, t, tp), (N,))
        if case["scalar"]:
            got = np.concatenate([
                [float(f(p, *[float(x[i]) for x in sel])) for i in range(5)], got[5:]])
        all_finite(got, "prediction is not finite", fn=name)
        # mass and time scale the slopes in float32
        close(got, want, f"{name} does not follow its functional form", rtol=rt, atol=at * 3,
              path=case["path"])
        rec.count(N)
        rec.nontrivial(np.ptp(want) > 1e-6)
        # monotone in halo mass where the form is a sigmoid in mass at fixed times
        if which != "tp":
            mg = np.linspace(9, 16.5, N)
            i = case["seed"] % N
            args = [mg] + [np.full(N, x[i]) for x in sel[1:]]
            y = np.asarray(f(p, *args), "f8")
            dy = np.diff(y)
            slack = 1e-12 if x64() else 5e-6
            require((dy >= -slack).all() or (dy <= slack).all(),
                    f"{name} is not monotone in halo mass", path=case["path"])


ALL = [{"path": x} for x in sorted(FORMS)]
SUBS = [
    Sub("forms", strat, check, quick=1000, thorough=12000, shards=4, thorough_shards=8, cover=ALL),
    Sub("forms_x64", strat, check, quick=1000, thorough=12000, shards=4, thorough_shards=8,
        x64=True, cover=ALL),
]
