"""Independent float64 reference of the halo population model (numpy/scipy only).

Parameters are given as a mapping from name to value; values may be arrays.
"""

import numpy as np
from scipy import stats

from .ref import BOUNDS, inverse_sigmoid, sig_slope, sigmoid

EPS = 1e-3
CORR = [("logm0", "logtc"), ("logm0", "early"), ("logtc", "early"), ("logm0", "late"),
        ("logtc", "late"), ("early", "late")]
RHO = ["rho_logtc_logm0", "rho_early_logm0", "rho_early_logtc", "rho_late_logm0",
       "rho_late_logtc", "rho_late_early"]
FOUR = ["logm0", "logtc", "early", "late"]


def pmap(params):
    return {k: np.asarray(v, dtype="f8") for k, v in params._asdict().items()}


def bounded(name, x):
    lo, hi = BOUNDS[name]
    return np.clip(x, lo + EPS, hi - EPS)


# ---------------------------------------------------------------- mean relations
# kind: "early" or "late"; sat: True for satellites


def c0(p, kind, sat, t_obs, t_peak):
    s = kind + ("_sats" if sat else "")
    x = sig_slope(t_obs, 15.0, p["lgm0pop_c0_ytp_" + s], p["lgm0pop_c0_t_obs_x0_" + s], 0.25,
                  p["lgm0pop_c0_ylo_" + s], 0.0)
    return np.maximum(x, p["lgm0pop_c0_clip_c0_" + s] + p["lgm0pop_c0_clip_c1_" + s] * t_peak)


def c1(p, kind, sat, t_obs, t_peak):
    s = kind + ("_sats" if sat else "")
    x = sig_slope(t_obs, 10.0, p["lgm0pop_c1_ytp_" + s], p["lgm0pop_c1_t_obs_x0_" + s], 0.25,
                  p["lgm0pop_c1_ylo_" + s], 0.0)
    clip = sigmoid(t_peak, p["lgm0pop_c1_clip_x0_" + s], 1.0, p["lgm0pop_c1_clip_ylo_" + s],
                   p["lgm0pop_c1_clip_yhi_" + s])
    return np.maximum(x, clip)


def logm0(p, kind, sat, lgm, t_obs, t_peak):
    d = c0(p, kind, sat, t_obs, t_peak) + c1(p, kind, sat, t_obs, t_peak) * (lgm - 12.0)
    return bounded("logm0", lgm + d)


def logtc(p, kind, lgm, t_obs, t_peak):
    ytp = p["logtc_lgm_c0_tp_ytp_tobs_c0_" + kind] \
        + p["logtc_lgm_c0_tp_ytp_tobs_c1_" + kind] * t_obs
    c = sig_slope(t_peak, 10.0, ytp, p["logtc_c0_ss_x0_" + kind], 0.5,
                  p["logtc_lgm_c0_tp_ylo_" + kind], p["logtc_lgm_c0_tp_yhi_" + kind])
    return bounded("logtc", c + p["logtc_lgm_c1_" + kind] * (lgm - 12.0))


SUFFIX = dict(early="_alpha", late="_beta", pop="")


def early_index(p, kind, lgm, t_obs, t_peak):
    s = SUFFIX[kind]
    ylo = sigmoid(t_peak, p["early_index_ylo_x0" + s], 1.0, p["early_index_ylo_ylo" + s],
                  p["early_index_ylo_yhi" + s])
    yhi = sigmoid(t_obs, p["early_index_yhi_x0" + s], 0.5, p["early_index_yhi_ylo" + s],
                  p["early_index_yhi_yhi" + s])
    return bounded("early_index", sigmoid(lgm, p["early_index_lgm_x0" + s], 1.0, ylo, yhi))


def late_index(p, kind, lgm):
    s = SUFFIX[kind]
    return bounded("late_index", sigmoid(lgm, p["late_index_x0" + s], 1.0,
                                         p["late_index_ylo" + s], p["late_index_yhi" + s]))


def mean_params(p, kind, sat, lgm, t_obs, t_peak):
    """-> dict of the five mean halo parameters of one type"""
    lgm, t_obs, t_peak = np.broadcast_arrays(*[np.asarray(x, "f8") for x in (lgm, t_obs, t_peak)])
    return dict(logm0=logm0(p, kind, sat, lgm, t_obs, t_peak),
                logtc=logtc(p, kind, lgm, t_obs, t_peak),
                early_index=early_index(p, kind, lgm, t_obs, t_peak),
                late_index=late_index(p, kind, lgm), t_peak=t_peak)


def frac_early(p, lgm, t_obs):
    ylo = sigmoid(t_obs, p["fec_t_obs_x0"], 1.0, p["fec_lgm_ylo_early"], p["fec_lgm_ylo_late"])
    yhi = sigmoid(t_obs, p["fec_t_obs_x0"], 1.0, p["fec_lgm_yhi_early"], p["fec_lgm_yhi_late"])
    return sigmoid(lgm, p["fec_lgm_x0"], 4.0, ylo, yhi)


def ftpt0(p, lgm, t_obs):
    c = np.clip(p["ftpt0_c0_c0"] + p["ftpt0_c0_c1"] * (t_obs - 10.0), 0.01, 0.99)
    return np.clip(c + p["ftpt0_c1"] * (lgm - 12.0), 0.01, 0.99)


# ---------------------------------------------------------------- t_peak


def cen_x0(p, lgm, t_obs):
    early = sigmoid(lgm, p["cen_tp_lgm_x0_x0"], 1.0, p["cen_tp_x0_ylo_early"],
                    p["cen_tp_x0_yhi_early"])
    late = sigmoid(lgm, p["cen_tp_lgm_x0_x0"], 1.0, p["cen_tp_x0_ylo_late"],
                   p["cen_tp_x0_yhi_late"])
    return sigmoid(t_obs, p["cen_tp_t_obs_x0_x0"], 2.0, early, late)


def cen_frac_peaked(p, utp, lgm, t_obs):
    return sigmoid(utp, cen_x0(p, lgm, t_obs), 5.0, 0.0, 1.0)


def cen_cdf(p, utp, lgm, t_obs):
    """P(t_peak/t_0 <= utp) of the drawn values: everything not peaked by utp=1 peaks there"""
    f = cen_frac_peaked(p, utp, lgm, t_obs)
    return np.where(utp >= 1, 1.0, np.where(utp < 0.05, 0.0, f))


def sat_loc_scale(p, lgm, t_obs):
    ylo = sigmoid(t_obs, p["utp_loc_lgm_ylo_t0"], 0.4, p["utp_loc_lgm_ylo_early"],
                  p["utp_loc_lgm_ylo_late"])
    loc = sigmoid(lgm, p["utp_loc_lgm_x0"], 1.5, ylo, 0.95)
    slo = sigmoid(t_obs, p["utp_scale_lgm_ylo_t0"], 1.0, p["utp_scale_lgm_ylo_early"],
                  p["utp_scale_lgm_ylo_late"])
    return loc, sigmoid(lgm, 12.0, 1.0, slo, 0.16)


def truncnorm(loc, scale, lo=0.1, hi=1.0):
    return stats.truncnorm((lo - loc) / scale, (hi - loc) / scale, loc, scale)


# ---------------------------------------------------------------- scatter


def stds(p, lgm):
    return [sigmoid(lgm, p["cov_lgm_x0_" + n], 2.0, p[f"std_u_{n}_ylo"], p[f"std_u_{n}_yhi"])
            for n in FOUR]


def corr(p):
    m = np.eye(4)
    for name, (a, b) in zip(RHO, CORR):
        i, j = FOUR.index(a), FOUR.index(b)
        m[i, j] = m[j, i] = float(p[name])
    return m


def cov(p, lgm):
    s = np.array([float(x) for x in stds(p, lgm)])
    return corr(p) * np.outer(s, s)


# ---------------------------------------------------------------- halo parameters, unbounded


def _u(name, x):
    lo, hi = BOUNDS[name]
    return inverse_sigmoid(np.asarray(x, "f8"), 0.5 * (lo + hi), 0.1, lo, hi)


def _b(name, u):
    lo, hi = BOUNDS[name]
    return sigmoid(np.asarray(u, "f8"), 0.5 * (lo + hi), 0.1, lo, hi)


def to_u(m):
    """halo parameters -> unbounded, as an array (..., 4) ordered as FOUR"""
    late = np.asarray(m["late_index"], "f8")
    u_early = inverse_sigmoid(np.asarray(m["early_index"], "f8"), 0.0, 0.1, late, 10.0)
    return np.stack([_u("logm0", m["logm0"]), _u("logtc", m["logtc"]), u_early,
                     _u("late_index", late)], axis=-1)


def from_u(u):
    late = _b("late_index", u[..., 3])
    return dict(logm0=_b("logm0", u[..., 0]), logtc=_b("logtc", u[..., 1]),
                early_index=sigmoid(u[..., 2], 0.0, 0.1, late, 10.0), late_index=late)


def as_dict(mah_params):
    return {k: np.asarray(v, "f8") for k, v in mah_params._asdict().items()}
