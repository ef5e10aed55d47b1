"""The ingredients of the halo population model and helpers to evaluate it."""

import importlib

import numpy as np

PK = "diffmah.diffmahpop_kernels."

# path, Params, UParams, bounds, to_bounded, to_unbounded, defaults, default u
_C0 = ("LGM0Pop_C0_Params", "LGM0Pop_C0_UParams", "LGM0POP_C0_BOUNDS", "get_bounded_c0_params",
       "get_unbounded_c0_params", "DEFAULT_LGM0POP_C0_PARAMS", "DEFAULT_LGM0POP_C0_U_PARAMS")
_C1 = tuple(x.replace("C0", "C1").replace("c0", "c1") for x in _C0)
_M0 = ("LGM0Pop_Params", "LGM0Pop_UParams", "LGM0POP_BOUNDS", "get_bounded_m0pop_params",
       "get_unbounded_m0pop_params", "DEFAULT_LOGM0POP_PARAMS", "DEFAULT_LOGM0POP_U_PARAMS")
_EI = ("EarlyIndex_Params", "EarlyIndex_UParams", "EARLY_INDEX_PBOUNDS",
       "get_bounded_early_index_params", "get_unbounded_early_index_params",
       "DEFAULT_EARLY_INDEX_PARAMS", "DEFAULT_EARLY_INDEX_U_PARAMS")
_LI = tuple(x.replace("Early", "Late").replace("EARLY", "LATE").replace("early", "late")
            for x in _EI)
_TC = ("Logtc_Params", "Logtc_UParams", "LOGTC_PBOUNDS", "get_bounded_logtc_params",
       "get_unbounded_logtc_params", "DEFAULT_LOGTC_PARAMS", "DEFAULT_LOGTC_U_PARAMS")
_TPC = ("TPCens_Params", "TPCens_UParams", "TPCENS_PBOUNDS", "get_bounded_tp_cens_params",
        "get_unbounded_tp_cens_params", "DEFAULT_TPCENS_PARAMS", "DEFAULT_TPCENS_U_PARAMS")

COMPONENTS = {}
for _g in ("bimod_logm0_kernels.", "bimod_logm0_sats."):
    for _t in ("early", "late"):
        COMPONENTS[_g + "logm0_c0_" + _t] = _C0
        COMPONENTS[_g + "logm0_c1_" + _t] = _C1
        COMPONENTS[_g + "logm0_pop_" + _t] = _M0
COMPONENTS["bimod_logm0_kernels.logm0_pop_bimod"] = _M0
COMPONENTS["bimod_logm0_sats.logm0_pop_bimod_sats"] = _M0
for _t in ("alpha", "beta", "bimod"):
    COMPONENTS["early_index_" + _t] = _EI
    COMPONENTS["late_index_" + _t] = _LI
COMPONENTS["early_index_pop"] = _EI
for _t in ("early", "late", "bimod"):
    COMPONENTS["logtc_" + _t] = _TC
COMPONENTS["t_peak_kernels.tp_pdf_cens"] = _TPC
COMPONENTS["t_peak_kernels.tp_pdf_cens_flex"] = _TPC
COMPONENTS["t_peak_kernels.tp_pdf_sats"] = (
    "TP_Sats_Params", "TP_Sats_UParams", "TP_SATS_BOUNDS", "get_bounded_tp_sat_params",
    "get_unbounded_tp_sat_params", "DEFAULT_TP_SATS_PARAMS", "DEFAULT_TP_SATS_U_PARAMS")
COMPONENTS["t_peak_kernels.utp_pdf_kernels"] = (
    "UTP_Params", "UTP_UParams", "UTP_PBOUNDS", "get_bounded_utp_params",
    "get_unbounded_utp_params", "DEFAULT_UTP_PARAMS", "DEFAULT_UTP_U_PARAMS")
COMPONENTS["frac_early_cens"] = (
    "FEC_Params", "FEC_UParams", "FEC_PBOUNDS", "get_bounded_fec_params",
    "get_unbounded_fec_params", "DEFAULT_FEC_PARAMS", "DEFAULT_FEC_U_PARAMS")
COMPONENTS["ftpt0_cens"] = (
    "FTPT0_Params", "FTPT0_UParams", "FTPT0_PBOUNDS", "get_bounded_ftpt0_params",
    "get_unbounded_ftpt0_params", "DEFAULT_FTPT0_PARAMS", "DEFAULT_FTPT0_U_PARAMS")
COMPONENTS["covariance_kernels"] = (
    "CovParams", "CovUParams", "COV_PBOUNDS", "get_bounded_cov_params",
    "get_unbounded_cov_params", "DEFAULT_COV_PARAMS", "DEFAULT_COV_U_PARAMS")

# the parts of the complete model
PARTS = [
    "t_peak_kernels.tp_pdf_cens_flex", "t_peak_kernels.tp_pdf_sats",
    "bimod_logm0_kernels.logm0_pop_bimod", "bimod_logm0_sats.logm0_pop_bimod_sats",
    "logtc_bimod", "early_index_bimod", "late_index_bimod", "frac_early_cens",
    "covariance_kernels",
]


class Component:
    def __init__(self, path):
        self.path = path
        self.mod = importlib.import_module(PK + path)
        names = COMPONENTS[path]
        (self.P, self.U, self.bounds, self.to_p, self.to_u, self.default,
         self.default_u) = [getattr(self.mod, n) for n in names]

    def bound(self, name):
        lo, hi = getattr(self.bounds, name)
        return float(lo), float(hi)


_cache = {}


def component(path):
    if path not in _cache:
        _cache[path] = Component(path)
    return _cache[path]


def full_bounds():
    """name -> (lo, hi, part) for every parameter of the complete model"""
    out = {}
    for path in PARTS:
        c = component(path)
        for n in c.P._fields:
            out[n] = (*c.bound(n), path)
    return out


def full():
    return importlib.import_module(PK + "bimod_censat_params")


def random_values(bounds, rng, spread=1.0, edge=0.0, default=None):
    """Values inside bounds {name: (lo, hi, ...)}

    spread < 1 mixes with the defaults; edge is the probability to sit near a bound."""
    out = {}
    for n, b in bounds.items():
        lo, hi = b[:2]
        pad = 1e-3 * (hi - lo)
        v = rng.uniform(lo + pad, hi - pad)
        if edge and rng.random() < edge:
            v = lo + pad * (1 + 10 * rng.random()) if rng.random() < 0.5 \
                else hi - pad * (1 + 10 * rng.random())
        if default is not None:
            d = min(max(float(getattr(default, n)), lo + pad), hi - pad)
            v = d + spread * (v - d)
        out[n] = float(v)
    return out


def random_params(seed, spread=1.0, edge=0.1):
    """Complete model parameters drawn inside their bounds (as python floats)"""
    m = full()
    rng = np.random.default_rng(seed)
    v = random_values(full_bounds(), rng, spread, edge, m.DEFAULT_DIFFMAHPOP_PARAMS)
    return m.DiffmahPop_Params(**{n: v[n] for n in m.DiffmahPop_Params._fields})
