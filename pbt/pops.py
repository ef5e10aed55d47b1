"""Calls into the Monte Carlo population generators, with the same shape for both kinds."""

import numpy as np
from hypothesis import strategies as st

from . import gen, popmodel
from .lazy import Lazy

cens = Lazy("diffmah.diffmahpop_kernels.mc_bimod_cens")
sats = Lazy("diffmah.diffmahpop_kernels.mc_bimod_sats")
cens_fh = Lazy("diffmah.diffmahpop_kernels.bimod_cens_fithelp")
sats_fh = Lazy("diffmah.diffmahpop_kernels.bimod_sats_fithelp")
both_fh = Lazy("diffmah.diffmahpop_kernels.bimod_censat_fithelp")
dk = Lazy("diffmah.diffmah_kernels")

LGT0 = np.log10(13.8)


def key(seed):
    from jax import random

    return random.PRNGKey(int(seed))


def mod(sat):
    return sats if sat else cens


def params_pop(sat):
    """(params, lgm, t_obs, key, lgt0, t_peak=None) -> weighted and selected parameters"""
    return sats.mc_diffmah_satpop if sat else cens.mc_diffmah_cenpop


def history_pop(sat):
    """(params, tarr, lgm, t_obs, key, lgt0) -> mah_params, dmhdt, log_mah"""
    return sats.mc_satpop if sat else cens.mc_cenpop


def sample(sat):
    return mod(sat)._mc_diffmah_halo_sample


def moments(sat):
    return mod(sat).predict_mah_moments_singlebin


def fithelp(sat):
    return sats_fh if sat else cens_fh


def params_case(spread=(0.0, 0.5, 1.0)):
    """strategy of the model parameters"""
    return st.fixed_dictionaries(dict(
        seed=gen.seed(), spread=st.sampled_from(spread), edge=st.sampled_from([0.0, 0.0, 0.2]),
        scatter=st.sampled_from(["any", "any", "moderate", "tiny"])))


def make_params(c, **fixed):
    """JSON description -> complete model parameters (python floats)"""
    p = popmodel.random_params(c["seed"], c["spread"], c["edge"])._asdict()
    if c["spread"] == 0.0:
        p = {k: float(v) for k, v in popmodel.full().DEFAULT_DIFFMAHPOP_PARAMS._asdict().items()}
    rng = np.random.default_rng(c["seed"] + 7)
    for k in p:
        if k.startswith("std_u_"):
            if c["scatter"] == "tiny":
                p[k] = 0.011
            elif c["scatter"] == "moderate":
                p[k] = float(rng.uniform(0.3, 6.0))
    p.update(fixed)
    return popmodel.full().DiffmahPop_Params(**p)
