"""Generated simulated histories for the fitter."""

import numpy as np
from hypothesis import strategies as st

from . import gen, ref

NT = 30


def history(dips=True, zeros=True, nt=NT):
    """log10 masses built from steps: growth, plateaus, dips, empty starts, mass lost for good."""
    step = st.one_of(gen.uniform(0.002, 0.3), gen.uniform(0.002, 0.08), st.just(0.0),
                     gen.uniform(0.002, 0.02), gen.uniform(2e-5, 1e-3))
    return st.fixed_dictionaries(dict(
        logm_end=gen.uniform(9.5, 15.5),
        steps=gen.vec(step, nt - 1),
        plateau=st.one_of(st.just(0), st.integers(0, max(nt - 4, 0)),
                          st.integers(0, min(8, max(nt - 3, 0)))),
        dips=st.lists(st.tuples(st.integers(1, max(nt - 2, 1)), gen.uniform(0.01, 0.3)), max_size=3)
        if dips else st.just([]),
        lost=st.one_of(st.none(), st.none(), st.tuples(
            st.integers(min(2, nt - 1), nt - 1), st.one_of(gen.uniform(0.02, 0.5), gen.uniform(0.5, 3.0))))
        if dips else st.none(),
        nzero=st.one_of(st.just(0), st.integers(0, max(nt - 4, 0))) if zeros else st.just(0),
        t0=gen.uniform(8.0, 15.0),
        tlo=gen.uniform(0.1, 2.0),
        log=st.booleans(),
    ))


def any_length(lengths, **kw):
    return st.sampled_from(lengths).flatmap(lambda n: history(nt=n, **kw))


def build(c):
    """-> t, mah (both float64 arrays)"""
    nt = len(c["steps"]) + 1
    steps = np.array(c["steps"], dtype="f8") * (NT / nt)
    if c["plateau"]:
        steps[nt - 1 - c["plateau"]:] = 0.0
    lg = c["logm_end"] - np.concatenate([np.cumsum(steps[::-1])[::-1], [0.0]])
    for i, d in c["dips"]:
        if i < nt - 1:
            lg[i] = lg[i] - d
    if c.get("lost"):  # stripped: everything before was more massive
        lg[: c["lost"][0]] += c["lost"][1]
    mah = 10.0 ** lg
    mah[: c["nzero"]] = 0.0
    f = np.linspace(0, 1, nt)
    t = c["tlo"] * (c["t0"] / c["tlo"]) ** f if c["log"] else c["tlo"] + (c["t0"] - c["tlo"]) * f
    return t, mah


def select(t, mah, lgm_min, dlogm_cut, t_fit_min):
    """The documented selection of points used in the fit -> (mask, target, ambiguous)"""
    with np.errstate(divide="ignore"):
        lg = np.log10(mah)
    end = lg[-1]
    msk = (lg > end - dlogm_cut) & (lg > lgm_min) & (t >= t_fit_min)
    amb = (np.abs(lg - (end - dlogm_cut)) < 1e-7).any()
    if np.isfinite(lgm_min):
        amb |= (np.abs(lg - lgm_min) < 1e-7).any()
    target = np.maximum.accumulate(lg[msk]) if msk.any() else lg[msk]
    return msk, target, bool(amb)


def t_peak(t, mah):
    return t[np.argmax(mah == mah[-1])]


def model_loss(p, t_target, target, lgt0):
    pred = ref.log_mah({k: float(getattr(p, k)) for k in ref.PNAMES}, t_target, lgt0)
    return float(np.mean((pred - target) ** 2))
