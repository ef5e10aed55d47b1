"""The fitter recovers histories made by the model itself."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, require
from pbt.lazy import Lazy

top = Lazy("diffmah")

RULE = (
    "A case is 12 halos of the model (final mass 10^10-10^15.5, t_peak from 3 Gyr to after z=0, "
    "plausible indices) tabulated at 12 to 250 snapshots (most at 40), each fitted twice (second time with all masses "
    "rescaled). Non-trivial: all histories span at least 0.2 dex over the fitted snapshots."
)

NT, NH = 40, 12
# The optimizer stops before the exact solution. Over 10^4 fits of this domain 99.8% had an
# rms below 0.065 dex (all below 0.1), and the largest median error of 12 halos was 0.065 dex.
MAX_ERR, MAX_RMS, MED_ERR = 0.5, 0.15, 0.1


def strat(nt=None):
    return st.fixed_dictionaries(dict(
        halos=gen.vec(gen.halo(logm0=(10.0, 15.5), logtc=(-0.5, 0.8), early=(0.6, 5.0),
                               late=(0.11, 1.5), t_peak=(3.0, 14.5)), NH),
        nt=st.sampled_from(nt or [NT]),
        t0=st.one_of(gen.uniform(12.0, 15.0), gen.uniform(5.0, 12.0)), log=st.booleans(),
        default_cut=st.booleans(),
        shift=gen.uniform(-1.0, 1.0)))


def check(case, rec):
    t0, NT = case["t0"], case["nt"]
    # all points pass the default cut on time
    t = np.logspace(np.log10(1.01), np.log10(t0), NT) if case["log"] else np.linspace(1.01, t0, NT)
    lgt0 = np.log10(t[-1])
    errs, spans, n_fallback = [], [], 0
    kw = {} if case["default_cut"] else dict(dlogm_cut=20.0)
    for h in case["halos"]:
        h = dict(h)
        # the history is frozen from the first snapshot at or after t_peak
        tp = h["t_peak"]
        h["t_peak"] = float(t[np.searchsorted(t, tp)]) if tp < t[-1] else float(t[-1])
        lg = ref.log_mah(h, t, lgt0)
        used = lg > lg[-1] - (2.5 if case["default_cut"] else 20.0)
        if (lg[used] < lg[-1]).sum() < 3:  # too short to be fitted
            rec.label("too short to be fitted")
            continue
        spans.append(lg[used][-1] - lg[used][0])
        for s in (0.0, case["shift"]):
            res = top.diffmah_fitter(t, 10 ** (lg + s), **kw)
            require(not bool(res.skip_fit), "a history that can be fitted was skipped")
            require(bool(res.fit_terminates), "fit of a model history does not converge")
            close(res.p_best.t_peak, h["t_peak"], "t_peak is not recovered", atol=3e-3)
            fit = np.asarray(top.mah_singlehalo(res.p_best, t, lgt0)[1], dtype="f8")
            err = np.abs(fit - lg - s)[used].max()
            rms = float(res.loss_best) ** 0.5
            errs.append(err)
            rec.label("worst error > 0.1 dex", err > 0.1)
            if int(res.code_used) == 1:
                # the fallback optimizer takes a fixed number of steps: held by the median below
                rec.label("fallback optimizer used")
                n_fallback += 1
                continue
            rec.label("converged: worst error > 0.3 dex", err > 0.3)
            rec.label("converged: rms > 0.065", rms > 0.065)
            require(rms < MAX_RMS, "loss of a model history is too large", rms=rms)
            require(err < MAX_ERR, "fitted history differs from the model history it came from",
                    worst=err)
    rec.count(len(errs))
    if len(errs) < NH:
        return
    med = np.median(errs)
    rec.label("median > 0.05", med > 0.05)
    rec.label("median > 0.06", med > 0.06)
    require(med < MED_ERR, "typical fitted history differs from the model history it came from",
            median=med)
    require(n_fallback <= 8, "the main optimizer fails on model histories", n=n_fallback)
    rec.nontrivial(min(spans) > 0.2)


SUBS = [
    Sub("recover", strat, check, quick=180, thorough=1600, shards=4, thorough_shards=8),
    Sub("lengths", lambda: strat([12, 25, 100, 250]), check, quick=40, thorough=400, shards=4,
        thorough_shards=8),
]
