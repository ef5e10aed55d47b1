"""Optimizer wrappers: honest status, best point of the search, fallback, faults injected."""

import contextlib
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, all_finite, close, require
from pbt.lazy import Lazy

bw = Lazy("diffmah.fitting_helpers.bfgs_wrapper")
fu = Lazy("diffmah.fitting_helpers.fit_utils")

RULE = (
    "A case is an objective (quadratic bowl, Rosenbrock-like valley or cosine-rippled bowl in 2-4 "
    "dimensions), a starting point, step counts and a fault: none, or from the k-th evaluation on "
    "(or only at it) the loss or a gradient entry becomes NaN or infinite, or the quasi-Newton "
    "search reports failure. Non-trivial: a fault is hit, a target loss is reached early, or the "
    "fallback runs."
)


def strat_obj():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["bowl", "valley", "ripple"]),
        center=gen.vec(gen.uniform(-1.5, 1.5), 3),
        scale=gen.vec(gen.uniform(0.2, 3.0), 3),
        start=gen.vec(gen.uniform(-2.0, 2.0), 3),
        floor=st.sampled_from([0.0, 0.5]),
    ))


def strat_fault():
    return st.one_of(
        st.none(),
        st.fixed_dictionaries(dict(
            at=st.one_of(st.integers(0, 6), st.integers(0, 80)),
            what=st.sampled_from(["loss_nan", "loss_inf", "grad_nan", "grad_inf"]),
            once=st.booleans())))


class Objective:
    """Deterministic objective that records every evaluation and injects one fault."""

    def __init__(self, o, fault=None, dtype="f8"):
        self.o, self.fault = o, fault
        self.c, self.s = np.array(o["center"]), np.array(o["scale"])
        self.calls = []
        self.hit = False
        self.data_seen = []

    def true(self, p):
        d = np.asarray(p, dtype="f8") - self.c
        k = self.o["kind"]
        if k == "bowl":
            loss, g = (self.s * d**2).sum(), 2 * self.s * d
        elif k == "valley":
            loss = d[0] ** 2 + 3 * (d[1] - d[0] ** 2) ** 2 + self.s[2] * d[2] ** 2
            g = np.array([2 * d[0] - 12 * d[0] * (d[1] - d[0] ** 2), 6 * (d[1] - d[0] ** 2),
                          2 * self.s[2] * d[2]])
        else:
            loss = (self.s * d**2 + 0.2 * (1 - np.cos(4 * d))).sum()
            g = 2 * self.s * d + 0.8 * np.sin(4 * d)
        return loss + self.o["floor"], g

    def __call__(self, p, data):
        p = np.array(p, dtype="f8")
        loss, g = self.true(p)
        i = len(self.calls)
        f = self.fault
        if f and (i == f["at"] or (i > f["at"] and not f["once"])):
            self.hit = True
            bad = np.nan if f["what"].endswith("nan") else np.inf
            if f["what"].startswith("loss"):
                loss = bad
            else:
                g = g.copy()
                g[i % 3] = bad
        self.calls.append((p, loss))
        self.data_seen.append(data)
        return np.float64(loss), g


# ------------------------------------------------------------------ Adam


def strat_adam():
    return st.fixed_dictionaries(dict(
        obj=strat_obj(), fault=strat_fault(), n_step=st.integers(1, 40),
        n_warmup=st.integers(0, 2), warmup_n_step=st.integers(1, 15),
        # long steps make the loss go up and down
        step_size=st.one_of(gen.uniform(0.005, 0.2), gen.uniform(0.2, 1.5)),
        tol=st.one_of(st.just(0.0), gen.uniform(0.01, 3.0))))


def check_adam(case, rec):
    f = Objective(case["obj"], case["fault"])
    p0 = np.array(case["obj"]["start"])
    keep = p0.copy()
    data = ("some", 3.0)
    res = fu.jax_adam_wrapper(f, p0, data, case["n_step"], n_warmup=case["n_warmup"],
                              warmup_n_step=case["warmup_n_step"], step_size=case["step_size"],
                              tol=case["tol"])
    require(len(res) == 5, "wrong number of results")
    p, loss, loss_arr, params_arr, ok = res
    p, loss_arr = np.asarray(p, dtype="f8"), np.asarray(loss_arr, dtype="f8")
    require(np.array_equal(p0, keep), "starting point was modified")
    require(all(d is data for d in f.data_seen), "loss data was not passed through")
    rec.count(len(f.calls))
    close(f.calls[0][0], keep, "search does not begin at the given start", atol=1e-5)
    loss = float(loss)
    nw, wn, n, tol = case["n_warmup"], case["warmup_n_step"], case["n_step"], case["tol"]
    # replay what happened from the recorded evaluations
    bad = [not np.isfinite(x[1]) for x in f.calls]
    grad_fault = bool(f.hit and case["fault"]["what"].startswith("grad"))
    reached = loss <= tol
    total = len(f.calls)
    rec.label("fault hit", f.hit)
    rec.label("tolerance reached", reached)
    rec.nontrivial(f.hit or (reached and tol > 0))
    require(total <= nw * wn + n, "more evaluations than requested", total=total)
    if not f.hit:
        all_finite(p, "best point is not finite")
        all_finite(loss, "best loss is not finite")
        close(loss, f.true(p)[0], "reported loss is not the loss at the returned point",
              rtol=1e-4, atol=1e-5)
        require(int(ok) == 1, "clean run is reported as failed")
        if tol == 0:
            require(total == nw * wn + n, "clean run stops early", total=total)
            require(loss_arr.shape == (n,) and np.asarray(params_arr).shape == (n, 3),
                    "wrong history shapes")
            final = f.calls[-n:]
            close(loss_arr, [x[1] for x in final], "loss history is not the evaluated losses",
                  rtol=1e-6)
            close(params_arr, [x[0] for x in final], "parameter history is wrong", atol=1e-5)
            close(loss, min(x[1] for x in final), "not the lowest loss of the history", rtol=1e-6)
            # every stage begins at the best point of the stage before
            start = keep
            for i in range(nw):
                stage = f.calls[i * wn:(i + 1) * wn]
                close(stage[0][0], start, "warm-up stage starts from the wrong point", atol=1e-5)
                start = stage[int(np.argmin([x[1] for x in stage]))][0]
            close(final[0][0], start, "final stage does not start from the best warm-up point",
                  atol=1e-5)
            # constant-step Adam: first step moves by the step size in every direction
            if n > 1 and min(abs(f.true(final[0][0])[1])) > 1e-2:
                close(np.abs(final[1][0] - final[0][0]), np.full(3, case["step_size"]),
                      "first step is not the step size", rtol=2e-3, atol=1e-5)
            if nw and wn > 1 and min(abs(f.true(keep)[1])) > 1e-2:
                close(np.abs(f.calls[1][0] - keep), np.full(3, 5 * case["step_size"]),
                      "first warm-up step is not five step sizes", rtol=2e-3, atol=1e-5)
            move = f.calls[1][0] - keep if total > 1 and (nw == 0 or wn > 1) else None
            if move is not None and nw == 0 and min(abs(f.true(keep)[1])) > 1e-2:
                require((move * f.true(keep)[1] <= 0).all(), "search walks up the gradient")
        elif reached:
            require(loss <= tol, "stops above the tolerance")
        else:
            require(min(x[1] for x in f.calls) > tol - 1e-9,
                    "the search ran on although the tolerance was reached")
    else:
        # a non-finite value never becomes the result when a finite one was seen
        final_bad = bad[-1] or grad_fault
        if int(ok) == 1 and not reached:
            require(loss_arr.size >= n, "interrupted run is reported as complete",
                    nloss=loss_arr.size, n=n)
            all_finite(loss, "successful run has non-finite loss")
            all_finite(p, "successful run has a non-finite point")
            close(loss, f.true(p)[0], "reported loss is not the loss at the returned point",
                  rtol=1e-4, atol=1e-5)
        if not case["fault"]["once"] or (nw == 0 and not reached):
            if final_bad and total and not reached:
                require(int(ok) == 0, "run that met a non-finite value is reported as complete")
        if int(ok) == 0 and loss_arr.size and nw == 0:
            close(loss, np.nanmin(loss_arr), "not the lowest loss before the fault", rtol=1e-6)
            close(loss, f.true(p)[0], "reported loss is not the loss at the returned point",
                  rtol=1e-4, atol=1e-5)
            all_finite(p, "interrupted run returns a non-finite point")
        require(np.isfinite(loss), "a non-finite loss is returned as the result", loss=loss)


# ------------------------------------------------------------------ quasi-Newton and fallback


def strat_bfgs():
    return st.fixed_dictionaries(dict(
        obj=strat_obj(), fault=strat_fault(), nstep=st.integers(1, 30),
        n_warmup=st.integers(0, 1)))


def check_bfgs(case, rec):
    f = Objective(case["obj"], case["fault"])
    p0 = np.array(case["obj"]["start"])
    keep = p0.copy()
    data = ("some", 3.0)
    # what the quasi-Newton search does on its own
    g = Objective(case["obj"], case["fault"])
    res0 = bw.scipy_lbfgs_wrapper(g, p0, data)
    require(len(res0) == 3, "wrong number of results")
    p_b, loss_b, ok_b = res0
    with np.errstate(all="ignore"):
        res = bw.bfgs_adam_fallback(f, p0, data, case["nstep"], case["n_warmup"])
    require(np.array_equal(p0, keep), "starting point was modified")
    require(all(d is data for d in f.data_seen + g.data_seen), "loss data was not passed through")
    require(len(res) == 4, "wrong number of results")
    p, loss, ok, code = res
    p, loss = np.asarray(p, dtype="f8"), float(loss)
    require(int(code) in (0, 1), "unknown optimizer code", code=int(code))
    good = bool(ok_b) and np.isfinite(loss_b) and loss_b > 0
    rec.label("fault hit", f.hit)
    rec.label("fallback used", int(code) == 1)
    rec.nontrivial(f.hit or int(code) == 1 or case["obj"]["kind"] != "bowl")
    rec.count(len(f.calls))
    if int(code) == 0:
        require(good, "a failed quasi-Newton search is reported as the fit")
        require(bool(ok), "successful search reports failure")
        close(p, p_b, "result differs from the quasi-Newton search", atol=1e-9)
        close(loss, loss_b, "loss differs from the quasi-Newton search", atol=1e-9)
        all_finite(p, "successful fit is not finite")
        if not f.hit:
            close(loss, f.true(p)[0], "reported loss is not the loss at the returned point",
                  rtol=1e-6, atol=1e-9)
            require(loss <= f.true(keep)[0] + 1e-9, "fit is worse than its start")
            # a converged search sits at a stationary point
            gr = np.abs(f.true(p)[1]).max()
            require(gr < 2e-2 * (1 + case["obj"]["floor"]), "search stops away from a minimum",
                    grad=gr)
            if case["obj"]["kind"] == "bowl":
                close(p, f.c, "minimum of a bowl is not found", atol=2e-2)
    else:
        require(not good, "fallback used although the quasi-Newton search succeeded",
                loss=loss_b)
        # the fallback starts over from the given start
        n_b = len(g.calls)
        require(len(f.calls) > n_b, "fallback did not run")
        close(f.calls[n_b][0], keep, "fallback does not begin at the given start", atol=1e-5)
        tail = f.calls[n_b:]
        want_n = case["nstep"] + 50 * case["n_warmup"]
        clean = not (case["fault"] and f.hit and len(f.calls) > case["fault"]["at"] and (
            not case["fault"]["once"] or case["fault"]["at"] >= n_b))
        if clean and min(x[1] for x in tail) > 0:
            require(len(tail) == want_n, "fallback ran the wrong number of steps", n=len(tail))
            require(int(ok) == 1, "completed fallback is reported as failed")
            close(loss, min(x[1] for x in tail[-case["nstep"]:]),
                  "fallback does not return its best point", rtol=1e-6)
            close(loss, f.true(p)[0], "reported loss is not the loss at the returned point",
                  rtol=1e-4, atol=1e-5)
        elif not clean and not case["fault"]["once"]:
            require(int(ok) == 0, "fallback that met a non-finite value reports success")


# ------------------------------------------------------------------ forced failure of the search


def strat_forced():
    return st.fixed_dictionaries(dict(
        obj=strat_obj(), nstep=st.integers(5, 40),
        how=st.sampled_from(["failure", "nan", "inf", "zero", "ok"])))


def check_forced(case, rec):
    """The minimizer is replaced by one with a known outcome."""
    import scipy.optimize

    f = Objective(case["obj"])
    p0 = np.array(case["obj"]["start"])
    how = case["how"]
    fun = dict(failure=1e-3, nan=np.nan, inf=np.inf, zero=0.0, ok=0.7)[how]
    point = p0 + 7.0
    seen = []

    def stub(fn, x0, *a, **k):
        seen.append(np.array(x0))
        return scipy.optimize.OptimizeResult(x=point, fun=fun, success=how != "failure")

    import diffmah.fitting_helpers.bfgs_wrapper as mod

    with contextlib.ExitStack() as stack:
        stack.enter_context(mock.patch.object(scipy.optimize, "minimize", stub))
        if hasattr(mod, "minimize"):
            stack.enter_context(mock.patch.object(mod, "minimize", stub))
        p, loss, ok, code = mod.bfgs_adam_fallback(f, p0, (), case["nstep"], 0)
    if not seen:
        rec.label("the minimizer could not be replaced")
        return
    require(len(seen) == 1 and np.allclose(seen[0], p0), "minimizer not started from the start")
    rec.nontrivial(how != "ok")
    rec.label(how)
    rec.count()
    if how == "ok":
        require(int(code) == 0 and bool(ok), "successful search is not used")
        close(p, point, "successful search is not returned")
        close(float(loss), fun, "loss of the successful search is not returned")
    else:
        require(int(code) == 1, "failed search is used", how=how)
        require(int(ok) == 1, "completed fallback is reported as failed")
        require(len(f.calls) == case["nstep"], "fallback ran the wrong number of steps")
        close(float(loss), min(x[1] for x in f.calls), "fallback does not return its best point",
              rtol=1e-6)
        close(float(loss), f.true(p)[0], "reported loss is not the loss at the returned point",
              rtol=1e-4, atol=1e-5)


SUBS = [
    Sub("adam", strat_adam, check_adam, quick=800, thorough=20000, shards=3),
    Sub("fallback", strat_bfgs, check_bfgs, quick=600, thorough=10000, shards=3),
    Sub("forced", strat_forced, check_forced, quick=300, thorough=3000),
]
