"""Diagnostic figures show the targets and the model for the bins they claim."""

import os
import tempfile
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from pbt import gen, pops
from pbt.core import Sub, require
from pbt.lazy import Lazy

RULE = (
    "A case is a table of target bins (3-8 masses at 5-8 observation times, shuffled, with generated "
    "means and scatters), model parameters, centrals or satellites, and one of the three figures. "
    "The artists of the figure are compared with the table and the public predictions. "
    "Non-trivial: the closest bin is not the first row for some curve."
)
ASSUMPTIONS = ["figures are inspected through the matplotlib artists; no image is rendered"]

cen = Lazy("diffmah.diffmahpop_kernels.diagnostics.plot_bestfit_cen_mahs")
sat = Lazy("diffmah.diffmahpop_kernels.diagnostics.plot_bestfit_sat_mahs")

NT = 8
LGT0 = np.log10(13.79)
PANELS = [4.0, 7.0, 10.0, 13.0]
MASSES = {  # (satellites, figure) -> masses shown
    (False, "z0"): [11.25, 12.75, 14.25], (False, "z2"): [11.25, 12.75, 14.25],
    (True, "z0"): [11.25, 12.25, 13.5], (True, "z2"): [11.25, 12.75, 14.25],
    (False, "res"): np.linspace(11, 14.5, 15), (True, "res"): np.linspace(11, 13.5, 15),
}


def strat(figs):
    return lambda: st.fixed_dictionaries(dict(
        sat=st.booleans(), fig=st.sampled_from(figs), seed=gen.seed(), nm=st.integers(3, 8),
        nt=st.integers(5, 8), params=pops.params_case(spread=(0.0, 0.3))))


def table(case, rng):
    masses = np.sort(rng.uniform(10.8, 15.0, case["nm"]))
    times = np.concatenate([[13.51 + 0.28 * rng.random(), rng.uniform(2.6, 3.4)],
                            rng.uniform(1.5, 13.4, case["nt"] - 2)])
    dt = np.dtype([("t_obs", "f8"), ("lgm_obs", "f8"), ("t_table", "f8", (NT,)),
                   ("mean_log_mah", "f8", (NT,)), ("std_log_mah", "f8", (NT,))])
    rows = np.zeros(len(masses) * len(times), dtype=dt)
    rows["t_obs"] = np.repeat(times, len(masses))
    rows["lgm_obs"] = np.tile(masses, len(times))
    rows = rows[rng.permutation(len(rows))]
    for r in rows:
        r["t_table"] = np.linspace(rng.uniform(0.3, 1.0), r["t_obs"], NT)
        r["mean_log_mah"] = r["lgm_obs"] + 2 * np.log10(r["t_table"] / r["t_obs"]) \
            + rng.normal(0, 0.05)
        r["std_log_mah"] = rng.uniform(0.05, 0.6, NT)
    return rows


def draw(mod, name, rows, p, drn):
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure

    saved = []

    def savefig(self, fname, *a, **kw):
        saved.append((self, os.fspath(fname)))

    plt.close("all")
    with mock.patch.object(Figure, "savefig", savefig):
        getattr(mod, name)(rows, p, drn=drn)
    return saved


def check(case, rec):
    is_sat, fig = case["sat"], case["fig"]
    rng = np.random.default_rng(case["seed"])
    rows = table(case, rng)
    keep = rows.copy()
    p = pops.make_params(case["params"])
    mod = sat if is_sat else cen
    kind = "satellites" if is_sat else "centrals"
    if fig == "res":
        name = f"plot_{'sat' if is_sat else 'cen'}_mah_4panel_residuals"
    else:
        name = f"plot_singlepanel_mahs_{kind}_{fig}"
    from jax import random as jran

    def predict(r):
        out = pops.moments(is_sat)(p, r["t_table"], r["lgm_obs"], r["t_obs"], jran.key(0), LGT0)
        return [np.asarray(x, "f8") for x in out[:2]]

    with tempfile.TemporaryDirectory() as tmp:
        drn = os.path.join(tmp, "figs", "new")
        saved = draw(mod, name, rows, p, drn)
        require(len(saved) == 1, "number of figures saved", n=len(saved))
        f, fname = saved[0]
        require(os.path.dirname(os.path.abspath(fname)) == drn and os.path.isdir(drn),
                "figure is not saved in the requested directory", fname=fname)
        word = "sats" if is_sat else "cens"
        require(word in os.path.basename(fname), "figure name is that of the other galaxies",
                fname=fname)
    require(np.array_equal(rows, keep), "the target table was modified")
    axes = [a for a in f.get_axes() if a.lines or a.collections]
    label = "subhalos" if is_sat else "host"
    rec.label(f"{kind} {fig}")
    if fig == "res":
        require(len(axes) == 4, "number of panels", n=len(axes))
        for ax, tp in zip(axes, PANELS):
            require(label in ax.get_title() and f"{tp:.1f}" in ax.get_title(), "panel title",
                    title=ax.get_title())
            curves = [ln for ln in ax.lines if len(ln.get_xdata()) == NT]
            require(len(curves) == 15, "number of curves in a panel", n=len(curves))
            for m in MASSES[is_sat, fig]:
                ih = np.argmin(np.abs(rows["t_obs"] - tp) + np.abs(rows["lgm_obs"] - m))
                rec.nontrivial(ih > 0)
                r = rows[ih]
                rec.count(NT)
                take(curves, r["t_table"], predict(r)[0] - r["mean_log_mah"],
                     f"{kind}: no residual curve is prediction minus target of a bin")
        return
    require(len(axes) == 1, "number of panels", n=len(axes))
    ax = axes[0]
    require(label in ax.get_title().replace("\\", "") and f"z={fig[1]}" in ax.get_title(), "title",
            title=ax.get_title())
    sel = rows[rows["t_obs"] > 13.5] if fig == "z0" else rows[np.abs(rows["t_obs"] - 3) < 0.5]
    require(len(ax.lines) == 12 and len(ax.collections) == 3, "number of curves and bands")
    lines, bands = list(ax.lines), [c.get_paths()[0].vertices for c in ax.collections]
    for i, m in enumerate(MASSES[is_sat, fig]):
        ih = np.argmin(np.abs(sel["lgm_obs"] - m))
        rec.nontrivial(ih > 0)
        r = sel[ih]
        mu, sd = predict(r)
        want = [r["mean_log_mah"], mu, mu - sd, mu + sd]
        what = ["target mean", "predicted mean", "lower edge", "upper edge"]
        for w, x in zip(want, what):
            rec.count(NT)
            take(lines, r["t_table"], w, f"{kind}: no curve is the {x} of a bin")
        lo, hi = r["mean_log_mah"] - r["std_log_mah"], r["mean_log_mah"] + r["std_log_mah"]
        for j, v in enumerate(bands):
            y = [v[np.abs(v[:, 0] - t) < 1e-9, 1] for t in r["t_table"]]
            if all(len(x) and abs(x.min() - a) < 1e-6 and abs(x.max() - b) < 1e-6
                   for x, a, b in zip(y, lo, hi)):
                bands.pop(j)
                break
        else:
            require(False, f"{kind}: no band is the scatter of the target of a bin")


def take(lines, x, y, msg):
    """Removes the line with these data, whatever the order of drawing"""
    for j, ln in enumerate(lines):
        a, b = np.asarray(ln.get_xdata(), "f8"), np.asarray(ln.get_ydata(), "f8")
        if a.shape == x.shape and np.abs(a - x).max() < 1e-5 and np.abs(b - y).max() < 1e-4:
            lines.pop(j)
            return
    require(False, msg, want=y)


SUBS = [
    Sub("panels", strat(["z0", "z2"]), check, quick=48, thorough=1500, shards=2,
        cover=[{"sat": s, "fig": f} for s in (False, True) for f in ("z0", "z2")]),
    Sub("residuals", strat(["res"]), check, quick=16, thorough=400, shards=2,
        cover=[{"sat": s} for s in (False, True)]),
]
