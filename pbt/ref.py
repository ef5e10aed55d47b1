"""Independent float64 reference models, written with numpy/scipy only."""

import numpy as np

MAH_K = 3.5
BOUNDS = dict(
    logm0=(0.0, 17.0),
    logtc=(-1.0, 1.0),
    early_index=(0.1, 10.0),
    late_index=(0.1, 5.0),
    t_peak=(0.05, 20.0),
)
PNAMES = list(BOUNDS)


def expit(x):
    # written to work for complex arguments too (complex-step derivatives)
    x = np.asarray(x)
    pos = np.real(x) >= 0
    z = np.exp(np.where(pos, -x, x))
    return np.where(pos, 1.0 / (1.0 + z), z / (1.0 + z))


def sigmoid(x, x0, k, ylo, yhi):
    return ylo + (yhi - ylo) * expit(k * (x - x0))


def inverse_sigmoid(y, x0, k, ylo, yhi):
    return x0 + (np.log(y - ylo) - np.log(yhi - y)) / k


def sig_slope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + sigmoid(x, x0, k, lo, hi) * (x - xtp)


def log_mah_free(logm0, logtc, early, late, t, logt0):
    """Rolling power law without the freeze at t_peak."""
    lgt = np.log10(t)
    return logm0 + sigmoid(lgt, logtc, MAH_K, early, late) * (lgt - logt0)


def log_mah(p, t, logt0):
    """p: dict of scalars or arrays broadcastable against t."""
    teff = np.where(np.real(t) < np.real(p["t_peak"]), t, p["t_peak"])
    return log_mah_free(p["logm0"], p["logtc"], p["early_index"], p["late_index"], teff, logt0)


def dmhdt_free(logm0, logtc, early, late, t, logt0):
    """d(10**log_mah_free)/dt in Msun/yr, differentiated by hand."""
    lgt = np.log10(t)
    s = expit(MAH_K * (lgt - logtc))
    idx = early + (late - early) * s
    didx = (late - early) * MAH_K * s * (1 - s)
    dlgm_dlgt = idx + didx * (lgt - logt0)
    return 10 ** (logm0 + idx * (lgt - logt0)) * dlgm_dlgt / t / 1e9


def dmhdt(p, t, logt0):
    r = dmhdt_free(p["logm0"], p["logtc"], p["early_index"], p["late_index"], t, logt0)
    return np.where(np.real(t) > np.real(p["t_peak"]), 0.0, r)


def column(halos, name):
    return np.array([h[name] for h in halos], dtype="f8")


def stack(halos, axis=True):
    """dict of column vectors (n,1) from a list of halo dicts"""
    return {k: column(halos, k).reshape((-1, 1)) if axis else column(halos, k) for k in PNAMES}
