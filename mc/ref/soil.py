"""Reference models of the nonlinear curves (log-linear interpolation, clamped)."""

import numpy as np


def interp_curve(strains, values, strain, limits):
    """Piecewise linear in ln(strain), constant outside, clipped to limits."""
    x = np.log(np.asarray(strains, float))
    y = np.asarray(values, float)
    q = np.log(np.maximum(1e-9, np.asarray(strain, float)))
    out = np.empty(np.shape(q))
    it = np.ndenumerate(np.atleast_1d(q))
    flat = []
    for _, qq in it:
        if qq <= x[0]:
            v = y[0]
        elif qq >= x[-1]:
            v = y[-1]
        else:
            j = 0
            while x[j + 1] < qq:
                j += 1
            w = (qq - x[j]) / (x[j + 1] - x[j])
            v = y[j] + w * (y[j + 1] - y[j])
        flat.append(min(max(v, limits[0]), limits[1]))
    out = np.array(flat).reshape(np.shape(q))
    return float(out) if out.ndim == 0 else out
