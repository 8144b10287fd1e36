"""Published empirical models of modulus reduction and damping.

Written as one function of the strain in percent and of the stress in atmospheres per model.
"""

import math

import numpy as np

ATM = 101.325  # kPa


def masing(g_pct, ref_pct, curv, b, d_min):
    """Modulus reduction and damping [dec] of the modified hyperbolic model (Darendeli, 2001)."""
    mr, out, top = [], [], -math.inf
    for g in g_pct:
        m = 1 / (1 + (g / ref_pct) ** curv)
        mr.append(m)
        d1 = 100 / math.pi * (4 * (g - ref_pct * math.log((g + ref_pct) / ref_pct)) * (g + ref_pct) / g**2 - 2)
        c1 = -1.1143 * curv**2 + 1.8618 * curv + 0.2523
        c2 = 0.0805 * curv**2 - 0.0710 * curv - 0.0095
        c3 = -0.0005 * curv**2 + 0.0002 * curv + 0.0003
        top = max(top, b * (c1 * d1 + c2 * d1**2 + c3 * d1**3) * m**0.1)
        out.append(top / 100 + np.asarray(d_min))
    return np.array(mr), np.array(out)


def darendeli(g, pi, ocr, kpa, f, n, dmin):
    p = kpa / ATM
    if dmin is None:
        dmin = (0.8005 + 0.0129 * pi * ocr**-0.1069) * p**-0.2889 * (1 + 0.2919 * math.log(f)) / 100
    ref = (0.0352 + 0.0010 * pi * ocr**0.3246) * p**0.3483
    return masing(g, ref, 0.919, 0.6329 - 0.00566 * math.log(n), dmin)


def menq(g, cu, d50, kpa, n, dmin):
    p = kpa / ATM
    if dmin is None:
        dmin = 0.55 * cu**0.1 * d50**-0.3 * p**-0.08 / 100
    ref = 0.12 * cu**-0.6 * p ** (0.5 * cu**-0.15)
    return masing(g, ref, 0.86 + 0.1 * math.log10(p), 0.6329 - 0.00566 * math.log(n), dmin)


def rollins(g, kpa, cu, n, dmin):
    if dmin is None:
        dmin = 0.01
    ref = 0.0039 * kpa**0.42 if cu is None else 0.0046 * cu**-0.197 * kpa**0.52
    return masing(g, ref, 0.84, 0.53 - 0.0057 * math.log(n), dmin)


def two_param(g, kpa, a, b1, b2, g1, g2, d0, d1, d, c, gd1, gd2):
    p = kpa / ATM
    gm, gd = g1 * p**g2, gd1 * p**gd2
    dmin = d0 * p**d1
    mr = np.array([(1 + (x / gm) ** a) ** -(b1 + b2 * p) for x in g])
    dr = np.array([(d * (x / gd) ** c + dmin) / ((x / gd) ** c + 1) / 100 for x in g])
    return mr, dr


def alemu(g, pi, ocr, kpa, fc):
    p = kpa / ATM
    gm = 0.166 * ocr**-1.678 * p**0.196 + 0.025 * (pi + 1) ** 0.675
    mr = np.array([(1 + (x / gm) ** 0.905) ** -1.373 for x in g])
    dmin = (3.64e-4 * ocr * (pi + 1) + 0.012 * fc) / p
    gd = (ocr**-0.381 * p**0.853 + 0.021 * pi) ** 1.249
    dr = np.array([dmin + 0.29805 * (x / gd) / (1 + x / gd) ** 0.680 for x in g])
    return mr, dr


def kishida(g, kpa, oc, lcr):
    """Kishida et al. (2009): regressions on reference strain, stress and organic content."""
    x3 = 2 / (1 + math.exp(oc / 23))
    ref = math.exp(-1.41 - 0.950 * (x3 - 0.5))
    x2 = math.log(kpa)
    x4 = math.log(lcr)

    def ln_g(s):
        x1 = math.log(s + ref)
        slope = 0.37 / math.log((1 + s) / ref)
        w = 1 + (math.log(ref) + 2.5) / math.log((1 + s) / ref)
        return (5.11 - 0.729 * x1 + (1 - 0.37 * 0.5 * w) * x2 - 0.693 * x3 + (0.8 - 0.4 * x3) * x4
                + slope * 0.5 * (x1 + 2.5) * (x2 - 4) - 0.37 * w * (x2 - 4) * (x3 - 0.5)
                + slope * (x1 + 2.5) * (x2 - 4) * (x3 - 0.5))

    mr = np.exp(np.array([ln_g(s) for s in g]) - ln_g(g[0]))
    dr = []
    for m in mr:
        y = math.log(-math.log(m) + 0.103)
        dr.append(math.exp(2.86 + 0.571 * y - 0.103 * x2 - 0.141 * x3 + 0.0419 * (y + 1) * (x2 - 4)
                           - 0.240 * (x2 - 4) * (x3 - 0.5)) / 100)
    uw = math.exp(-0.112 + 0.038 * x2 + 0.360 * x3) * 9.80665
    return mr, np.array(dr), uw


# ---- Wang and Stokoe (2022).  Contents (FC, PI, w) in percent, as given to the models -------------------------
SAND, SILT, CLAY = "clean_sand_and_gravel", "nonplastic_silty_sand", "clayey_soil"
ORDER = {
    (SAND, "gmax"): ["stress_mean", "void_ratio", "diam_50", "coef_unif", "fines_cont"],
    (SAND, "mr"): ["stress_mean", "void_ratio", "coef_unif", "fines_cont"],
    (SAND, "dmin"): ["stress_mean", "fines_cont", "water_cont", "void_ratio", "diam_50"],
    (SAND, "d"): ["stress_mean", "void_ratio", "fines_cont", "coef_unif"],
    (SILT, "gmax"): ["stress_mean", "void_ratio", "water_cont"],
    (SILT, "mr"): ["stress_mean", "void_ratio", "fines_cont"],
    (SILT, "dmin"): ["stress_mean", "void_ratio", "fines_cont"],
    (SILT, "d"): ["stress_mean", "void_ratio", "fines_cont"],
    (CLAY, "gmax"): ["stress_mean", "void_ratio", "ocr", "fines_cont", "plas_index"],
    (CLAY, "mr"): ["stress_mean", "void_ratio", "fines_cont", "ocr", "plas_index"],
    (CLAY, "dmin"): ["stress_mean", "void_ratio", "plas_index", "fines_cont"],
    (CLAY, "d"): ["stress_mean", "water_cont", "plas_index", "fines_cont"],
}


def _lvl(group, what, kw):
    n = 0
    for k in ORDER[group, what]:
        if k not in kw:
            break
        n += 1
    v = dict(kw)
    for k in ("fines_cont", "plas_index", "water_cont"):
        if k in v:
            v[k] = v[k] / 100
    return n - 1, v["stress_mean"] / ATM, v


def wang_gmax(group, kw):
    n, p, v = _lvl(group, "gmax", kw)
    e, D, cu, fc, w, ocr, pi = (v.get(k) for k in ("void_ratio", "diam_50", "coef_unif", "fines_cont", "water_cont", "ocr", "plas_index"))
    return {
        SAND: [lambda: 108.4 * p**0.51, lambda: 67.5 * e**-0.86 * p**0.5,
               lambda: 66.5 * e ** (-0.75 - (0.009 * D) ** 1.58) * p**0.51,
               lambda: 64.3 * cu**-0.21 * e ** (-1.08 - (0.09 * D) ** 0.51) * p ** (0.47 * cu**0.06),
               lambda: 63.9 * cu**-0.21 * e ** (-1.12 - (0.09 * D) ** 0.54) * p ** (0.48 * cu**0.08 - 1.03 * fc)],
        SILT: [lambda: 89.1 * p**0.51, lambda: 59.2 * e**-0.74 * p**0.51,
               lambda: 84.8 * e**-0.53 * (1 - 1.32 * w) * p**0.52],
        CLAY: [lambda: 77.2 * p**0.48, lambda: 52.3 * e**-1.08 * p**0.4,
               lambda: 18.9 * e**-0.97 * (4.5 + ocr) ** 0.54 * p**0.48,
               lambda: 34 * e**-0.8 * (3.13 + ocr) ** 0.53 * (1 - 0.46 * fc) * p**0.51,
               lambda: 232.9 * (1 + 0.96 * e) ** -2.42 * (1.92 + ocr) ** (0.27 + 0.46 * pi) * (1 - 0.44 * fc) * p**0.49],
    }[group][n]()


def wang_mr(g, group, kw):
    n, p, v = _lvl(group, "mr", kw)
    e, cu, fc, ocr, pi = (v.get(k) for k in ("void_ratio", "coef_unif", "fines_cont", "ocr", "plas_index"))
    a, b, gm = {
        SAND: [lambda: (0.729, 0.985, 0.068 * p**0.4), lambda: (0.804, 0.882, (0.13 * e**0.545 - 0.043) * p**0.45),
               lambda: (0.834, 0.839, (0.05 * e ** (0.1 * cu) + 0.011) * p**0.45),
               lambda: (0.834 + fc, 0.844 - 1.897 * fc, (0.048 * e ** (0.089 * cu) + 0.008) * p**0.4)],
        SILT: [lambda: (1.04, 0.438 - 0.007 * p, 0.011 * p**0.318),
               lambda: (1.139 * math.exp(0.093 * e), 0.475 - 0.007 * p, (0.029 * e - 0.003) * p**0.335),
               lambda: ((1.495 * e + 3.079 * fc) ** 0.121, 0.486 - 0.006 * p, (0.031 * e - 0.003) * p ** (0.405 - 0.193 * fc))],
        CLAY: [lambda: (1.364, 0.28, 0.015 * p**0.205), lambda: (1.185, 0.475, 0.035 * e * p**0.276),
               lambda: (0.966 + 0.378 * fc, 0.596 - 0.207 * fc, (0.031 * e + 0.004 * fc) * p**0.25),
               lambda: (0.972 + 0.419 * fc, 0.571 - 0.2 * fc, (0.025 * e + 0.0015 * fc) * (p + 0.375 * ocr) ** 0.358),
               lambda: (0.896 + 0.412 * fc + 0.534 * pi, 0.586 - 0.098 * e - 0.135 * fc,
                        (0.02 * e + 0.004 * fc) * (p + 0.42 * ocr) ** (0.447 - 0.27 * pi))],
    }[group][n]()
    return np.array([(1 + (x / gm) ** a) ** -b for x in g])


def wang_dmin(group, kw):
    n, p, v = _lvl(group, "dmin", kw)
    e, D, fc, w, pi = (v.get(k) for k in ("void_ratio", "diam_50", "fines_cont", "water_cont", "plas_index"))
    return {
        SAND: [lambda: 0.77 * p**-0.03, lambda: 0.55 * (1 + 29.03 * fc) * p**-0.13,
               lambda: 0.64 * (0.26 - w) ** 0.11 * (1 + 32.8 * fc) * p**-0.12,
               lambda: 0.55 * (1 - w) ** (-12.49 + 19.45 * e) * (1 + 23.44 * fc) * p**-0.14,
               lambda: 0.6 * (0.99 + w) ** (7.45 - 15.23 * e + 4.29 * D) * (1 + 21.17 * fc) * p**-0.14],
        SILT: [lambda: 1.47 * p**-0.2, lambda: 39.11 * (0.44 * e) ** (4.32 * e) * p**-0.19,
               lambda: 52.16 * (0.41 * e) ** (0.81 * fc + 5.2 * e) * (1 + 5.35 * fc) * p**-0.19],
        CLAY: [lambda: 2.55 * p**-0.11, lambda: 7.62 * 13.48**-e * p**-0.29 + 0.72**-e,
               lambda: 7.29 * 8 ** (-e - 3.31 * pi) * (1 + 148 * pi**1.95) * p**-0.2 + (0.5 * pi) ** (2.54 - 1.8 * e),
               lambda: 4.86 * (1.99 + fc) ** (-1.91 * e - 6.5 * pi) * (1 + 106.75 * pi**1.64) * p**-0.19
               + (0.46 * pi) ** (1.73 - 1.34 * e)],
    }[group][n]() / 100


def wang_d(g, group, dmin, kw):
    n, p, v = _lvl(group, "d", kw)
    if dmin is None:
        dmin = wang_dmin(group, kw)
    e, cu, fc, w, pi = (v.get(k) for k in ("void_ratio", "coef_unif", "fines_cont", "water_cont", "plas_index"))
    c, d, gd = {
        SAND: [lambda: (0.93, 15.64, 0.09 * p**0.32), lambda: (1.08 * math.exp(0.62 - 0.73 * e), 16.39, 0.09 * p**0.39),
               lambda: (1.02 * math.exp(0.56 - 0.72 * e), 21.17, 0.13 * (p + 17.94 * fc) ** (0.45 - fc)),
               lambda: (0.93 * math.exp(0.34 - 0.8 * e), 18.13, 0.13 * cu**-0.31 * (p + 22.04 * fc) ** (0.47 - fc))],
        SILT: [lambda: (1.187, 13.125, 0.045 * p**0.293), lambda: (1.38 * math.exp(0.25 * e), 12.09, 0.0066 * (p + 5.79 * e) ** 1.01),
               lambda: (1.39 * math.exp(0.27 * e), 12.13, 0.0025 * (p + 5.73 * e + 9.17 * fc) ** (1.47 - 0.52 * fc))],
        CLAY: [lambda: (1.12, 19.47, 0.11 * p**0.23), lambda: (1.36, 15.16, 0.29 * (0.017 * p + w) ** (1.15 + w)),
               lambda: (1.48 ** (0.53 + pi), 15.61, 0.07 * (0.06 * p + 2.69 * w) ** (1.06 + w - pi)),
               lambda: ((1.91 * fc) ** (1.62 * pi), 21.7, 0.11 * (0.12 * p + 5.29 * w - fc) ** (1.45 - pi + w - 1.09 * fc))],
    }[group][n]()
    return np.array([(d * (x / gd) ** c + 100 * dmin) / ((x / gd) ** c + 1) / 100 for x in g])
