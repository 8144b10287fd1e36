"""C20: empirical soil models give the published curves for every combination of their parameters."""

import itertools

import numpy as np

from mc.common import G
from mc.ref import empirical as emp
from pystrata import site

ASSUMPTIONS = ["coefficients are those of the publications cited by the documentation; contents of the Wang and Stokoe model are in percent",
               "strains ascend; parameters are within the range in which the regressions are defined"]
DEFAULT = np.logspace(-6, -1.5, num=20)
LIM = {"mod_reduc": (0.001, 1), "damping": (0, 0.49)}
STRAINS = [None, [1e-6, 1e-5, 3e-4, 2e-3, 1e-2], np.array([1e-7, 1e-4, 5e-2]), np.array([1e-4, 2e-4, 4e-4, 8e-4]),
           [1e-8, 1e-5, 0.01, 0.1, 0.5, 1.0]]


def curves(ch, st, strains, mr, dr, masing=False):
    x = DEFAULT if strains is None else np.asarray(strains)
    for c, v, p in ((st.mod_reduc, mr, "mod_reduc"), (st.damping, dr, "damping")):
        ch.close(c.strains, x, f"{p}: strains", rtol=1e-12)
        ch.close(c.values, v, f"{p}: values", rtol=1e-9, atol=1e-9)
        if np.ndim(v) == 1:
            ch.close(c(x), np.clip(v, *LIM[p]), f"{p}: at the strains", rtol=1e-8, atol=1e-9)
            m = 0.5 * (np.log(x[1]) + np.log(x[2]))
            ch.close(c(np.exp(m)), np.clip(0.5 * (v[1] + v[2]), *LIM[p]), f"{p}: between strains", rtol=1e-8, atol=1e-9)
        ch.op()
    # (extreme properties can take the regressions themselves out of their range)
    if np.all(np.diff(mr) <= 0) and np.all(np.asarray(mr) <= 1):
        ch.check(np.all(np.diff(st.mod_reduc.values) <= 1e-12) and np.all(st.mod_reduc.values <= 1 + 1e-12), "modulus does not increase")
    if masing:
        ch.check(np.all(np.diff(st.damping.values, axis=0) >= -1e-12), "damping does not decrease")
    ch.close(st.damping_min, dr[0], "minimum damping", rtol=1e-9, atol=1e-9)
    ch.state(mr, dr)


def common(ch, st, name, uw):
    ch.check(isinstance(st, site.SoilType) and st.is_nonlinear, "nonlinear soil type")
    ch.close(st.unit_wt, uw, "unit weight", rtol=1e-12)
    ch.close(st.density, uw / G, "density", rtol=1e-12)
    if name:
        ch.same(st.name, name, "name")


def given(ch, **options):
    """Keyword arguments; the first option of each is left to the default of the model."""
    kw, full = {}, {}
    for k, vals in options.items():
        v = ch.choose(k, ["#default"] + list(vals[1:]) if not isinstance(vals[0], dict) else vals)
        if isinstance(v, str) and v == "#default":
            full[k] = vals[0]
        else:
            kw[k] = full[k] = v
    return kw, full


def darendeli(ch):
    kw, f = given(ch, plas_index=[0, 15.0, 100, 30, 0.5, 250], ocr=[1, 4, 1.5, 16.0, 60], stress_mean=[101.3, 25.0, 101.325, 1620, 0.5, 6.0, 9e3],
                  freq=[1, 0.5, 10.0, 100, 0.05], num_cycles=[10, 1, 5, 1000.0, 0.5, 1e5], name=["", "given"], unit_wt=[0.0, 18.5, 20])
    dmin = ch.choose("damping_min", [None, 0.02, 0, np.array([0.01, 0.02, 0.05])])
    xs = ch.choose("strains", STRAINS)
    if dmin is not None:
        kw["damping_min"] = dmin.copy() if isinstance(dmin, np.ndarray) else dmin
    if xs is not None:
        kw["strains"] = xs
    st = site.DarendeliSoilType(**kw)
    g = 100 * (DEFAULT if xs is None else np.asarray(xs))
    mr, dr = emp.darendeli(g, f["plas_index"], f["ocr"], f["stress_mean"], f["freq"], f["num_cycles"], dmin)
    common(ch, st, f["name"], f["unit_wt"])
    curves(ch, st, xs, mr, dr, True)
    if isinstance(dmin, np.ndarray):
        ch.check(np.array_equal(kw["damping_min"], dmin), "the given minimum damping is not changed")
    pos = site.DarendeliSoilType(f["unit_wt"], f["name"], f["plas_index"], f["ocr"], f["stress_mean"], f["freq"], f["num_cycles"], dmin, xs)
    ch.close(pos.damping.values, dr, "arguments by position", rtol=1e-9, atol=1e-9)


def menq(ch):
    kw, f = given(ch, coef_unif=[10, 1.5, 50, 4.0, 1, 300.0], diam_mean=[5, 0.3, 20.0, 0.02, 150], stress_mean=[101.3, 25.0, 101.325, 1620, 0.5, 6.0, 9e3],
                  num_cycles=[10, 1, 1000.0, 0.5, 1e5], name=["", "given"], unit_wt=[0.0, 18.5, 20])
    dmin = ch.choose("damping_min", [None, 0.02, 0])
    xs = ch.choose("strains", STRAINS)
    if dmin is not None:
        kw["damping_min"] = dmin
    if xs is not None:
        kw["strains"] = xs
    st = site.MenqSoilType(**kw)
    g = 100 * (DEFAULT if xs is None else np.asarray(xs))
    mr, dr = emp.menq(g, f["coef_unif"], f["diam_mean"], f["stress_mean"], f["num_cycles"], dmin)
    common(ch, st, f["name"], f["unit_wt"])
    curves(ch, st, xs, mr, dr, True)


def rollins(ch):
    kw, f = given(ch, stress_mean=[101.3, 25.0, 1620, 0.5, 6.0, 9e3], coef_unif=[None, 1.5, 50, 7.0, 1, 300.0], num_cycles=[10, 1, 1000.0, 0.5, 1e5],
                  name=["", "given"], unit_wt=[0.0, 18.5, 20])
    dmin = ch.choose("damping_min", [None, 0.02, 0])
    xs = ch.choose("strains", STRAINS)
    if dmin is not None:
        kw["damping_min"] = dmin
    if xs is not None:
        kw["strains"] = xs
    st = site.RollinsEtAlSoilType(**kw)
    g = 100 * (DEFAULT if xs is None else np.asarray(xs))
    mr, dr = emp.rollins(g, f["stress_mean"], f["coef_unif"], f["num_cycles"], dmin)
    common(ch, st, f["name"], f["unit_wt"])
    curves(ch, st, xs, mr, dr, True)


def two_param(ch):
    kw, f = given(ch, name=["", "given"], unit_wt=[0, 18.5, 20], stress_mean=[101.3, 25.0, 700, 0.5, 6.0, 9e3])
    xs = ch.choose("strains", STRAINS)
    ck = ch.choose("coeffs", [None, "other"])
    c = (1.04, 0.438, -0.007, 0.011, 0.318, 1.47, -0.2, 13.125, 1.187, 0.11, 0.23)
    if ck:
        c = (0.9, 0.8, 0.01, 0.03, 0.4, 1.1, -0.1, 17.0, 0.95, 0.07, 0.31)
        kw["coeffs"] = site.TwoParamModifiedHyperbolicCoeffs(*c)
    if xs is not None:
        kw["strains"] = xs
    st = site.TwoParamModifiedHyperbolicSoilType(**kw)
    g = 100 * (DEFAULT if xs is None else np.asarray(xs))
    mr, dr = emp.two_param(g, f["stress_mean"], *c)
    common(ch, st, f["name"], f["unit_wt"])
    curves(ch, st, xs, mr, dr)


def alemu(ch):
    kw, f = given(ch, plas_index=[0.0, 12, 32.0], ocr=[1.0, 2, 9.1], stress_mean=[101.3, 10.0, 125], fines_cont=[1.0, 0.5, 0.8],
                  name=["", "given"], unit_wt=[0.0, 18.5, 20])
    xs = ch.choose("strains", STRAINS)
    if xs is not None:
        kw["strains"] = xs
    st = site.AlemuEtAlSoilType(**kw)
    g = 100 * (DEFAULT if xs is None else np.asarray(xs))
    mr, dr = emp.alemu(g, f["plas_index"], f["ocr"], f["stress_mean"], f["fines_cont"])
    common(ch, st, f["name"], f["unit_wt"])
    curves(ch, st, xs, mr, dr)


def kishida(ch):
    kw, f = given(ch, stress_vert=[101.3, 10.0, 400], organic_content=[10, 25.0, 60, 98], lab_consol_ratio=[1, 2.0, 4], name=["", "given"])
    uw = ch.choose("unit_wt", [None, 12.5, 11])
    xs = ch.choose("strains", STRAINS[:3])
    if uw is not None:
        kw["unit_wt"] = uw
    if xs is not None:
        kw["strains"] = xs
    st = site.KishidaSoilType(**kw)
    g = 100 * (DEFAULT if xs is None else np.asarray(xs))
    mr, dr, w = emp.kishida(g, f["stress_vert"], f["organic_content"], f["lab_consol_ratio"])
    common(ch, st, f["name"], w if uw is None else uw)
    curves(ch, st, xs, mr, dr)


RANGE = {"stress_mean": [100, 40.0, 900, 2.0, 9e3], "void_ratio": [0.6, 0.4, 1.1, 0.2, 3.0], "coef_unif": [5, 20.0, 1, 300], "diam_50": [0.5, 3.0, 0.05, 80],
         "fines_cont": [20, 30.0, 99, 1], "water_cont": [15, 25.0, 80, 1], "plas_index": [25, 8.0, 0.5, 90], "ocr": [2, 7.5, 1, 40]}
SANDS = {"fines_cont": [5, 12.0, 0], "void_ratio": [0.6, 0.4]}


def wang(ch):
    """Every subset of the index properties: the level is set by the leading ones that are given."""
    group = ch.all("group", [emp.SAND, emp.SILT, emp.CLAY])
    extra = sorted({k for (g, _), ks in emp.ORDER.items() if g == group for k in ks} - {"stress_mean"})
    kw = {"stress_mean": ch.choose("stress_mean", RANGE["stress_mean"])}
    for k in extra:
        if ch.all(f"give {k}", [True, False]):
            kw[k] = ch.choose(k, (SANDS if group == emp.SAND and k in SANDS else RANGE)[k])
    if ch.choose("unused", [False, True]):
        kw["ocr" if group != emp.CLAY else "coef_unif"] = 3.0
    order = ch.choose("order of the arguments", ["as listed", "reversed"])
    if order == "reversed":
        kw = dict(reversed(list(kw.items())))
    W = site.WangSoilType
    for model, what in (("gmax_model", "gmax"), ("ggmax_model", "mr"), ("dmin_model", "dmin"), ("damping_model", "d")):
        n = sum(1 for _ in itertools.takewhile(lambda k: k in kw, emp.ORDER[group, what])) - 1
        ch.same(W.get_level(model, group, **kw), n, f"level of {model}")
    ch.close(W.calc_shear_mod(group, **kw), emp.wang_gmax(group, kw), "shear modulus", rtol=1e-9)
    x = np.array([1e-6, 1e-4, 3e-3, 2e-2])
    with np.errstate(all="ignore"):
        try:
            dmin, mr = emp.wang_dmin(group, kw), emp.wang_mr(100 * x, group, kw)
            dr = emp.wang_d(100 * x, group, None, kw)
        except (ValueError, ZeroDivisionError):
            ch.prune()
    if isinstance(dmin, complex) or any(np.iscomplexobj(v) or not np.all(np.isfinite(v)) for v in (dr, mr)):
        ch.prune()
    ch.close(W.calc_damping_min(group, **kw), dmin, "minimum damping", rtol=1e-9, atol=1e-9)
    ch.close(W.calc_mod_reduc(x, group, **kw), mr, "modulus reduction", rtol=1e-9)
    ch.close(W.calc_damping(x, group, **kw), dr, "damping", rtol=1e-9)
    ch.close(W.calc_damping(x, group, 0.025, **kw), emp.wang_d(100 * x, group, 0.025, kw), "damping for a given minimum", rtol=1e-9)
    ch.op(8)
    own = ch.choose("damping_min", [None, 0.025, 0.0])
    xs = ch.choose("strains", STRAINS)
    skw = dict(kw, unit_wt=19.0)
    if own is not None:
        skw["damping_min"] = own
    if xs is not None:
        skw["strains"] = xs
    name = ch.choose("name", ["", "given"])
    st = W(group, name, **skw)
    g = 100 * (DEFAULT if xs is None else np.asarray(xs))
    # properties that none of the models uses are not looked at, others may also be given without effect
    used = {k for w in ("mr", "d") + (("dmin",) if own is None else ()) for k in emp.ORDER[group, w]}
    k2 = {k: v for k, v in kw.items() if k in used}
    common(ch, st, name, 19.0)
    ch.same(st.soil_group, group, "soil group")
    dd = own if own is not None else emp.wang_dmin(group, k2)
    curves(ch, st, xs, emp.wang_mr(g, group, k2), emp.wang_d(g, group, dd, k2))


def missing(ch):
    group = ch.all("group", [emp.SAND, emp.SILT, emp.CLAY, "rock"])
    kw = {} if group != "rock" else {"stress_mean": 100.0}
    try:
        site.WangSoilType(group, void_ratio=0.6, **kw)
    except (ValueError, KeyError):
        ch.op()
        ch.state(group)
        return
    ch.fail("accepted without stress, or for an unknown group")


SECTIONS = [("darendeli", darendeli, dict(quick=4, thorough=5)), ("menq", menq, dict(quick=4, thorough=6)), ("rollins", rollins, dict(quick=3, thorough=6)),
            ("two_param", two_param, 5), ("alemu", alemu, dict(quick=4, thorough=7)), ("kishida", kishida, dict(quick=4, thorough=6)),
            ("wang", wang, dict(quick=2, thorough=3)), ("missing", missing, 0)]
