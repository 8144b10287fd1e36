"""C19: nonlinear curves: interpolation, limits, redefinition, published curves; material properties of soil types."""

import pathlib

import numpy as np
import tomli

from mc.common import G, lin_soil, nl_soil
from mc.ref.soil import interp_curve
from pystrata import site

ASSUMPTIONS = ["the strains of a curve ascend and are positive", "strains below 1e-9 are taken as 1e-9",
               "the values of the published database itself are not compared with the publications, only their form"]

AXES = [[1e-6, 1e-5, 1e-4, 1e-3, 1e-2], [1e-5, 1e-2], (1e-4, 2e-4, 9e-2, 0.5, 1), np.array([1e-8, 1e-3, 1e-1]),
        [1e-10, 1e-9, 1e-2], [1e-4, 25.0], [0.5, 2.0, 40]]
VALUES = {"mod_reduc": [[1.0, 0.98, 0.8, 0.35, 0.08], [1, 0], [0.95, 0.95, 0.2], [1.2, 0.9, 0.3, 1e-4, -1e-3], [0.3, 0.8, 0.1]],
          "damping": [[0.01, 0.012, 0.03, 0.11, 0.22], [0, 1], [0.05, 0.05, 0.3], [-0.02, 0.1, 0.3, 0.5, 0.7], [0.3, 0.1, 0.2]]}
QUERY = [0.0, -1e-3, 1e-12, 1e-9, 2e-9, 1e-8, 3e-7, 1e-6, 1e-5, 1.7e-5, 1e-4, 1.1e-4, 1e-3, 3.3e-3, 1e-2, 0.05, 0.1, 0.7, 1, 5, 1.3, 9.0, 30.0, 200.0, 2.0]
LIMITS = {"mod_reduc": (0.001, 1), "damping": (0, 0.49)}
CLS = {"mod_reduc": site.ModulusReductionCurve, "damping": site.DampingCurve}


def verify(ch, c, xs, ys, lim, where):
    exp = [interp_curve(xs, ys, q, lim) for q in QUERY]
    for q, e in zip(QUERY, exp):
        got = c(q)
        ch.check(np.ndim(got) == 0, f"{where}: a number for a number, got {got!r}")
        ch.close(got, e, f"{where}: value at strain {q}", rtol=1e-10, atol=1e-13)
        ch.op()
    ch.close(c(np.array(QUERY)), exp, f"{where}: array of strains", rtol=1e-10, atol=1e-13)
    ch.close(c(QUERY[::-1]), exp[::-1], f"{where}: list of strains", rtol=1e-10, atol=1e-13)
    ch.close(c(np.array(QUERY).reshape(5, 5)), np.reshape(exp, (5, 5)), f"{where}: table of strains", rtol=1e-10, atol=1e-13)
    ch.close(c.strains, np.asarray(xs, float), f"{where}: strains", rtol=0)
    ch.close(c.values, np.asarray(ys, float), f"{where}: values", rtol=0)
    ch.check(c.strains.dtype.kind == "f" and c.values.dtype.kind == "f", f"{where}: real numbers")
    ch.op(3)
    ch.state(exp)


def curve(ch):
    """Sequences of redefinitions, every state of the curve being compared at all query strains."""
    param = ch.all("param", ["mod_reduc", "damping"])
    pairs = [(x, y) for x in AXES for y in VALUES[param] if len(x) == len(y)]
    xs, ys = ch.all("curve", pairs)
    limits = ch.all("limits", [None, (0.2, 0.6), (0, 1)])
    lim = LIMITS[param] if limits is None else limits
    kw = {} if limits is None else dict(limits=limits)
    c = CLS[param]("n", xs, ys, **kw)
    ch.check(c.name == "n" and c.param == param, "name and parameter")
    verify(ch, c, xs, ys, lim, "new")
    depth = 3 if ch.thorough else 2
    for k in range(depth):
        op = ch.all(f"op{k}", ["end", "strains", "values", "both, strains first", "both, values first"])
        if op == "end":
            break
        if op == "strains":
            xs = ch.all("to", [a for a in AXES if len(a) == len(ys)])
            c.strains = xs
        elif op == "values":
            ys = ch.all("to", [v for v in VALUES[param] if len(v) == len(xs)])
            c.values = ys
        else:
            n = ch.all("to", [2, 3, 5])
            xs = [a for a in AXES if len(a) == n][-1]
            ys = [v for v in VALUES[param] if len(v) == n][-1]
            if op.endswith("strains first"):
                c.strains = xs
                c.values = ys
            else:
                c.values = ys
                c.strains = xs
        verify(ch, c, xs, ys, lim, f"after {op}")


def owned(ch):
    """A curve keeps its values when the caller's arrays change afterwards, and two curves are independent."""
    param = ch.all("param", ["mod_reduc", "damping"])
    how = ch.all("how", ["constructor", "setter"])
    xs, ys = np.array([1e-5, 1e-3, 1e-1]), np.array([0.1, 0.2, 0.3])
    x0, y0 = xs.copy(), ys.copy()
    c = CLS[param]("n", xs, ys)
    d = CLS[param]("n", xs, ys)
    if how == "setter":
        c.strains = xs
        c.values = ys
    xs *= 2
    ys += 0.3
    verify(ch, c, x0, y0, LIMITS[param], "after the arrays changed")
    d.values = y0 + 0.1
    verify(ch, c, x0, y0, LIMITS[param], "after the other curve changed")
    verify(ch, d, x0, y0 + 0.1, LIMITS[param], "other curve")


def table(ch):
    """Values per strain and frequency: one result per column."""
    m = ch.all("columns", [1, 2, 4])
    xs = [1e-5, 1e-3, 1e-1]
    ys = np.array([0.01, 0.05, 0.2])[:, None] + 0.01 * np.arange(m)[None, :]
    c = site.DampingCurve("n", xs, ys)
    for q in QUERY:
        got = np.asarray(c(q))
        ch.close(got, [interp_curve(xs, ys[:, i], q, (0, 0.49)) for i in range(m)], f"at {q}", rtol=1e-10)
        ch.op()
    ch.state(m)


def published(ch):
    path = pathlib.Path(site.__file__).parent / "data" / "published_curves.toml"
    models = tomli.loads(path.read_text(encoding="utf8"))["models"]
    names = [m["name"] for m in models]
    ch.check(len(set(names)) == len(names), "names are unique")
    ch.same(list(site.known_published_curves()), names, "known curves")
    i = ch.all("model", list(range(len(models))))
    m = models[i]
    ch.op()
    for param in ("mod_reduc", "damping"):
        if param not in m:
            try:
                site.NonlinearCurve.from_published(m["name"], param)
            except KeyError:
                continue
            ch.fail(f"{m['name']} has no {param}")
        xs, ys = np.array(m[param]["strains"], float), np.array(m[param]["values"], float)
        ch.check(len(xs) == len(ys) and len(xs) > 3, "one value per strain")
        ch.check(np.all(np.diff(xs) > 0) and 1e-7 < xs[0] < 1e-5 and 1e-3 < xs[-1] < 0.5, f"strains in decimal, ascending: {xs}")
        if param == "mod_reduc":
            ch.check(np.all((ys > 0) & (ys <= 1)) and ys[0] > 0.9, f"modulus reductions: {ys}")
            ch.check(np.all(np.diff(ys) <= 0.005), f"decreasing modulus: {ys}")
        else:
            ch.check(np.all((ys > 0) & (ys < 0.49)) and ys[0] < 0.06, f"damping ratios in decimal: {ys}")
            ch.check(np.all(np.diff(ys) >= -0.005), f"increasing damping: {ys}")
        c = site.NonlinearCurve.from_published(m["name"], param)
        ch.check(type(c) is CLS[param] and c.name == m["name"] and c.param == param, "type and name")
        verify(ch, c, xs, ys, LIMITS[param], m["name"])
        # a change of one does not reach the database
        c.values = ys * 0.5
        verify(ch, site.NonlinearCurve.from_published(m["name"], param), xs, ys, LIMITS[param], "again")
    other = models[0]
    if "mod_reduc" in m and "damping" in m:
        s = site.SoilType.from_published("soil", 19.0, m["name"])
        ch.check(s.name == "soil" and s.unit_wt == 19.0 and s.is_nonlinear, "soil type")
        ch.close(s.mod_reduc.values, m["mod_reduc"]["values"], "modulus reduction", rtol=0)
        ch.close(s.damping.values, m["damping"]["values"], "damping", rtol=0)
        s = site.SoilType.from_published("soil", 19.0, m["name"], other["name"])
        ch.close(s.mod_reduc.values, m["mod_reduc"]["values"], "modulus reduction", rtol=0)
        ch.close(s.damping.values, other["damping"]["values"], "damping of the other model", rtol=0)
        ch.close(s.damping.strains, other["damping"]["strains"], "damping of the other model", rtol=0)
        ch.op(2)
    ch.state(i)


def soil_types(ch):
    mr = ch.all("mod_reduc", [False, True])
    dk = ch.all("damping", ["number", "zero", "int", "curve", "numpy"])
    uw = ch.all("unit_wt", [18.0, 22, 15.5])
    d = {"number": 0.03, "zero": 0.0, "int": 1, "curve": site.DampingCurve("d", [1e-6, 1e-2], [0.013, 0.2]), "numpy": np.float64(0.02)}[dk]
    g = site.ModulusReductionCurve("g", [1e-6, 1e-2], [1, 0.2]) if mr else None
    s = site.SoilType("s", uw, g, d)
    for t, what in ((s, "soil"), (s.copy(), "copy")):
        dm = 0.013 if dk == "curve" else d
        ch.close(t.density, uw / G, f"{what}: density", rtol=1e-12)
        ch.close(t.unit_wt, uw, f"{what}: unit weight", rtol=0)
        ch.close(t.damping_min, dm, f"{what}: minimum damping", rtol=0)
        if dm:
            ch.close(t.quality, 1 / (2 * dm), f"{what}: quality", rtol=1e-12)
        ch.check(t.is_nonlinear == (mr or dk == "curve"), f"{what}: nonlinear {t.is_nonlinear}")
        ch.check(t.mod_reduc is g and t.damping is d and t.name == "s", f"{what}: curves and name")
        ch.op(5)
    ch.state(mr, dk, uw)


SECTIONS = [("curve", curve, 0), ("owned", owned, 0), ("table", table, 0), ("published", published, 0), ("soil_types", soil_types, 0)]
