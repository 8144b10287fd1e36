"""C30: profiles read from tables and nrattle control files, and written to tables."""

import os
import pathlib
import tempfile

import numpy as np
import pandas as pd

from mc.common import G, lin_soil, nl_soil
from pystrata import site, tools

ASSUMPTIONS = ["nrattle layers are numbered from one, blank-separated; depths and velocities in km and km/s, densities in g/cm3"]

ROWS = [(5.0, 200.0, 18.0, 0.02, "fill"), (10, 350, 19.5, 0.015, "sand"), (7.25, 280.0, 17, 0, "clay"), (20.0, 600.0, 21.0, 0.01, "till")]
HS = (0.0, 1100.0, 23.0, 0.005, "rock")


def verify(ch, p, rows, where, rtol=1e-9):
    ch.same(len(p), len(rows), f"{where}: number of layers")
    z = 0.0
    for i, (l, (h, v, uw, d, name)) in enumerate(zip(p, rows)):
        ch.close([l.thickness, l.initial_shear_vel, l.shear_vel, l.unit_wt, l.depth], [h, v, v, uw, z], f"{where}: layer {i}", rtol=rtol, atol=1e-12)
        ch.close([l.damping_min, l.damping], [d, d], f"{where}: damping of layer {i}", rtol=rtol, atol=1e-15)
        ch.close(l.density, uw / G, f"{where}: density of layer {i}", rtol=rtol)
        ch.same(l.soil_type.name, name, f"{where}: name of layer {i}")
        ch.check(not l.soil_type.is_nonlinear, f"{where}: linear layer {i}")
        z += h


def tables(ch):
    n = ch.all("layers", [0, 1, 2, 4])
    rows = []
    for i in range(n):
        h, v, uw, d, name = ROWS[i]
        r = ch.choose(f"row{i}", ["as is", "as above", "thin", "soft", "damped", "no name", "odd name", "damping only", "unit weight only", "velocity only", "thickness only"])
        if r != "as is" and r.split()[-1] in ("above", "only") and i:
            # The row above, but for one of its values
            above = rows[ch.choose(f"like{i}", list(range(i))[::-1])]
            h = h if r == "thickness only" else above[0]
            v = v if r == "velocity only" else above[1]
            uw = uw if r == "unit weight only" else above[2]
            d = d if r == "damping only" else above[3]
            name = above[4]
        rows.append((h if r != "thin" else 0.01, v if r != "soft" else 90.0, uw, d if r != "damped" else 0.12, {"no name": "", "odd name": "  Sand, Medium-dense "}.get(r, name)))
    rows.append(ch.choose("half-space", [HS, (0, 2000, 22, 0, "rock"), (12.0, 900.0, 22.0, 0.01, "hs")]))
    names = ch.choose("names", [True, False])
    order = ch.choose("columns", [0, 1, 2])
    index = ch.choose("index", ["range", "reversed", "letters", "equal", "from one"])
    extra = ch.choose("further columns", [False, True])
    wt = ch.choose("water table", [None, 0, 4.5])
    df = pd.DataFrame(rows, columns=["thickness", "vel_shear", "unit_wt", "damping", "name"])
    if not names:
        df = df.drop(columns="name")
        rows = [r[:4] + ("",) for r in rows]
    if extra:
        df["vel_comp"] = 5000.0
        df.insert(0, "depth", -1.0)
        df["shear_vel"] = 1.0
    cols = list(df.columns)
    df = df[cols[::-1] if order == 1 else sorted(cols) if order == 2 else cols]
    m = len(df)
    df.index = {"range": range(m), "reversed": range(m)[::-1], "letters": list("abcdefgh")[:m], "equal": [7] * m, "from one": range(1, m + 1)}[index]
    before = df.copy()
    p = site.Profile.from_dataframe(df) if wt is None else site.Profile.from_dataframe(df, wt)
    ch.check(df.equals(before), "table unchanged")
    verify(ch, p, rows, "from a table")
    ch.close(p.wt_depth, wt or 0, "water table", rtol=0)
    ch.op()
    strain = ch.choose("strain", [None, 1e-3])
    kind = ch.choose("soil types", ["as read", "nonlinear"])
    if kind == "nonlinear":
        p = site.Profile([site.Layer(nl_soil(f"n{i}", 17.0 + i), r[0], r[1]) for i, r in enumerate(rows)])
    if strain:
        for l in p:
            l.strain = strain
    out = p.to_dataframe()
    ch.same(sorted(out.columns), sorted(["soil_type", "unit_wt", "damping", "thickness", "shear_vel", "depth"]), "columns")
    ch.same(len(out), len(rows), "rows")
    ch.same(list(out.index), list(range(len(rows))), "index")
    ch.close(out["thickness"].to_numpy(float), [r[0] for r in rows], "thickness", rtol=1e-12)
    ch.close(out["depth"].to_numpy(float), np.r_[0, np.cumsum([r[0] for r in rows])[:-1]], "depth", rtol=1e-12)
    ch.close(out["shear_vel"].to_numpy(float), [float(l.shear_vel) for l in p], "velocity", rtol=1e-12)
    ch.close(out["unit_wt"].to_numpy(float), [l.unit_wt for l in p], "unit weight", rtol=1e-12)
    ch.same(list(out["soil_type"]), [l.soil_type.name for l in p], "soil types")
    ch.check(all(a is l.soil_type.damping or a == l.soil_type.damping for a, l in zip(out["damping"], p)), "damping")
    ch.op()
    if kind == "as read" and not strain:
        back = site.Profile.from_dataframe(out.rename(columns=dict(soil_type="name", shear_vel="vel_shear")), p.wt_depth)
        verify(ch, back, rows, "and back")
        ch.op()
    ch.state(rows, strain, kind)


NR = [(0.005, 0.25, 1.9, 0.04), (0.0125, 0.4, 2.0, 0.02), (0.1, 1.0, 2.25, 0.0), (0.5, 2.2, 2.4, 0.005)]


def damping(iq):
    if iq == 0:
        return 0.0
    return 0.5 * iq if iq <= 1 else 0.5 / iq


def nrattle(ch):
    n = ch.all("layers", [1, 2, 3, 4])
    fmt = ch.choose("format", ["{:12.4E}", " {:.6f}", " {:g}"])
    rows = []
    for i in range(n):
        h, v, rho, _ = NR[i]
        iq = ch.choose(f"inverse quality {i}", [NR[i][3], 0.0, 40.0, 12.5, 1.0, 0.1, 5.0, 1.25, 0.9, 0.5, 0.005, 2e-4, 5000.0])
        h = ch.choose(f"h{i}", [h, 0.002, 1.0])
        rows.append((h, v, rho, iq))
    hs = ch.choose("half-space", [(3.5, 2.72), (1.1, 2.2), (3.0, 2.5), (4, 3)])
    head = ch.choose("header", [(400, 50.0, 0.0), (1, 0.5, 0.0125), (2048, 25, 3.0)])
    hs_layer = ch.choose("layer of the half-space", [n + 1, 9999])
    angle = ch.choose("angle", [0.0, 45.0, -1.0])
    depth_col = ch.choose("depth column", [True, False])
    comments = ch.choose("comments", ["some", "none", "everywhere"])
    arg = ch.choose("end", ["newline", "trailer"])
    num = lambda x: fmt.format(float(x))
    hs_text = f"    {hs[0]} {hs[1]}"
    lines = ["   09/09/11", "  stem_name", f"   {head[0]}    {head[1]}", f"    {head[2]}"]
    z = 0.0
    for i, (h, v, rho, iq) in enumerate(rows):
        z += h
        lines.append(f"  {i + 1:3d} " + num(h) + num(v) + num(rho) + num(iq) + (num(z) if depth_col else ""))
    lines += [hs_text, f"   {hs_layer}  {angle}"]
    if comments == "everywhere":
        lines = [x for s in lines for x in ("!  comment 1 2 3", s)]
    elif comments == "some":
        lines = ["!Control file", "! text"] + lines[:4] + ["!For each layer"] + lines[4:-2] + ["!  Halfspace", lines[-2], "! layer", lines[-1]]
    if arg == "trailer":
        lines += ["! the end", " 1 2 3 4 5"]
    fd, name = tempfile.mkstemp(prefix="mc30", suffix=".ctl")
    try:
        with os.fdopen(fd, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        ctl = tools.read_nrattle_ctl(pathlib.Path(name))
    finally:
        os.unlink(name)
    exact = [tuple(float(fmt.format(x)) for x in r) for r in rows]
    ch.same((ctl["revision"].strip(), ctl["prefix"].strip()), ("09/09/11", "stem_name"), "revision and stem")
    ch.same((ctl["freq_count"], ctl["freq_max"], ctl["out_depth"]), head, "frequencies and depth")
    ch.same((ctl["hs_layer"], ctl["inci_angle"]), (hs_layer, angle), "half-space and angle")
    ch.same((ctl["hs_vel_shear"], ctl["hs_density"]), hs, "properties of the half-space")
    ch.same(len(ctl["profile"]), n, "number of layers")
    for name, k in (("thickness", 0), ("vel_shear", 1), ("density", 2), ("inv_qual", 3)):
        ch.close(ctl["profile"][name], [r[k] for r in exact], name, rtol=1e-12)
    ch.same(list(ctl["profile"]["layer"]), list(range(1, n + 1)), "numbers of the layers")
    p = tools.profile_from_nrattle_ctl(ctl)
    exp = [(1000 * h, 1000 * v, G * rho, damping(iq), "") for h, v, rho, iq in exact] + [(0.0, 1000 * hs[0], G * hs[1], 0.0, "")]
    verify(ch, p, exp, "profile")
    ch.same(p.wt_depth, 0, "water table")
    again = tools.profile_from_nrattle_ctl(ctl)
    verify(ch, again, exp, "profile, again")
    ch.op(3)
    ch.state(exp)


def words(ch):
    """Pieces of lines."""
    sep = ch.all("separator", [" ", ",", "  "])
    pad = ch.all("padding", ["", " ", "   "])
    k = ch.all("number", [1, 2, 4])
    vals = [3, 2.5, -1e-3, 7][:k]
    parsers = [int, float, float, int][:k]
    text = (pad if sep != "," else "") + sep.join(str(v) for v in vals) + (pad if sep != "," else "")
    got = tools.split_line(text, parsers, " " if sep != "," else ",")
    ch.same(got, vals if k > 1 else vals[0], f"pieces of {text!r}")
    # fixed columns, several lines
    lines = ["  1 2.50abc", "  2-1.00 d \n"]
    got = tools.parse_fixed_width(2 * [(3, int), (5, tools.to_float), (3, tools.to_str)], lines)
    ch.same(got, [1, 2.5, "abc", 2, -1.0, "d"], "columns")
    ch.same(lines, [], "lines are consumed")
    ch.op(2)
    ch.state(text)


SECTIONS = [("tables", tables, {"quick": 2, "thorough": 3}), ("nrattle", nrattle, {"quick": 2, "thorough": 3}), ("words", words, 0)]
