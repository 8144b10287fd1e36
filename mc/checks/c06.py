"""C06: looking up locations by depth and by index."""

import numpy as np

from mc.common import lin_soil
from mc.ref import sh
from pystrata import output, site
from pystrata.motion import WaveField

ASSUMPTIONS = ["thicknesses are dyadic, so that interface depths are exact", "depths are not negative"]
FIELDS = ["outcrop", "within", "incoming_only"]


def lookup(ch):
    n = ch.all("n_soil", [0, 1, 2, 3, 4])
    pat = ch.all("layers", ["distinct", "equal", "equal to half-space", "alternating"])
    rock_h = ch.all("half-space thickness", [0.0, 4.0])
    wt = ch.all("wt", [0, 3.0])
    how = ch.choose("build", ["list", "append", "edit thickness", "edit layers list"])
    st = lin_soil("a", 18.0, 0.02)
    thick = {"distinct": [2.0, 5.0, 0.5, 8.0], "equal": [2.0] * 4, "equal to half-space": [4.0] * 4,
             "alternating": [2.0, 0.25, 2.0, 0.25]}[pat][:n]
    vels = [300.0] * n if pat != "distinct" else [200.0, 250.0, 300.0, 350.0][:n]
    layers = [site.Layer(st, h, v) for h, v in zip(thick, vels)] + [site.Layer(st, rock_h, 300.0)]
    if how == "list":
        p = site.Profile(layers, wt)
    elif how == "append":
        p = site.Profile(wt_depth=wt)
        for l in layers:
            p.append(l)
    elif how == "edit thickness":
        p = site.Profile(layers, wt)
        for i in range(n):
            p[i].thickness = thick[i] + 1.0
        for i in range(n):
            p[i].thickness = thick[i]
    else:
        p = site.Profile([layers[-1]], wt)
        p.layers[:0] = layers[:-1]  # lookup refreshes the depths itself
    tops = np.r_[0.0, np.cumsum(thick)]
    total = tops[-1]
    kind = ch.all("by", ["depth", "index", "output depth", "output index"])
    field = ch.choose("field", FIELDS)
    enum = ch.choose("enum", [False, True])
    wf = WaveField[field] if enum else field
    if "depth" in kind:
        cands = sorted({0.0, *tops.tolist(), *(t / 2 for t in tops.tolist()),
                        *(t + 0.125 for t in tops.tolist()), *(np.nextafter(t, 0) for t in tops.tolist() if t > 0),
                        total + 0.5, total + 4.0, total + 100.0})
        d = ch.all("depth", cands)
        i = max(j for j in range(n + 1) if tops[j] <= d) if d < total else n
        z = d - tops[i]
        if how == "edit layers list":
            p.update_layers()
        arg = dict(depth=d)
        if kind == "depth":
            got_i, got_z = p.lookup_depth(d)
            ch.op()
            ch.same(int(got_i), i, f"layer index at depth {d}")
            ch.close(got_z, z, f"depth within the layer at depth {d}", rtol=1e-12, atol=1e-12)
    else:
        k = ch.all("index", list(range(-(n + 1), n + 1)))
        i, z = k % (n + 1), 0.0
        arg = dict(index=k)
        p.update_layers()
    if kind.startswith("output"):
        ol = output.OutputLocation(wf, **arg)
        loc = ol(p)
        ch.check(ol.wave_field == WaveField[field], "wave field of the output location")
        if "depth" in arg:
            ch.check(ol.depth == arg["depth"], "depth of the output location")
        # the same output location applied to another profile is looked up anew
        q = site.Profile([site.Layer(st, 1.0, 300.0), site.Layer(st, 0, 300.0)])
        if "depth" in arg or -2 <= arg["index"] < 2:
            qi = int(arg["depth"] >= 1.0) if "depth" in arg else arg["index"] % 2
            l2 = ol(q)
            ch.check(l2.layer is q[qi] and l2.index == qi, "output location reused on another profile")
        loc = ol(p)
    else:
        loc = p.location(wf, **arg)
    ch.op()
    ch.same(int(loc.index), i, f"index of location({arg})")
    ch.check(loc.layer is p[i], f"layer of location({arg})")
    ch.close(loc.depth_within, z, f"depth_within of location({arg})", rtol=1e-12, atol=1e-12)
    ch.check(loc.wave_field == WaveField[field], "wave field")
    if i < n or z <= rock_h:
        stress = sum(t * 18.0 for t in thick[:i]) + z * 18.0
        ch.close(loc.stress_vert(), stress, "total stress at the location", rtol=1e-12, atol=1e-9)
        u = max(tops[i] + z - wt, 0) * sh.G
        ch.close(loc.stress_vert(effective=True), stress - u, "effective stress at the location", rtol=1e-9, atol=1e-9)
    ch.state(i, z, field)


def invalid(ch):
    """Neither or both of depth and index: refused, never a wrong place."""
    p = site.Profile([site.Layer(lin_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    kw = ch.all("args", [{}, dict(depth=1.0, index=0), dict(index=2), dict(index=-3)])
    try:
        loc = p.location("within", **kw)
    except Exception:
        ch.op()
        ch.state(repr(kw))
        return
    ch.fail(f"location({kw}) returned {loc!r}")


def unknown_field(ch):
    p = site.Profile([site.Layer(lin_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    f = ch.all("field", ["Within", "", "surface", None])
    try:
        loc = p.location(f, index=0)
    except Exception:
        ch.op()
        ch.state(repr(f))
        return
    ch.fail(f"wave field {f!r} accepted: {loc!r}")


def edited(ch):
    """Every sequence of edits with lookups in between: a lookup sees the profile as it is."""
    st = lin_soil("a", 18.0, 0.02)
    same = ch.all("equal layers", [False, True])
    mk = lambda h: site.Layer(st, h, 300.0 if same else 100.0 + 10 * h)
    p = site.Profile([mk(h) for h in (2.0, 5.0, 1.0)] + [site.Layer(st, 0.0, 900.0)])
    ol = output.OutputLocation("within", depth=4.0)
    for step in range(4 if ch.thorough else 3):
        op = ch.all(f"op{step}", ["none", "swap", "rotate", "replace", "replace list", "pop", "insert", "append", "thickness", "copy", "list insert"])
        if op == "none":
            break
        ls = p.layers
        if op == "swap":
            ls[0], ls[1] = ls[1], ls[0]
        elif op == "rotate":
            ls[:-1] = ls[1:-1] + ls[:1]
        elif op == "replace":
            ls[0] = mk(3.0 + step)
        elif op == "replace list":
            p.layers = [mk(h + 0.5) for h in (1.0, 2.0, 4.0, 8.0)][: len(ls) - 1] + [site.Layer(st, 0.0, 800.0)]
        elif op == "pop":
            if len(ls) < 2:
                ch.prune()
            ls.pop(0)
        elif op == "insert":
            p.insert(min(1, len(ls) - 1), mk(0.75))
        elif op == "list insert":
            ls.insert(0, mk(1.5))
        elif op == "append":
            p.append(site.Layer(st, 0.0, 950.0 + step))
            if p[-2].thickness == 0:
                p[-2].thickness = 6.0
        elif op == "thickness":
            if p[0] is p[-1]:
                ch.prune()
            p.update_layers()
            p[0].thickness = p[0].thickness + 1.25
        else:
            p = p.copy()
        tops = np.r_[0.0, np.cumsum([l.thickness for l in p][:-1])]
        n = len(tops) - 1
        for d in (0.0, 0.5, 3.5, 4.0, 6.125, 7.9, 12.0, 40.0):
            i = max(j for j in range(n + 1) if tops[j] <= d) if d < tops[-1] else n
            gi, gz = p.lookup_depth(d)
            ch.same((int(gi), float(gz)), (i, float(d - tops[i])), f"after step {step} {op}: lookup of {d}")
            loc = ol(p) if d == 4.0 else p.location("within", depth=d)
            ch.check(loc.layer is p[i] and loc.index == i, f"after step {step} {op}: layer at {d}")
            ch.close(loc.depth_within, d - tops[i], f"after step {step} {op}: depth within at {d}", rtol=1e-12, atol=1e-12)
            ch.op(2)
        for k in range(-(n + 1), n + 1):
            loc = p.location("outcrop", index=k)
            ch.check(loc.layer is p[k] and loc.index == k % (n + 1) and loc.depth_within == 0, f"after step {step} {op}: location at index {k}")
            ch.op()
        ch.state(op, tops)


SECTIONS = [("edited", edited, 0), ("lookup", lookup, 2), ("invalid", invalid, 0), ("unknown_field", unknown_field, 0)]
