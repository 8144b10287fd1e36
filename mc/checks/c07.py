"""C07: profile geometry and stresses stay consistent under every edit sequence."""

import numpy as np

from mc.common import lin_soil, nl_soil
from mc.ref import sh
from pystrata import site

ASSUMPTIONS = ["layers belong to one profile only", "thicknesses are positive (half-space: zero or more)"]

SOILS = [lin_soil("a", 18.0, 0.02), lin_soil("b", 21.5, 0.01), nl_soil("c", 16.0)]


class Model:
    def __init__(self):
        self.layers = []  # [soil index, thickness, velocity]
        self.wt = 0.0


def damp(x):
    return x[3] if len(x) > 3 else SOILS[x[0]].damping_min


def verify(ch, p, m, where):
    n = len(m.layers)
    ch.same(len(p), n, f"{where}: number of layers")
    depth = stress = 0.0
    tops, strs = [], []
    for i, (si, h, v, *_) in enumerate(m.layers):
        l = p[i]
        uw = SOILS[si].unit_wt
        ch.check(l.soil_type is SOILS[si], f"{where}: soil type of layer {i}")
        ch.close(l.thickness, h, f"{where}: thickness of layer {i}", rtol=1e-12)
        ch.close(l.initial_shear_vel, v, f"{where}: velocity of layer {i}", rtol=1e-12)
        ch.close(l.depth, depth, f"{where}: depth of layer {i}", rtol=1e-10, atol=1e-10)
        ch.close(l.depth_mid, depth + h / 2, f"{where}: mid-depth of layer {i}", rtol=1e-10, atol=1e-10)
        ch.close(l.depth_base, depth + h, f"{where}: base of layer {i}", rtol=1e-10, atol=1e-10)
        ch.close(l.unit_wt, uw, f"{where}: unit weight {i}")
        ch.close(l.density, uw / sh.G, f"{where}: density {i}", rtol=1e-12)
        for z in (0.0, h / 2, h):
            tot = stress + z * uw
            u = max(depth + z - m.wt, 0.0) * sh.G
            ch.close(l.stress_vert(z), tot, f"{where}: total stress {z} m into layer {i}", rtol=1e-10, atol=1e-9)
            ch.close(l.stress_vert(z, effective=True), tot - u, f"{where}: effective stress {z} m into layer {i}",
                     rtol=1e-10, atol=1e-9)
            for k0 in (0.5, 0.3, 1.0):
                ch.close(l.stress_mean(z, effective=True, k0=k0), (1 + 2 * k0) / 3 * (tot - u),
                         f"{where}: mean effective stress k0={k0} {z} m into layer {i}", rtol=1e-10, atol=1e-9)
            ch.close(l.stress_mean(z), 2 / 3 * tot, f"{where}: mean total stress", rtol=1e-10, atol=1e-9)
            ch.close(p.pore_pressure(depth + z), u, f"{where}: pore pressure", rtol=1e-12, atol=1e-12)
        ch.same(p.index(l), i, f"{where}: index of layer {i}")
        tops.append(depth)
        strs.append(stress)
        depth += h
        stress += h * uw
    ch.same([id(l) for l in p], [id(p[i]) for i in range(n)], f"{where}: iteration order")
    hs = np.array([x[1] for x in m.layers], float)
    vs = np.array([x[2] for x in m.layers], float)
    uws = np.array([SOILS[x[0]].unit_wt for x in m.layers])
    for attr, ref in [("depth", np.array(tops)), ("thickness", hs), ("depth_mid", np.array(tops) + hs / 2),
                      ("initial_shear_vel", vs), ("shear_vel", vs), ("slowness", 1 / vs), ("unit_wt", uws),
                      ("density", uws / sh.G), ("travel_time", hs / vs),
                      ("damping", np.array([damp(x) for x in m.layers]))]:
        ch.close(getattr(p, attr), ref, f"{where}: profile.{attr}", rtol=1e-9, atol=1e-10)
    ch.close(p.site_attenuation(), float(np.sum(2 * hs / vs * [damp(x) for x in m.layers])),
             f"{where}: site attenuation", rtol=1e-9)
    ch.state([tuple(x) for x in m.layers], m.wt)


def edits(ch, starts=("two", "empty", "equal layers", "single"), depths=(3, 4), restructure=False):
    start = ch.all("start", list(starts))
    m = Model()
    m.wt = ch.choose("wt", [0.0, 2.5, 7.0, 1000.0, -1.0])
    if start == "two":
        m.layers = [[0, 4.0, 200.0], [1, 6.0, 300.0], [1, 0.0, 700.0]]
    elif start == "equal layers":
        m.layers = [[0, 4.0, 200.0], [0, 4.0, 200.0], [2, 3.0, 250.0], [0, 4.0, 200.0]]
    elif start == "single":
        m.layers = [[1, 0.0, 700.0]]
    elif start == "many":
        m.layers = [[i % 3, 1.0 + 0.1 * (i % 7), 150.0 + 10 * i] for i in range(40)] + [[1, 0.0, 900.0]]
    elif start == "many equal":
        m.layers = [[0, 2.0, 200.0] for _ in range(12)] + [[0, 0.0, 200.0]]
    mk = [site.Layer(SOILS[s], h, v) for s, h, v in m.layers]
    p = site.Profile(mk, m.wt) if mk else site.Profile(wt_depth=m.wt)
    if mk:
        verify(ch, p, m, "new")
    depth = depths[1] if ch.thorough else depths[0]
    olds = []
    for step in range(depth):
        n = len(m.layers)
        ops = [("stop",)]
        for spec in ([0, 4.0, 200.0], [2, 1.5, 150.0]):
            ops.append(("append", spec))
            for i in sorted({0, n // 2, n, -1} if n else {0}):
                ops.append(("insert", i, spec))
        for i in sorted({0, n - 1, n // 2}) if n else []:
            ops.append(("thickness", i, 9.25))
            ops.append(("thickness", i, 4))
            ops.append(("velocity", i, 333.0))
        if n:
            ops += [("wt", 3.0), ("update",), ("update", n - 1), ("copy",), ("reset",), ("strain-reset",),
                    ("discretize",)]
        if restructure and n:
            for i in sorted({0, n - 1, n // 2}):
                if n > 1:
                    ops.append(("remove", i))
                ops.append(("replace", i, [2, 1.5, 150.0]))
                ops.append(("damping", i, 0.04))
            ops += [("reverse",), ("swap", 0, n - 1), ("extend",)]
        op = ch.all(f"op{step}", ops)
        where = f"after step {step} {op}"
        if op[0] == "stop":
            break
        ch.op()
        if op[0] == "append":
            p.append(site.Layer(SOILS[op[1][0]], op[1][1], op[1][2]))
            m.layers.append(list(op[1]))
        elif op[0] == "insert":
            p.insert(op[1], site.Layer(SOILS[op[2][0]], op[2][1], op[2][2]))
            m.layers.insert(op[1], list(op[2]))
        elif op[0] == "thickness":
            p[op[1]].thickness = op[2]
            m.layers[op[1]][1] = float(op[2])
        elif op[0] == "velocity":
            p[op[1]].initial_shear_vel = op[2]
            m.layers[op[1]][2] = op[2]
        elif op[0] == "remove":
            gone = p.layers.pop(op[1])
            p.update_layers()
            m.layers.pop(op[1])
            ch.check(not any(l is gone for l in p), "the removed layer is gone")
        elif op[0] == "replace":
            p.layers[op[1]] = site.Layer(SOILS[op[2][0]], op[2][1], op[2][2])
            p.update_layers(op[1])
            m.layers[op[1]] = list(op[2])
        elif op[0] == "damping":
            p[op[1]].damping_min = op[2]
            m.layers[op[1]][3:] = [op[2]]
        elif op[0] == "reverse":
            p.layers.reverse()
            p.update_layers()
            m.layers.reverse()
        elif op[0] == "swap":
            i, j = op[1:]
            p.layers[i], p.layers[j] = p.layers[j], p.layers[i]
            p.update_layers()
            m.layers[i], m.layers[j] = m.layers[j], m.layers[i]
        elif op[0] == "extend":
            p.layers = p.layers + [site.Layer(SOILS[1], 2.0, 800.0)]
            p.update_layers()
            m.layers.append([1, 2.0, 800.0])
        elif op[0] == "wt":
            p.wt_depth = op[1]
            m.wt = op[1]
        elif op[0] == "update":
            p.update_layers(*op[1:])
        elif op[0] == "copy":
            import copy as _c

            olds.append((p, _c.deepcopy(m)))
            p = p.copy()
        elif op[0] == "reset":
            p.reset_layers()
        elif op[0] == "strain-reset":
            for l in p:
                l.strain = 1e-3
            p.reset_layers()
        elif op[0] == "discretize":
            # linear soil layers thin enough for the frequency: nothing is split
            import copy as _c

            olds.append((p, _c.deepcopy(m)))
            p = p.auto_discretize(max_freq=1e-3)
        verify(ch, p, m, where)
        for q, qm in olds:
            verify(ch, q, qm, where + " (the profile it was copied from)")


def restructure(ch):
    """Also removing, replacing, reversing and exchanging layers."""
    edits(ch, ("two", "equal layers"), (2, 3), True)


def large(ch):
    edits(ch, ("many", "many equal"), (1, 2), True)


SECTIONS = [("restructure", restructure, 0), ("large", large, 0), ("edits", edits, dict(quick=0, thorough=0)), ("edits_water", edits, dict(quick=None, thorough=1))]
