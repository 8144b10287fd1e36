"""C05: automatic subdivision of layers."""

import math

import numpy as np

from mc.common import lin_soil, nl_soil, rvt_motion
from mc.ref import sh
from pystrata import propagation, site

ASSUMPTIONS = ["sublayer counts within 1e-9 of an exact multiple may be rounded either way"]


def snapshot(p):
    return [
        (id(l), id(l.soil_type), l.thickness, l.initial_shear_vel, l.damping_min, l.depth,
         np.asarray(l.shear_mod).tolist(), np.asarray(l.damping).tolist(), np.asarray(l.strain).tolist(),
         l.stress_vert(0)) for l in p
    ] + [p.wt_depth, len(p)]


def discretize(ch):
    n = ch.all("n_soil", [2, 1, 3, 0])
    spec, layers = [], []
    shared = ch.choose("shared soil", [False, True])
    st_shared = nl_soil("shared")
    for i in range(n):
        h = ch.choose(f"h{i}", [10.0, 2.0, 0.3, 7.3, 100, 4])
        v = ch.choose(f"v{i}", [500.0, 150.0, 333.3, 2500])
        kind = ch.choose(f"kind{i}", ["nl", "lin", "nl-mod", "nl-damp"])
        if kind == "nl":
            st = st_shared if shared else nl_soil("nl", 18.0)
        elif kind == "lin":
            st = lin_soil("lin", 19.0, 0.03)
        elif kind == "nl-mod":
            st = site.SoilType("m", 17.0, nl_soil().mod_reduc, 0.02)
        else:
            st = site.SoilType("d", 17.0, None, nl_soil().damping)
        dm = ch.choose(f"dm{i}", [None, 0.04])
        layers.append(site.Layer(st, h, v, dm))
        spec.append(dict(h=h, v=v, nl=kind != "lin", st=st, dm=layers[-1].damping_min))
    hr = ch.choose("hr", [0, 5.0])
    rk = ch.choose("rock", ["lin", "nl"])
    layers.append(site.Layer(lin_soil("rock", 24.0, 0.01) if rk == "lin" else nl_soil("r", 22.0), hr, 900.0))
    p = site.Profile(layers, ch.choose("wt", [0, 3.0]))
    strained = ch.choose("strain before", [None, 2e-3])
    if strained:
        for l in p:
            l.strain = strained
    kw = {}
    mf = ch.choose("max_freq", [None, 25.0, 100, 0.5])
    wf = ch.choose("wave_frac", [None, 1 / 3, 0.5])
    nlo = ch.choose("nonlinear_only", [None, False, True])
    if mf is not None:
        kw["max_freq"] = mf
    if wf is not None:
        kw["wave_frac"] = wf
    if nlo is not None:
        kw["nonlinear_only"] = nlo
    mf, wf, nlo = mf or 50.0, wf or 0.2, True if nlo is None else nlo
    before = snapshot(p)
    cur_vel = [l.shear_vel for l in p]
    q = p.auto_discretize(**kw)
    ch.op()
    ch.same(snapshot(p), before, "the original profile changed")
    ch.check(q is not p, "a new profile is returned")
    ch.same(q.wt_depth, p.wt_depth, "water table")
    mine = {id(l) for l in p}
    ch.check(not any(id(l) in mine for l in q), "the new profile shares layers with the original")
    # walk the new layers against the original ones
    j, depth, stress = 0, 0.0, 0.0
    for i, s in enumerate(spec):
        if s["nl"] or not nlo:
            ratio = s["h"] / (cur_vel[i] / mf * wf)
            lo = max(math.ceil(ratio - 1e-9), 1)
            hi = max(math.ceil(ratio + 1e-9), 1)
        else:
            lo = hi = 1
        cnt = 0
        while j + cnt < len(q) - 1 and q[j + cnt].depth < depth + s["h"] * (1 - 1e-9):
            cnt += 1
        ch.check(lo <= cnt <= hi, f"layer {i} is split into {cnt} sublayers, expected {lo}")
        for k in range(cnt):
            l = q[j + k]
            ch.close(l.thickness, s["h"] / cnt, f"thickness of sublayer {k} of layer {i}", rtol=1e-10)
            ch.close(l.depth, depth + k * s["h"] / cnt, f"depth of sublayer {k} of layer {i}", rtol=1e-9, atol=1e-9)
            ch.check(l.soil_type is s["st"], "soil type of the sublayer")
            ch.close(l.initial_shear_vel, s["v"], "velocity of the sublayer", rtol=1e-12)
            ch.close(l.damping_min, s["dm"], "minimum damping of the sublayer", rtol=1e-12)
            ch.close(l.stress_vert(0), stress + k * s["h"] / cnt * s["st"].unit_wt, "stress", rtol=1e-9, atol=1e-9)
            if s["nl"] or not nlo:
                ch.check(l.thickness <= wf * cur_vel[i] / mf * (1 + 1e-9), "sublayer too thick for the frequency")
        depth += s["h"]
        stress += s["h"] * s["st"].unit_wt
        j += cnt
    ch.same(len(q), j + 1, "number of layers")
    ch.check(q[-1].soil_type is p[-1].soil_type, "half-space soil type")
    ch.close(q[-1].initial_shear_vel, 900.0, "half-space velocity")
    ch.close(q[-1].thickness, hr, "half-space thickness")
    ch.close(q[-1].damping_min, p[-1].damping_min, "half-space damping")
    ch.close(q[-1].depth, depth, "half-space depth", rtol=1e-9)
    ch.state(q.thickness, q.initial_shear_vel)
    # the linear response is invariant
    if ch.choose("response", [False, True]):
        m = rvt_motion()
        ca, cb = propagation.LinearElasticCalculator(), propagation.LinearElasticCalculator()
        ca(m, p, p.location("outcrop", index=-1))
        cb(m, q, q.location("outcrop", index=-1))
        ch.op(2)
        d = 0.0
        for s in spec:
            ta = ca.calc_accel_tf(ca.loc_input, p.location("within", depth=d))
            tb = cb.calc_accel_tf(cb.loc_input, q.location("within", depth=d * (1 + 1e-12)))
            ch.close(tb, ta, f"transfer function to {d} m", rtol=1e-6, scale="max")
            d += s["h"]
    # independence: changing the new profile leaves the original alone
    if ch.choose("mutate", [False, True]):
        before = snapshot(p)
        for l in q:
            l.strain = 3e-3
            l.initial_shear_vel = 111.0
            l.damping_min = 0.2
        q[0].thickness = 55.0
        ch.op()
        ch.same(snapshot(p), before, "the original profile changed with its discretization")


SECTIONS = [("discretize", discretize, dict(quick=3, thorough=4))]
