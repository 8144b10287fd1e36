"""C03: results do not depend on whether the optional compiler (numba) is available."""

import numpy as np

import pystrata
from mc import common, twin
from mc.checks.c01 import FIELDS
from mc.common import D_STRAINS, D_VALUES, FREQS, MR_STRAINS, MR_VALUES, pulse
from mc.ref import sh

_TWIN = twin.load_without_numba()
assert _TWIN.site is not pystrata.site and not _TWIN.propagation.HAS_NUMBA

ASSUMPTIONS = ["the copy without numba is the same source imported with numba hidden",
               "tolerance 1e-9 of the largest amplitude"]


def kernels(ps):
    return ps


def mk_profile(ps, layers, wt=0):
    out = []
    for kind, uw, damp, h, v, dm in layers:
        if kind == "nl":
            st = ps.site.SoilType("nl", uw, ps.site.ModulusReductionCurve("g", MR_STRAINS, MR_VALUES),
                                  ps.site.DampingCurve("d", D_STRAINS, D_VALUES))
        else:
            st = ps.site.SoilType("lin", uw, None, damp)
        out.append(ps.site.Layer(st, h, v, dm))
    return ps.site.Profile(out, wt)


def mk_motion(ps, name, amp):
    if name == "ts":
        return ps.motion.TimeSeriesMotion("m", "", 0.02, pulse(32, 0.02, amp))
    if name == "ts0":
        return ps.motion.TimeSeriesMotion("m", "", 0.02, pulse(1, 0.02, amp))
    f = {"rvt": FREQS, "rvt-desc": FREQS[::-1], "rvt-tiny": np.array([0.0, 1e-9, 1e-6, 0.5, 5.0])}[name]
    return ps.motion.RvtMotion(f, amp * f / (1 + f**2), duration=5.0)


def layers_of(ch):
    n = ch.all("n_soil", [2, 1, 0])
    out = []
    for i in range(n):
        out.append((ch.choose(f"kind{i}", ["nl", "lin"]), 18.0,
                    ch.choose(f"damp{i}", [0.02, 0.0, 0.8]),
                    ch.choose(f"h{i}", [8.0, 0.02, 300.0]),
                    ch.choose(f"v{i}", [200.0, 900.0, 60.0]), None))
    out.append((ch.choose("rock", ["lin", "nl"]), 22.0, ch.choose("dr", [0.01, 0.0]), ch.choose("hr", [0.0, 5.0]),
                ch.choose("vr", [900.0, 200.0]), None))
    return out


def linear(ch):
    layers = layers_of(ch)
    mname = ch.choose("motion", ["rvt", "ts", "rvt-desc", "rvt-tiny"])
    din = ch.choose("in", ["rock", "surface", "mid", "below"])
    fin = ch.choose("in.field", ["outcrop", "within", "incoming_only"])
    res = []
    for ps in (pystrata, _TWIN):
        p = mk_profile(ps, layers)
        m = mk_motion(ps, mname, 0.1)
        depth = {"surface": 0.0, "mid": p[-1].depth / 2, "below": p[-1].depth + 3.0}.get(din)
        lin = p.location(fin, index=-1) if din == "rock" else p.location(fin, depth=depth)
        calc = ps.propagation.LinearElasticCalculator()
        calc(m, p, lin)
        r = []
        for i, l in enumerate(p):
            for z in (0.0, l.thickness / 2):
                for f in FIELDS:
                    loc = ps.site.Location(i, l, f, z)
                    r.append((f"wave {i} {z} {f}", calc.wave_at_location(loc)))
                    r.append((f"tf {i} {z} {f}", calc.calc_accel_tf(lin, loc)))
                loc = ps.site.Location(i, l, "within", z)
                r.append((f"strain {i} {z}", calc.calc_strain_tf(lin, loc)))
                r.append((f"stress {i} {z}", calc.calc_stress_tf(lin, loc, True)))
        res.append(r)
    for (what, a), (_, b) in zip(*res):
        ch.op()
        a, b = np.asarray(a), np.asarray(b)
        big = np.abs(b) > 1e6 * (1 + np.median(np.abs(b)))
        ch.check(a.dtype == b.dtype, f"{what}: dtype {a.dtype} with numba, {b.dtype} without")
        fin = np.isfinite(b) & np.isfinite(a) & ~big
        ch.check(np.array_equal(np.isfinite(a), np.isfinite(b)), what + ": finite with and without numba")
        ch.close(a[fin], b[fin], what + " (numba vs. plain)", rtol=1e-8, scale="max")
    ch.state([r[1] for r in res[0]])


def nonlinear(ch):
    layers = layers_of(ch)
    if len(layers) < 2:
        ch.prune()
    mname = ch.choose("motion", ["rvt", "ts"])
    amp = ch.choose("amp", [0.1, 0.001, 0.5])
    kind = ch.all("calc", ["EQL", "ka02", "zr15", "ko:20"])
    res = []
    for ps in (pystrata, _TWIN):
        p = mk_profile(ps, layers)
        m = mk_motion(ps, mname, amp)
        lin = p.location("outcrop", index=-1)
        pr = ps.propagation
        calc = pr.EquivalentLinearCalculator() if kind == "EQL" else pr.FrequencyDependentEqlCalculator(kind)
        try:
            calc(m, p, lin)
        except RuntimeError as e:
            res.append([("error", str(e))])
            continue
        r = [("strain", [np.asarray(l.strain) for l in p[:-1]]), ("mod", [l.shear_mod for l in p]),
             ("damp", [l.damping for l in p]), ("max", [l.strain_max for l in p[:-1]]),
             ("tf", calc.calc_accel_tf(lin, p.location("outcrop", index=0)))]
        res.append(r)
    ch.op()
    ch.same([r[0] for r in res[0]], [r[0] for r in res[1]], "outcome with numba and without")
    if res[0][0][0] != "error":
        for (what, a), (_, b) in zip(*res):
            if isinstance(a, list):
                for x, y in zip(a, b):
                    ch.close(x, y, what, rtol=1e-6, scale="max")
            else:
                ch.close(a, b, what, rtol=1e-6, scale="max")
    ch.state([r[1] for r in res[0]])


def qwl(ch):
    layers = layers_of(ch)
    if len(layers) < 2:
        ch.prune()
    meth = ch.all("method", ["standard", "ba23"])
    res = []
    for ps in (pystrata, _TWIN):
        p = mk_profile(ps, layers)
        m = mk_motion(ps, "rvt", 0.1)
        calc = ps.propagation.QuarterWaveLenCalculator(site_atten=0.03, method=meth)
        try:
            calc(m, p, p.location("outcrop", index=-1))
            res.append((calc.crustal_amp, calc.site_term))
        except RuntimeError as e:
            res.append(str(e))
    ch.op()
    ch.same(type(res[0]), type(res[1]), "outcome with numba and without")
    if isinstance(res[0], tuple):
        for a, b in zip(*res):
            ch.close(a, b, "site amplification", rtol=1e-9)
    ch.state(res[0])


def average(ch):
    """The depth average, for every short list of thicknesses and depth of interest."""
    if not hasattr(pystrata.propagation, "my_trapz"):
        return ch.op()
    n = ch.all("n", [1, 2, 3, 4])
    t = np.array([ch.all(f"t{i}", [2.0, 0.5, 3.0] if n < 4 else [2.0, 0.5]) for i in range(n)])
    p = np.array([ch.all(f"p{i}", [1.0, 3.0]) for i in range(n)])
    cum = np.cumsum(t)
    depth = ch.all("depth", [0.25] + cum.tolist() + (cum - 0.1).tolist() + [cum[-1] + 5.0])
    ref, top = 0.0, 0.0
    for i in range(n):
        base = cum[i] if i < n - 1 else max(depth, cum[i])
        ref += max(0.0, min(depth, base) - top) * p[i]
        top = base
    a = pystrata.propagation.my_trapz(t, p, depth)
    b = _TWIN.propagation.my_trapz(t, p, depth)
    ch.op(2)
    ch.close(a, ref / depth, "average (numba)", rtol=1e-12)
    ch.close(b, ref / depth, "average (plain)", rtol=1e-12)
    ch.state(a)


def warm():
    from mc.explore import execute

    execute(linear, [], 0, "quick")
    execute(average, [], 0, "quick")


SECTIONS = [
    ("linear", linear, dict(quick=2, thorough=3)),
    ("nonlinear", nonlinear, dict(quick=1, thorough=2)),
    ("qwl", qwl, dict(quick=2, thorough=3)),
    ("average", average, 0),
]
