"""C23: varied layering (Poisson process) and varied depth of the half-space."""

import math

import numpy as np

from mc.common import lin_soil, nl_soil, rvt_motion
from mc.rng import patched
from pystrata import propagation, site, variation

ASSUMPTIONS = ["random increments are answered by the explorer through numpy.random.exponential; a library that draws them in another "
               "way is only checked against the invariants of the layering", "varied depths are positive"]


def rate(c, d):
    """Cumulative number of interfaces expected down to depth d."""
    c1, c2, c3 = c
    return c3 * ((d + c1) ** (c2 + 1) - c1 ** (c2 + 1)) / (c2 + 1)


class Draws:
    """Enumerated increments of the Poisson process."""

    def __init__(self, ch, options):
        self.ch, self.options, self.made = ch, options, []

    def one(self):
        v = self.ch.choose(f"draw{len(self.made)}", self.options)
        self.made.append(v)
        if len(self.made) > 200:
            self.ch.fail("more than 200 layers")
        return v

    def __call__(self, scale=1.0, size=None):
        if size is None:
            return scale * self.one()
        return scale * np.array([self.one() for _ in range(int(np.prod(size)))]).reshape(size)


def layering(ch, total, c, draws, got):
    t = np.array([g[0] for g in got])
    mid = np.array([g[1] for g in got])
    base = np.cumsum(t)
    ch.check(len(t) > 0 and np.all(t > 0), f"thicknesses are positive: {t}")
    ch.close(base[-1], total, "total depth", rtol=1e-9)
    ch.close(mid, base - t / 2, "middle of the layers", rtol=1e-9, atol=1e-9)
    ch.op(len(t))
    if draws.made:
        e = np.cumsum(draws.made)
        n = len(t)
        ch.check(len(e) >= n, "one draw per layer")
        ch.close([rate(c, b) for b in base[:-1]], e[: n - 1], "depth of the interfaces", rtol=1e-7, atol=1e-9)
        ch.check(rate(c, total) <= e[n - 1] * (1 + 1e-9), f"last layer reaches the total depth: {rate(c, total)} {e[n - 1]}")
    ch.state(t)


INCR = [1.0, 0.2, 4.0, 0.7, 1e-3, 30.0]
PARAMS = [(10.86, -0.89, 1.98), (5.0, -0.5, 1.0), (2.0, 0.3, 0.1), (20.0, -0.95, 3.0)]


def toro(ch):
    c = ch.all("parameters", ["default"] + PARAMS[1:])
    total = ch.all("total", [20.0, 3.3, 50, 0.1])
    m = variation.ToroThicknessVariation() if c == "default" else variation.ToroThicknessVariation(*c)
    c = PARAMS[0] if c == "default" else c
    ch.same((m.c_1, m.c_2, m.c_3), c, "parameters")
    d = Draws(ch, INCR)
    with patched(exponential=d, standard_exponential=lambda size=None: d(1.0, size)):
        got = list(m.iter_thickness(total))
    layering(ch, total, c, d, got)


def exact(ch):
    """Increments that end exactly at, or just beside, the total depth."""
    c = PARAMS[0]
    total = ch.all("total", [10.0, 24.8, 26.2, 19.2, 100.1, 0.3])
    part = ch.all("part", [0.1, 0.2, 0.3, 1 / 3, 0.7, 0.999])
    end = ch.all("end", [1.0, 1 - 1e-12, 1 + 1e-12, 2.0])
    m = variation.ToroThicknessVariation()
    full = rate(c, total)
    seq = [full * part, full * end - full * part, 1.0, 1.0]
    d = Draws(ch, [0.0])
    d.one = lambda: (d.made.append(seq[len(d.made)]), d.made[-1])[1]
    with patched(exponential=d, standard_exponential=lambda size=None: d(1.0, size)):
        got = list(m.iter_thickness(total))
    base = np.cumsum([g[0] for g in got])
    ch.op()
    ch.close(base[-1], total, "total depth", rtol=1e-12)
    ch.check(all(g[0] > 0 for g in got), "thicknesses are positive")
    if d.made and end in (1.0, 2.0):
        ch.check(len(got) <= 3 and sum(g[0] > 1e-9 for g in got) == 2, f"layers: {got}")
        if end == 2.0:
            ch.check(len(got) == 2, f"a further layer after the total depth: {got}")
    ch.state(total, part, end)


def seed_profile(ch, n, hs, used, rock="lin"):
    soils = [nl_soil("n"), lin_soil("a", 20.0, 0.03), lin_soil("b", 21.0, 0.04)]
    v = [200.0, 320.0, 480.0]
    h = [6.0, 3.0, 9.0]
    dm = [0.021, 0.05, 0.06]
    p = site.Profile([site.Layer(soils[i], h[i], v[i], dm[i]) for i in range(n)]
                     + [site.Layer(lin_soil("r", 24.0, 0.01) if rock == "lin" else nl_soil("r", 24.0), hs, 1000.0, 0.007)], 4.0)
    if used:
        propagation.EquivalentLinearCalculator()(rvt_motion(fas=None), p, p.location("outcrop", index=-1))
    return p


def snap(p):
    return [(id(l), id(l.soil_type), l.thickness, l.initial_shear_vel, l.damping_min, l.depth, float(l.stress_vert(0)),
             np.asarray(l.shear_mod).tolist(), float(l.stress_vert(0, True))) for l in p] + [p.wt_depth]


def at(layers, z):
    """Layer at depth z of a list of (thickness, layer), the half-space being last."""
    top = 0.0
    for l in layers[:-1]:
        if top <= z < top + l.thickness:
            return l
        top += l.thickness
    return layers[-1]


def props(l):
    return (l.soil_type, l.initial_shear_vel, l.damping_min)


def fresh(ch, q, p, where):
    """Consistency of a varied profile: own layers, geometry, small-strain state."""
    z = s = 0.0
    for i, l in enumerate(q):
        ch.close([l.depth, l.stress_vert(0)], [z, s], f"{where}: depth and stress of layer {i}", rtol=1e-9)
        ch.close(l.shear_mod, l.density * l.initial_shear_vel**2, f"{where}: modulus of layer {i}", rtol=1e-12)
        ch.close(l.damping, l.damping_min, f"{where}: damping of layer {i}", rtol=1e-12)
        z += l.thickness
        s += l.thickness * l.unit_wt
    ch.check(all(a is not b for a in q for b in p), f"{where}: own layers")
    ch.close(q.wt_depth, p.wt_depth, f"{where}: water table", rtol=0)


def toro_profile(ch):
    n = ch.all("n_soil", [1, 2, 3])
    hs = ch.all("half-space", [0.0, 5.0])
    p = seed_profile(ch, n, hs, ch.all("used", [False, True]), ch.all("rock", ["lin", "nl"]))
    before = snap(p)
    m = variation.ToroThicknessVariation()
    for k in range(2 if ch.thorough else 1):
        d = Draws(ch, [2.0, 0.5, 8.0, 1.1])
        with patched(exponential=d, standard_exponential=lambda size=None: d(1.0, size)):
            q = m(p)
        ch.op()
        total = sum(l.thickness for l in p[:-1])
        layering(ch, total, PARAMS[0], d, [(l.thickness, l.depth_mid) for l in q[:-1]])
        for i, l in enumerate(q[:-1]):
            if min(abs(l.depth_mid - b.depth) for b in p) < 1e-9:
                continue  # in the middle of two layers
            e = at(p[:], l.depth_mid)
            ch.check(props(l) == props(e) and l.soil_type is e.soil_type, f"layer {i} at {l.depth_mid}: {l!r}, seed {e!r}")
        ch.check(props(q[-1]) == props(p[-1]), "half-space")
        fresh(ch, q, p, "varied")
        ch.same(snap(p), before, "seed profile")
        q[0].thickness = 99.0
        q[0].initial_shear_vel = 99.0
        q.append(q[-1].copy())
        ch.same(snap(p), before, "seed profile after edits of the varied one")


class Dist:
    def __init__(self, v):
        self.v = v

    def rvs(self, *a, **k):
        return self.v


DEPTHS = [2.0, 7.5, 6.0, 9.0, 18.0, 12.0, 18.1, 26.9, 27.0, 40.0, 0.01, 300]


def half_space(ch):
    n = ch.all("n_soil", [1, 2, 3])
    hs = ch.all("half-space", [0.0, 5.0])
    p = seed_profile(ch, n, hs, ch.all("used", [False, True]), ch.all("rock", ["lin", "nl"]))
    before = snap(p)
    old = sum(l.thickness for l in p[:-1])
    depth = 3 if ch.thorough else 2
    for k in range(depth):
        z = ch.all(f"depth{k}", DEPTHS)
        q = variation.HalfSpaceDepthVariation(Dist(z))(p)
        ch.op()
        ch.close(q[-1].depth, z, "depth of the half-space", rtol=1e-9)
        ch.check(props(q[-1]) == props(p[-1]), "properties of the half-space")
        ch.check(all(l.thickness >= 0 for l in q), "thicknesses")
        for x in (0.0, 1.0, 5.9, 6.1, 8.9, 9.1, 17.9, 18.2, 30.0, 200.0):
            if min(abs(x - l.depth) for l in q) < 1e-6:
                continue
            e = p[-1] if x > z else at(p[:], x) if x < old else p[-2]
            ch.check(props(at(q[:], x)) == props(e), f"layer at {x} m for a half-space at {z} m: {at(q[:], x)!r}, expected {e!r}")
        fresh(ch, q, p, "varied")
        ch.same(snap(p), before, "seed profile")
        ch.state(z, [l.thickness for l in q])
        if k == 0:
            q[-1].initial_shear_vel = 77.0
            q[0].thickness = 55.0
            ch.same(snap(p), before, "seed profile after edits of the varied one")


def reuse(ch):
    """One model serves several profiles, in any order, and profiles that are edited in between."""
    depth = 4 if ch.thorough else 3
    models = {"toro": variation.ToroThicknessVariation(), "default": variation.ToroThicknessVariation(*PARAMS[1])}
    seeds = [seed_profile(ch, 2, 0.0, False), seed_profile(ch, 3, 5.0, False), seed_profile(ch, 1, 0.0, True)]
    seen = []
    for k in range(depth):
        what = ch.all(f"op{k}", ["toro", "default", "half-space", "thicker", "faster", "more"])
        i = ch.all(f"profile{k}", [0, 1, 2] if ch.thorough or k < 2 else [0, 1])
        p = seeds[i]
        if what == "thicker":
            p[0].thickness += 2.5
            p.update_layers()
            continue
        if what == "faster":
            p[-2].initial_shear_vel *= 1.5
            p.reset_layers()
            continue
        if what == "more":
            p.insert(1, site.Layer(lin_soil("m", 19.0, 0.02), 2.25, 270.0))
            continue
        before = snap(p)
        if what == "half-space":
            z = [7.5, 30.0, 2.0, 18.5][k]
            q = variation.HalfSpaceDepthVariation(Dist(z))(p)
            ch.close(q[-1].depth, z, "depth of the half-space", rtol=1e-9)
            ch.check(props(q[-1]) == props(p[-1]), "properties of the half-space")
            for x in (0.5, 4.3, 10.1, 17.3, 29.0):
                e = p[-1] if x > z else at(p[:], x) if x < sum(l.thickness for l in p[:-1]) else p[-2]
                ch.check(props(at(q[:], x)) == props(e), f"op {k}: layer at {x} m")
        else:
            d = Draws(ch, None)
            seq = [[1.1, 0.5, 2.3], [0.7, 3.1], [2.0, 0.9, 0.4, 1.7], [1.3]][k]
            d.one = lambda: (d.made.append(seq[len(d.made) % len(seq)]), d.made[-1])[1]
            with patched(exponential=d, standard_exponential=lambda size=None: d(1.0, size)):
                q = models[what](p)
            layering(ch, sum(l.thickness for l in p[:-1]), PARAMS[0 if what == "toro" else 1], d, [(l.thickness, l.depth_mid) for l in q[:-1]])
            for l in q[:-1]:
                if min(abs(l.depth_mid - b.depth) for b in p) > 1e-9:
                    ch.check(props(l) == props(at(p[:], l.depth_mid)), f"op {k}: layer at {l.depth_mid}")
            ch.check(props(q[-1]) == props(p[-1]), "half-space")
        fresh(ch, q, p, f"op {k}")
        ch.same(snap(p), before, "seed profile")
        for o, s in seen:
            ch.same(snap(o), s, "earlier realizations")
        seen.append((q, snap(q)))
        ch.op()
        ch.state(k, what, i, [l.thickness for l in q])


def interleaved(ch):
    """Two layerings of one model that are drawn at the same time."""
    m = variation.ToroThicknessVariation()
    tot = [ch.all("total0", [20.0, 6.0]), ch.all("total1", [20.0, 45.0])]
    its, got = [m.iter_thickness(t) for t in tot], [[], []]
    made, alive, k = [[], []], [0, 1], 0
    cur = [0]
    val = [1.9, 0.8, 3.0, 1.2]

    def one(scale=1.0, size=None):
        if size is not None:
            raise NotImplementedError
        made[cur[0]].append(val[(len(made[0]) + 2 * len(made[1])) % 4])
        return scale * made[cur[0]][-1]

    with patched(exponential=one, standard_exponential=lambda size=None: one(1.0, size)):
        while alive:
            i = alive[0] if len(alive) == 1 or k >= 6 else ch.all(f"next{k}", alive)
            k += 1
            cur[0] = i
            try:
                got[i].append(next(its[i]))
            except StopIteration:
                alive.remove(i)
    for i in (0, 1):
        d = Draws(ch, None)
        d.made = made[i]
        layering(ch, tot[i], PARAMS[0], d, got[i])


SECTIONS = [("toro", toro, dict(quick=3, thorough=4)), ("exact", exact, 0), ("toro_profile", toro_profile, dict(quick=3, thorough=4)),
            ("half_space", half_space, 0), ("reuse", reuse, 0), ("interleaved", interleaved, 0)]


def warm():
    p = site.Profile([site.Layer(nl_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    propagation.EquivalentLinearCalculator()(rvt_motion(), p, p.location("outcrop", index=-1))
