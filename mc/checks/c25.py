"""C25: varied modulus reduction and damping curves, and simulated profiles."""

import math

import numpy as np

from mc.checks.c23 import PARAMS, at, fresh, props, rate, snap
from mc.checks.c24 import cdf, covariance, trunc_std
from mc.common import D_STRAINS, D_VALUES, MR_STRAINS, MR_VALUES, lin_soil, nl_soil
from mc.ref.soil import interp_curve
from mc.rng import patched
from pystrata import site, variation

ASSUMPTIONS = ["random variates are answered by the explorer through numpy.random; a library that draws them in another way is only checked "
               "against the invariants", "sampled pairs lie within the truncation limits"]
PAIRS = [(0.0, 0.0), (1.0, -0.5), (-1.9, 1.9), (1.9, 1.9), (0.3, -1.2), (-0.01, 0.5)]
EPS = np.finfo(float).eps


def std_g(g):
    return math.exp(-4.23) + math.sqrt(max(0.25 - (g - 0.5) ** 2, 0.0) / math.exp(3.62))


def std_d(d):
    return (math.exp(-5) + math.exp(-0.25) * math.sqrt(100 * d)) / 100


def varied(model, z, g, d, lim_g, lim_d, s_g=0.15, s_d=0.30):
    """Varied modulus reductions and damping ratios."""
    if model == "darendeli":
        vg = [x + z[0] * std_g(x) for x in g]
        vd = [x + z[1] * std_d(x) for x in d]
    else:
        vg = []
        for x in g:
            f = x / (1 - x + EPS) * math.exp(z[0] * s_g * 2)
            vg.append(f / (1 + f))
        vd = [x * math.exp(z[1] * s_d) for x in d]
    return np.clip(vg, *lim_g), np.clip(vd, *lim_d)


def at_percentile(rho, p, limit=2):
    """Inverse of the marginal by bisection."""
    s = 1 / trunc_std(limit)
    f = lambda x: (cdf(x / s) - cdf(-limit / s)) / (cdf(limit / s) - cdf(-limit / s))
    lo, hi = -limit, limit
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if f(m) < p else (lo, m)
    z2 = rho * lo + math.sqrt(1 - rho**2) * lo
    return (lo, min(max(z2, -limit), limit))


class Rng:
    """Answers to all draws: pairs of variates, velocities, increments."""

    def __init__(self, ch, pairs, shift=0.0, increments=(1.0,)):
        self.ch, self.pairs, self.shift, self.increments = ch, pairs, shift, increments
        self.drawn, self.vel, self.inc = [], [], []

    def mvn(self, mu, c, size=None, *a, **k):
        mu, c = np.asarray(mu, float), np.asarray(c, float)
        if len(mu) == 2 and not mu.any():
            z = self.pairs[len(self.drawn) % len(self.pairs)]
            self.drawn.append((z, c))
            return np.array(z) if size is None else np.array([z] * int(np.prod(size)))
        self.vel.append((mu, c))
        return mu + self.shift * np.sqrt(np.diag(c))

    def exp(self, scale=1.0, size=None):
        if size is not None:
            return np.array([self.exp(scale) for _ in range(int(np.prod(size)))])
        self.inc.append(self.increments[len(self.inc) % len(self.increments)])
        return scale * self.inc[-1]

    def __enter__(self):
        self.ctx = patched(multivariate_normal=self.mvn, exponential=self.exp)
        return self.ctx.__enter__()

    def __exit__(self, *a):
        return self.ctx.__exit__(*a)


def mk_model(ch, kind, mode, pct):
    lim_g = ch.choose("limits_mod_reduc", [None, [0.2, 0.9], (0, 1)])
    lim_d = ch.choose("limits_damping", [None, [0.015, 0.1], (0.0, 0.3)])
    rho = ch.choose("correlation", [-0.5, 0.7, 0.0])
    bed = ch.choose("vary_bedrock", [False, True]) if kind == "darendeli" else False
    kw, sg, sd = {}, 0.15, 0.30
    if lim_g is not None:
        kw["limits_mod_reduc"] = lim_g
    if lim_d is not None:
        kw["limits_damping"] = lim_d
    if bed:
        kw["vary_bedrock"] = True
    if kind == "spid" and ch.choose("std", [False, True]):
        kw["std_mod_reduc"], kw["std_damping"] = sg, sd = 0.1, 0.5
    if mode == "fixed_percentiles":
        kw.update(sample_mode=mode, percentiles=pct)
    m = (variation.DarendeliVariation if kind == "darendeli" else variation.SpidVariation)(rho, **kw)
    dg = [0.05, 1] if kind == "darendeli" else [0, 1]
    ch.same((m.correlation, m.sample_mode, m.vary_bedrock), (rho, mode, bed), "settings")
    ch.same((list(m.limits_mod_reduc), list(m.limits_damping)), (list(lim_g or dg), list(lim_d or [0, 0.15])), "limits")
    return m, dict(lim_g=lim_g or dg, lim_d=lim_d or [0, 0.15], s_g=sg, s_d=sd), rho, bed


SOILS = {
    "nl": lambda: nl_soil("nl", 18.0), "darendeli": lambda: site.DarendeliSoilType(19.0, plas_index=15, strains=[1e-6, 1e-4, 1e-2]),
    "linear": lambda: lin_soil("lin", 20.0, 0.03), "mod": lambda: site.SoilType("mod", 18.0, site.ModulusReductionCurve("g", MR_STRAINS, MR_VALUES), 0.04),
    "damp": lambda: site.SoilType("damp", 18.0, None, site.DampingCurve("d", D_STRAINS, D_VALUES)),
    "flat": lambda: site.SoilType("flat", 18.0, site.ModulusReductionCurve("g", [1e-5, 1e-3], [1, 0.5]), site.DampingCurve("d", [1e-5, 1e-2], [0.0, 0.3])),
}


def state_of(st):
    f = lambda c: None if c is None else (c if isinstance(c, (int, float)) else (id(c), c.strains.tolist(), c.values.tolist()))
    return (id(st), st.name, st.unit_wt, f(st.mod_reduc), f(st.damping))


def compare(ch, st, got, kind, z, par, where):
    """One realization against the model for the variates z (None: only invariants)."""
    ch.check(type(got) is type(st) and got is not st, f"{where}: a new soil type of the same kind")
    ch.check(got.name == st.name and got.unit_wt == st.unit_wt, f"{where}: name and unit weight")
    for a, lim, idx in (("mod_reduc", par["lim_g"], 0), ("damping", par["lim_d"], 1)):
        c, r = getattr(st, a), getattr(got, a)
        if c is None:
            continue
        seed = np.atleast_1d(np.asarray(c.values if hasattr(c, "values") else c, float))
        vals = np.atleast_1d(np.asarray(r.values if hasattr(r, "values") else r, float))
        ch.check(np.all(vals >= lim[0] - 1e-12) and np.all(vals <= lim[1] + 1e-12), f"{where}: {a} within the limits: {vals}")
        if z is not None:
            exp = varied(kind, z, seed if a == "mod_reduc" else [0.5], seed if a == "damping" else [0.1], **par)[idx]
            ch.close(vals, exp, f"{where}: {a}", rtol=1e-8, atol=1e-12)
        if hasattr(c, "values"):
            ch.check(type(r) is type(c), f"{where}: {a} is a curve")
            ch.close(r.strains, c.strains, f"{where}: strains of {a}", rtol=0)
            full = (0.001, 1) if a == "mod_reduc" else (0, 0.49)
            for e in (1e-7, 3e-5, 1e-3, 0.5):
                ch.close(r(e), interp_curve(r.strains, vals, e, full), f"{where}: {a} at {e}", rtol=1e-9)
    l0, l1 = site.Layer(st, 1.0, 100.0), site.Layer(got, 1.0, 100.0)
    for l in (l0, l1):
        l.strain = 1e-3
    if st.mod_reduc is None:
        ch.close(l1.shear_mod, l0.shear_mod, f"{where}: modulus stays linear", rtol=1e-12)
    ch.op()


def soil(ch):
    kind = ch.all("model", ["darendeli", "spid"])
    sk = ch.all("soil", list(SOILS))
    mode = ch.all("mode", ["random", "fixed_percentiles"])
    pct = ch.choose("percentiles", [[0.16, 0.5, 0.84], (0.5,), [0.9, 0.1, 0.1, 0.3], [0.004, 0.996]]) if mode != "random" else None
    m, par, rho, _ = mk_model(ch, kind, mode, pct)
    st = SOILS[sk]()
    before = state_of(st)
    for k in range(3 if ch.thorough else 2):
        z = None
        if mode == "random":
            z = ch.all(f"pair{k}", PAIRS)
            rng = Rng(ch, [z])
            with rng:
                got = m(st)
            if not rng.drawn:
                z = None
            for _, c in rng.drawn:
                ch.close(c, [[1, rho], [rho, 1]], "correlation of the variates", rtol=1e-12)
        else:
            i = ch.all(f"index{k}", [0, 1, 2, 5, 11])
            got = m(st, sample_index=i)
            z = at_percentile(rho, pct[i % len(pct)])
        compare(ch, st, got, kind, z, par, f"realization {k}")
        ch.same(state_of(st), before, "seed soil type")
        # realizations are independent of the seed
        if hasattr(got.damping, "values"):
            got.damping.values = np.full(got.damping.values.shape, 0.123)
        ch.same(state_of(st), before, "seed after a change of the realization")
    ch.state(kind, sk, z, par)


def profile(ch):
    """Layers that share a soil type share its realization."""
    kind = ch.all("model", ["darendeli", "spid"])
    mode = ch.all("mode", ["random", "fixed_percentiles"])
    n = ch.all("n", [1, 2, 3])
    idx = [ch.all(f"soil{i}", [0, 1, 2]) for i in range(n)] + [ch.all("rock", [3, 0])]
    pool = [SOILS["nl"](), SOILS["flat"](), SOILS["linear"](), lin_soil("rock", 24.0, 0.01)]
    pct = [0.2, 0.7]
    m, par, rho, bed = mk_model(ch, kind, mode, pct if mode != "random" else None)
    p = site.Profile([site.Layer(pool[j], 2.0 + i, 200.0 + 50 * i, 0.011 * (i + 1)) for i, j in enumerate(idx)], 1.5)
    if ch.choose("used", [False, True]):
        for l in p:
            l.strain = 5e-4
    before = (snap(p), [state_of(s) for s in pool])
    rng = Rng(ch, PAIRS[1:])
    i = ch.choose("index", [0, 1, 4])
    with rng:
        q = m.vary_profile(p) if mode == "random" else m.vary_profile(p, sample_index=i)
    ch.same(len(q), len(p), "number of layers")
    real, order = {}, []
    for a, (l, s) in enumerate(zip(q, p)):
        ch.close([l.thickness, l.initial_shear_vel, l.damping_min], [s.thickness, s.initial_shear_vel, s.damping_min], f"layer {a}", rtol=0)
        if a == n and not bed:
            ch.check(l.soil_type is s.soil_type, "soil of the half-space is kept")
            continue
        if idx[a] not in real:
            real[idx[a]] = l.soil_type
            order.append(idx[a])
        ch.check(l.soil_type is real[idx[a]] or l.soil_type == real[idx[a]], f"layer {a} shares its realization")
    ch.check(len({id(v) for v in real.values()}) == len(real), "one realization per soil type")
    used = [z for z, _ in rng.drawn]
    for k, j in enumerate(order):
        z = at_percentile(rho, pct[i % 2]) if mode != "random" else None
        if mode == "random" and used:
            # which draw belongs to which soil is not specified: it has to be one of them, and none twice
            for w in list(used):
                try:
                    compare(ch, pool[j], real[j], kind, w, par, f"soil {j}")
                except Exception:
                    continue
                used.remove(w)
                break
            else:
                ch.fail(f"realization of soil {j} belongs to none of the draws")
        else:
            compare(ch, pool[j], real[j], kind, z, par, f"soil {j}")
    fresh(ch, q, p, "varied")
    ch.same((snap(p), [state_of(s) for s in pool]), before, "seed profile")
    ch.state(kind, mode, idx, bed)


def simulate(ch):
    """Each simulated profile starts from the seed: layering, then velocities, then curves."""
    th = ch.all("thickness", [False, True])
    ve = ch.all("velocity", [None, "toro", "bedrock"])
    so = ch.all("soils", [None, "random", "fixed_percentiles"])
    count = ch.all("count", [2, 4, 0, 1, 3])
    pct = ch.choose("percentiles", [[0.3, 0.8], [0.5], [0.1, 0.5, 0.9]]) if so == "fixed_percentiles" else None
    inc = ch.choose("increments", [(1.0, 0.5, 2.0), (3.0,), (0.4, 30.0)]) if th else (1.0,)
    shift = ch.choose("shift", [0.5, -5.0]) if ve else 0.0
    pool = [SOILS["nl"](), SOILS["flat"](), lin_soil("rock", 24.0, 0.01)]
    p = site.Profile([site.Layer(pool[0], 4.0, 200.0, 0.02), site.Layer(pool[1], 6.0, 300.0), site.Layer(pool[0], 3.0, 350.0, 0.03),
                      site.Layer(pool[2], 0.0, 900.0, 0.005)], 1.5)
    if ch.choose("used", [False, True]):
        for l in p:
            l.strain = 5e-4
    before = (snap(p), [state_of(s) for s in pool])
    vt = variation.ToroThicknessVariation() if th else None
    vv = variation.ToroVelocityVariation.generic_model("USGS C", vary_bedrock=ve == "bedrock") if ve else None
    kw = {} if so != "fixed_percentiles" else dict(sample_mode=so, percentiles=pct)
    vs = variation.DarendeliVariation(-0.5, **kw) if so else None
    par = dict(lim_g=[0.05, 1], lim_d=[0, 0.15])
    rng = Rng(ch, PAIRS[1:], shift, inc)
    if pct and count % len(pct):
        try:
            list(variation.iter_varied_profiles(p, count, vt, vv, vs))
        except ValueError:
            ch.op()
            ch.state("refused")
            return
        ch.fail("a count that is not a multiple of the percentiles was accepted")
    k = 0
    with rng:
        for q in variation.iter_varied_profiles(p, count, var_thickness=vt, var_velocity=vv, var_soiltypes=vs):
            w = f"profile {k}"
            n = len(q)
            ch.check(all(a is not b for a in q for b in p), f"{w}: own layers")
            ch.close(sum(l.thickness for l in q[:-1]), 13.0, f"{w}: depth", rtol=1e-9)
            if not th:
                ch.same([l.thickness for l in q], [4.0, 6.0, 3.0, 0.0], f"{w}: layering")
            elif rng.inc:
                e = np.cumsum(rng.inc)
                base = np.cumsum([l.thickness for l in q[:-1]])
                ch.check(len(e) >= n - 1, f"{w}: draws")
                ch.close([rate(PARAMS[0], b) for b in base[:-1]], e[: n - 2], f"{w}: interfaces", rtol=1e-7)
                rng.inc = []
            seedl = [at(p[:], l.depth_mid) for l in q[:-1]] + [p[-1]]
            vel = np.array([s.initial_shear_vel for s in seedl])
            if ve and rng.vel:
                cov = covariance([l.thickness for l in q], [0.31] * n, 0.99, 3.9, 0.98, 0.0, 0.344, 1 / trunc_std(2))
                mu, c = rng.vel[-1]
                ch.close(mu, np.log(vel), f"{w}: mean velocities", rtol=1e-10)
                ch.close(c, cov, f"{w}: covariance", rtol=1e-8, atol=1e-14)
                sd = np.sqrt(np.diag(cov))
                vel = vel * np.exp(np.clip(shift * sd, -2 * sd, 2 * sd))
                if ve != "bedrock":
                    vel[-1] = 900.0
            if not ve or rng.vel:
                ch.close([l.initial_shear_vel for l in q], vel, f"{w}: velocities", rtol=1e-9)
            for a, (l, s) in enumerate(zip(q, seedl)):
                ch.close(l.damping_min, s.damping_min, f"{w}: damping of layer {a}", rtol=0)
                if not so or a == n - 1:
                    ch.check(l.soil_type is s.soil_type, f"{w}: soil of layer {a}")
                else:
                    ch.check(l.soil_type.name == s.soil_type.name and l.soil_type is not s.soil_type, f"{w}: soil of layer {a}")
                    if so == "fixed_percentiles":
                        compare(ch, s.soil_type, l.soil_type, "darendeli", at_percentile(-0.5, pct[k % len(pct)]), par, f"{w}: layer {a}")
                    else:
                        compare(ch, s.soil_type, l.soil_type, "darendeli", None, par, f"{w}: layer {a}")
            fresh(ch, q, p, w)
            ch.same((snap(p), [state_of(s) for s in pool]), before, f"{w}: seed profile")
            q[0].thickness = 50.0
            q[-1].initial_shear_vel = 1.0
            ch.same((snap(p), [state_of(s) for s in pool]), before, f"{w}: seed profile after edits")
            k += 1
            ch.op()
    ch.same(k, count, "number of profiles")
    ch.state(th, ve, so, count, pct, inc, shift)


def invalid(ch):
    cls = ch.all("model", [variation.SoilTypeVariation, variation.DarendeliVariation, variation.SpidVariation])
    kw = ch.all("settings", [dict(sample_mode="other"), dict(sample_mode="fixed_percentiles"), dict(sample_mode="fixed_percentiles", percentiles=[]),
                             dict(sample_mode="fixed_percentiles", percentiles=[0.5, 1.0]), dict(sample_mode="fixed_percentiles", percentiles=[0.0]),
                             dict(sample_mode="fixed_percentiles", percentiles=[-0.2, 0.5]), "no index"])
    try:
        if kw == "no index":
            if cls is variation.SoilTypeVariation:
                ch.prune()
            cls(0.5, sample_mode="fixed_percentiles", percentiles=[0.5])(SOILS["nl"]())
        else:
            cls(0.5, **kw)
    except ValueError:
        ch.op()
        ch.state(cls.__name__, str(kw))
        return
    ch.fail(f"accepted {kw}")


def shared_defaults(ch):
    """Settings of one model do not reach another."""
    a = variation.DarendeliVariation(0.5)
    a.limits_mod_reduc[0] = 0.9
    a.limits_damping[1] = 0.01
    b = variation.DarendeliVariation(0.5)
    ch.same((b.limits_mod_reduc, b.limits_damping), ([0.05, 1], [0, 0.15]), "limits")
    pct = [0.5, 0.6]
    c = variation.SpidVariation(0.5, sample_mode="fixed_percentiles", percentiles=pct)
    pct[0] = 3.0
    ch.same(list(c.percentiles), [0.5, 0.6], "percentiles")
    ch.op(2)
    ch.state(1)


def reuse(ch):
    """One model over sequences of soil types, some alike by name, some edited in between."""
    kind = ch.all("model", ["darendeli", "spid"])
    mode = ch.all("mode", ["random", "fixed_percentiles"])
    pct = [0.25, 0.9]
    kw = dict(sample_mode=mode, percentiles=pct) if mode != "random" else {}
    m = (variation.DarendeliVariation if kind == "darendeli" else variation.SpidVariation)(-0.5, **kw)
    par = dict(lim_g=[0.05, 1] if kind == "darendeli" else [0, 1], lim_d=[0, 0.15], s_g=0.15, s_d=0.30)
    pool = [nl_soil("s", 18.0), nl_soil("s", 18.0, 1.6), SOILS["linear"](), SOILS["darendeli"]()]
    seen = []
    for k in range(4 if ch.thorough else 3):
        i = ch.all(f"soil{k}", [0, 1, 2, 3])
        what = ch.all(f"op{k}", ["soil", "profile", "edit", "redefine"])
        st = pool[i]
        if what == "edit":
            if hasattr(st.damping, "values"):
                st.damping.values = np.asarray(st.damping.values) * 1.25
                st.mod_reduc.values = np.asarray(st.mod_reduc.values) ** 1.1
            else:
                st.damping = 0.055
            continue
        if what == "redefine":
            if not hasattr(st.damping, "values"):
                ch.prune()
            st.damping = site.DampingCurve("other", D_STRAINS, np.asarray(D_VALUES) * 0.7)
            st.mod_reduc = site.ModulusReductionCurve("other", MR_STRAINS, np.asarray(MR_VALUES) ** 1.3)
            continue
        before = state_of(st)
        rng = Rng(ch, [PAIRS[1 + k]])
        with rng:
            if what == "soil":
                got = m(st) if mode == "random" else m(st, sample_index=k)
            else:
                p = site.Profile([site.Layer(st, 3.0, 200.0), site.Layer(st, 4.0, 250.0), site.Layer(SOILS["linear"](), 0, 900.0)])
                q = m.vary_profile(p) if mode == "random" else m.vary_profile(p, sample_index=k)
                got = q[0].soil_type
                ch.check(q[1].soil_type is got or q[1].soil_type == got, "shared realization")
        z = at_percentile(-0.5, pct[k % 2]) if mode != "random" else PAIRS[1 + k] if rng.drawn else None
        compare(ch, st, got, kind, z, par, f"op {k}: {what} of soil {i}")
        ch.same(state_of(st), before, "seed soil type")
        ch.check(all(got is not o for o, _ in seen), "a realization of its own")
        for o, b in seen:
            ch.same(state_of(o), b, "earlier realizations")
        seen.append((got, state_of(got)))
        ch.state(k, what, i, z)


def interleaved(ch):
    """Two simulations that share their models and are advanced in any order."""
    so = ch.all("soils", ["random", "fixed_percentiles"])
    pool = [SOILS["nl"](), SOILS["flat"](), lin_soil("rock", 24.0, 0.01)]
    seeds = [site.Profile([site.Layer(pool[0], 4.0, 200.0, 0.02), site.Layer(pool[1], 6.0, 300.0), site.Layer(pool[2], 0.0, 900.0, 0.005)], 1.5),
             site.Profile([site.Layer(pool[1], 8.0, 260.0, 0.02), site.Layer(pool[0], 6.0, 380.0), site.Layer(pool[0], 2.0, 400.0),
                           site.Layer(pool[2], 0.0, 1200.0, 0.005)])]
    same_seed = ch.all("seeds", [(0, 1), (0, 0)])
    before = [snap(p) for p in seeds], [state_of(s) for s in pool]
    pct = [0.3, 0.8]
    vs = variation.DarendeliVariation(-0.5, **({} if so == "random" else dict(sample_mode=so, percentiles=pct)))
    vt = variation.ToroThicknessVariation() if ch.all("thickness", [False, True]) else None
    vv = variation.ToroVelocityVariation.generic_model("USGS C") if ch.all("velocity", [False, True]) else None
    par = dict(lim_g=[0.05, 1], lim_d=[0, 0.15])
    count = [2, 4 if ch.thorough else 2]
    its = [variation.iter_varied_profiles(seeds[s], c, var_thickness=vt, var_velocity=vv, var_soiltypes=vs) for s, c in zip(same_seed, count)]
    alive, done, kept, k = [0, 1], [0, 0], [], 0
    rng = Rng(ch, PAIRS[1:], 0.7, (1.0, 0.5, 2.0))
    with rng:
        while alive:
            i = alive[0] if len(alive) == 1 else ch.all(f"next{k}", alive)
            k += 1
            try:
                q = next(its[i])
            except StopIteration:
                alive.remove(i)
                continue
            p, w = seeds[same_seed[i]], f"profile {done[i]} of simulation {i}"
            ch.close(sum(l.thickness for l in q[:-1]), sum(l.thickness for l in p[:-1]), f"{w}: depth", rtol=1e-9)
            if not vt:
                ch.same([l.thickness for l in q], [l.thickness for l in p], f"{w}: layering")
            for l in q[:-1]:
                s = at(p[:], l.depth_mid)
                ch.check(l.soil_type.name == s.soil_type.name and l.soil_type is not s.soil_type, f"{w}: soil")
                if not vv:
                    ch.close(l.initial_shear_vel, s.initial_shear_vel, f"{w}: velocity", rtol=1e-12)
                z = at_percentile(-0.5, pct[done[i] % 2]) if so != "random" else None
                compare(ch, s.soil_type, l.soil_type, "darendeli", z, par, w)
            fresh(ch, q, p, w)
            ch.same(([snap(x) for x in seeds], [state_of(x) for x in pool]), before, f"{w}: seed profiles")
            for o, b in kept:
                ch.same(snap(o), b, f"{w}: earlier profiles")
            kept.append((q, snap(q)))
            done[i] += 1
            ch.op()
    ch.same(done, count, "number of profiles")
    ch.state(so, same_seed, vt is None, vv is None, k)


SECTIONS = [("soil", soil, dict(quick=2, thorough=3)), ("profile", profile, dict(quick=2, thorough=4)), ("simulate", simulate, dict(quick=2, thorough=4)),
            ("reuse", reuse, 0), ("interleaved", interleaved, 0),
            ("invalid", invalid, 0), ("shared_defaults", shared_defaults, 0)]
