"""C24: varied shear-wave velocities and the truncated normal variates."""

import math

import numpy as np
from scipy import stats

from mc.checks.c23 import fresh, snap
from mc.common import lin_soil, nl_soil
from mc.rng import patched
from pystrata import site, variation

ASSUMPTIONS = ["correlated variates are answered by the explorer through numpy.random.multivariate_normal; a library that draws them in "
               "another way is only checked against the invariants (limits, unchanged properties)"]


def phi(x):
    return math.exp(-x * x / 2) / math.sqrt(2 * math.pi)


def cdf(x):
    return 0.5 * (1 + math.erf(x / math.sqrt(2)))


def trunc_std(limit):
    """Standard deviation of a standard normal variate truncated at +-limit."""
    return math.sqrt(1 - 2 * limit * phi(limit) / (2 * cdf(limit) - 1))


GEN = {  # Toro (1995), table of generic parameters
    "Geomatrix AB": (0.46, 0.96, 13.1, 0.96, 0.0, 0.095), "Geomatrix CD": (0.38, 0.99, 8.0, 1.00, 0.0, 0.160),
    "USGS AB": (0.35, 0.95, 4.2, 1.00, 0.0, 0.138), "USGS CD": (0.36, 0.99, 3.9, 1.00, 0.0, 0.293),
    "USGS A": (0.36, 0.95, 3.4, 0.42, 0.0, 0.063), "USGS B": (0.27, 0.97, 3.8, 1.00, 0.0, 0.293),
    "USGS C": (0.31, 0.99, 3.9, 0.98, 0.0, 0.344), "USGS D": (0.37, 0.00, 5.0, 0.50, 0.0, 0.744),
}


def covariance(thick, std, rho0, delta, rho200, h0, b, scale):
    n = len(thick)
    mids, z = [], 0.0
    for h in thick:
        mids.append(z + h / 2)
        z += h
    s = [x * scale for x in std]
    adj = []
    for i in range(n - 1):
        if i == n - 2:
            r = 1.0  # the half-space follows the layer above
        else:
            h, t = (mids[i] + mids[i + 1]) / 2, min(mids[i + 1] - mids[i], 100)
            rh = rho200 if h > 200 else rho200 * ((h + h0) / (200 + h0)) ** b
            r = (1 - rh) * rho0 * math.exp(-t / delta) + rh
        adj.append(r)
    # each layer depends on the one above it only: over more layers the correlation is the product
    return np.array([[s[i] * s[j] * math.prod(adj[min(i, j):max(i, j)]) for j in range(n)] for i in range(n)])


THICK = {"plain": [5.0, 5.0, 10.0, 0.0], "deep": [150.0, 90.0, 400.0, 10.0], "one": [8.0, 0.0], "thin": [0.5] * 6 + [3.0], "two": [20, 30.0, 5.0],
         "near 200": [198.4, 1.0, 1.0, 1.0, 0.0]}
ANSWERS = ["mean", "+1", "-1.5", "+5", "-5", "alternate", "ramp", "+2.2"]


def vary(ch):
    model = ch.all("model", ["toro", "depth"])
    g = ch.choose("class", list(GEN) + ["own", "own h0"])
    tk = ch.choose("layers", list(THICK))
    bed = ch.choose("vary_bedrock", [None, True, False])
    ans = ch.all("answer", ANSWERS)
    limit = ch.choose("limit", [2, 1.5, 3])
    thick = THICK[tk]
    n = len(thick)
    vel = [180.0 + 90.0 * i for i in range(n - 1)] + [900]
    names = [["sand 1", "clay", "sand 2", "gravel"][i % 4] for i in range(n - 1)] + ["rock"]
    p = site.Profile([site.Layer(lin_soil(names[i], 18.0 + i, 0.02) if i % 2 else nl_soil(names[i]), thick[i], vel[i], 0.013 * (i + 1))
                      for i in range(n)], 2.0)
    if ch.choose("used", [False, True]):
        for l in p:
            l.strain = 3e-4
    kw = {} if bed is None else dict(vary_bedrock=bed)
    own = dict(ln_std=0.2, rho_0=0.9, delta=6.0, rho_200=0.8, h_0=0.0 if g == "own" else 12.0, b=0.2)
    par = tuple(own.values()) if g.startswith("own") else GEN[g]
    if model == "toro":
        s = ch.choose("ln_std", [None, 0.05, 0.6])
        if s is not None:
            own["ln_std"] = s
            if not g.startswith("own"):
                kw["ln_std"] = s
            par = (s,) + par[1:]
        m = variation.ToroVelocityVariation(**own, **kw) if g.startswith("own") else variation.ToroVelocityVariation.generic_model(g, **kw)
        std = [par[0]] * n
    else:
        dd = ch.choose("depths", [None, "own", "std", "own depth"])
        zs, ss = [0, 15], [0.25, 0.15]
        if dd == "own":
            zs, ss = np.array([2.0, 10.0, 60.0]), [0.4, 0.1, 0.2]
        elif dd == "std":
            ss = [0.3, 0.5]
        elif dd == "own depth":
            zs = [5, 200.0]
        smap = ch.choose("map", [None, {"sand": 0.33}, {"clay": 0.01, "rock": 0.0}, {"sand": 0.2, "sand 2": 0.44}])
        if g.startswith("own"):
            m = variation.DepthDependToroVelVariation(zs, ss, *list(own.values())[1:], ln_std_map=smap, **kw)
        else:
            if dd in ("own", "own depth"):
                kw["depth"] = zs
            if dd in ("own", "std"):
                kw["ln_std"] = ss
            if smap is not None:
                kw["ln_std_map"] = smap
            m = variation.DepthDependToroVelVariation.generic_model(g, **kw)
        z, std = 0.0, []
        for h, name in zip(thick, names):
            x = z + h / 2
            z += h
            v = ss[0] if x <= zs[0] else ss[-1]
            for a in range(len(zs) - 1):
                if zs[a] < x <= zs[a + 1]:
                    v = ss[a] + (ss[a + 1] - ss[a]) * (x - zs[a]) / (zs[a + 1] - zs[a])
            for k, q in (smap or {}).items():
                if k in name:
                    v = q
            std.append(v)
    ch.check(m.vary_bedrock == bool(bed), "vary_bedrock")
    scale = 1 / trunc_std(limit)
    cov = covariance(thick, std, *par[1:], scale)
    sd = np.sqrt(np.diag(cov))
    mean = np.log(vel)
    i = np.arange(n)
    k = {"mean": 0 * i, "+1": 0 * i + 1, "-1.5": 0 * i - 1.5, "+5": 0 * i + 5, "-5": 0 * i - 5, "alternate": 3.0 * (-1.0) ** i, "ramp": i - n / 2,
         "+2.2": 0 * i + 2.2}[ans]
    seen = []

    def mvn(mu, c, size=None, *a, **kw):
        seen.append((np.array(mu), np.array(c)))
        if np.shape(mu) != (n,):
            ch.fail(f"mean of {n} velocities has the shape {np.shape(mu)}")
        out = mean + k * sd
        return out if size is None else np.broadcast_to(out, tuple(np.atleast_1d(size)) + (n,)).copy()

    before = snap(p)
    old = variation.randnorm.limit
    try:
        if limit != 2:
            variation.randnorm.limit = limit
        with patched(multivariate_normal=mvn):
            q = m(p)
    finally:
        if limit != 2:
            variation.randnorm.limit = old
    ch.op()
    ch.check(isinstance(q, site.Profile) and len(q) == n, "number of layers")
    if seen:
        mu, c = seen[-1]
        ch.close(mu, mean, "mean of the logarithm", rtol=1e-10)
        ch.close(c, cov, "covariance", rtol=1e-8, atol=1e-14)
        want = np.exp(np.clip(mean + k * sd, mean - limit * sd, mean + limit * sd))
        ch.close([l.initial_shear_vel for l in q[:-1]], want[:-1], "varied velocities", rtol=1e-9)
        ch.close(q[-1].initial_shear_vel, want[-1] if bed else vel[-1], "velocity of the half-space", rtol=1e-9)
    for a, l in enumerate(q):
        r = abs(math.log(l.initial_shear_vel / vel[a]))
        ch.check(r <= limit * sd[a] * (1 + 1e-9) + 1e-12, f"velocity of layer {a} beyond the limit: {l.initial_shear_vel} from {vel[a]}")
        ch.check(l.soil_type is p[a].soil_type and l.thickness == thick[a] and l.damping_min == p[a].damping_min, f"layer {a}: other properties")
    if not bed:
        ch.close(q[-1].initial_shear_vel, vel[-1], "half-space is kept", rtol=1e-12)
    fresh(ch, q, p, "varied")
    ch.same(snap(p), before, "seed profile")
    q[0].initial_shear_vel = 11.0
    q[-1].thickness = 5.0
    ch.same(snap(p), before, "seed profile after edits of the varied one")
    ch.state(cov, [l.initial_shear_vel for l in q])


def reuse(ch):
    """One variation applied to every sequence of profiles, edited in between: each is varied by its own covariance."""
    model = ch.all("model", ["toro", "depth"])
    g = "USGS C"
    m = variation.ToroVelocityVariation.generic_model(g, vary_bedrock=True) if model == "toro" else \
        variation.DepthDependToroVelVariation.generic_model(g, vary_bedrock=True, ln_std_map={"clay": 0.31})
    mk = lambda hs, vs, names: site.Profile([site.Layer(lin_soil(nm, 18.0, 0.02), h, v) for h, v, nm in zip(hs, vs, names)])
    base = mk([4.0, 10.0, 6.0, 0.0], [200.0, 300.0, 400.0, 900.0], ["sand", "clay", "sand", "rock"])
    kinds = {"base": base, "order": mk([10.0, 4.0, 6.0, 0.0], [200.0, 300.0, 400.0, 900.0], ["sand", "clay", "sand", "rock"]),
             "faster": mk([4.0, 10.0, 6.0, 0.0], [200.0, 350.0, 400.0, 900.0], ["sand", "clay", "sand", "rock"]),
             "names": mk([4.0, 10.0, 6.0, 0.0], [200.0, 300.0, 400.0, 900.0], ["clay", "sand", "sand", "rock"]),
             "short": mk([20.0, 0.0], [200.0, 900.0], ["sand", "rock"])}
    edited = False
    for step in range(4 if ch.thorough else 3):
        key = ch.all(f"profile{step}", ["end", "base", "edit"] + list(kinds)[1:] + ["limit"])
        if key == "end":
            break
        limit = 2
        if key == "edit":
            # the same object with another layering
            base[0].thickness = 7.0 if base[0].thickness == 4.0 else 4.0
            base[2].initial_shear_vel = base[2].initial_shear_vel * 1.5
            edited = True
        elif key == "limit":
            limit = 1.5
        p = base if key in ("edit", "limit") else kinds[key]
        thick, vel, names = [l.thickness for l in p], [l.initial_shear_vel for l in p], [l.soil_type.name for l in p]
        n = len(p)
        if model == "toro":
            std = [GEN[g][0]] * n
        else:
            mid = np.cumsum(thick) - np.array(thick) / 2
            std = [0.31 if nm == "clay" else 0.25 - 0.10 * min(z, 15.0) / 15.0 for z, nm in zip(mid, names)]
        cov = covariance(thick, std, *GEN[g][1:], 1 / trunc_std(limit))
        seen = []

        def mvn(mu, c, size=None, *a, **kw):
            seen.append((np.array(mu), np.array(c)))
            out = np.array(mu) + 0.5 * np.sqrt(np.diag(cov))
            return out if size is None else np.broadcast_to(out, tuple(np.atleast_1d(size)) + (len(mu),)).copy()

        try:
            if limit != 2:
                variation.randnorm.limit = limit
            with patched(multivariate_normal=mvn):
                q = m(p)
        finally:
            if limit != 2:
                variation.randnorm.limit = 2
        ch.op()
        ch.check(len(q) == n, f"step {step} {key}: number of layers")
        if seen:
            ch.close(seen[-1][0], np.log(vel), f"step {step} {key}: mean of the logarithm", rtol=1e-10)
            ch.close(seen[-1][1], cov, f"step {step} {key}: covariance", rtol=1e-8, atol=1e-14)
            ch.close([l.initial_shear_vel for l in q], np.exp(np.log(vel) + 0.5 * np.sqrt(np.diag(cov))), f"step {step} {key}: velocities", rtol=1e-9)
        ch.close([l.initial_shear_vel for l in p], vel, f"step {step} {key}: seed", rtol=0)
        q[0].initial_shear_vel = 1.0
        ch.state(key, edited, cov)


def classes(ch):
    v, e = ch.all("vs30", [(100.0, "USGS D"), (179.9, "USGS D"), (180.1, "USGS C"), (359.9, "USGS C"), (360.1, "USGS B"), (749.9, "USGS B"),
                           (751, "USGS A"), (3000.0, "USGS A")])
    ch.same(str(variation.ToroVelocityVariation.usgs_site_class(v)), e, f"site class of {v} m/s")
    ch.same(sorted(variation.ToroVelocityVariation.site_classes()), sorted(GEN), "site classes")
    m = variation.ToroVelocityVariation.generic_model(e)
    ch.same((m.ln_std, m.rho_0, m.delta, m.rho_200, m.h_0, m.b), GEN[e], "parameters")
    ch.op()
    ch.state(v)


def unchanged_tables(ch):
    """Overriding parameters of one model leaves the generic parameters as they are."""
    g = ch.all("class", list(GEN))
    c = ch.all("model", ["toro", "depth"])
    cls = variation.ToroVelocityVariation if c == "toro" else variation.DepthDependToroVelVariation
    cls.generic_model(g, rho_0=0.1, b=0.5)
    cls.generic_model(g, delta=99.0, vary_bedrock=True)
    m = variation.ToroVelocityVariation.generic_model(g)
    ch.same((m.ln_std, m.rho_0, m.delta, m.rho_200, m.h_0, m.b, m.vary_bedrock), GEN[g] + (False,), "generic parameters")
    d = variation.DepthDependToroVelVariation.generic_model(g)
    ch.same((list(d.depth), list(d.ln_std), d.rho_0, d.delta, d.ln_std_map), ([0, 15], [0.25, 0.15], GEN[g][1], GEN[g][2], {}), "depth-dependent")
    ch.op()
    ch.state(g, c)


def variates(ch):
    limit = ch.all("limit", [2, 1, 1.5, 3.0])
    t = variation.TruncatedNorm(limit)
    if ch.all("set", [False, True]):
        t = variation.TruncatedNorm(0.7)
        t.limit = limit
    ch.same(t.limit, limit, "limit")
    s = 1 / trunc_std(limit)
    ch.close(t.scale, s, "scale", rtol=1e-9)
    # samples: from the distribution with unit standard deviation
    seen = []
    real = stats.truncnorm.rvs

    def rvs(a, b, loc=0, scale=1, size=1, random_state=None):
        seen.append((a, b, loc, scale, size))
        return real(a, b, loc=loc, scale=scale, size=size, random_state=1)

    stats.truncnorm.rvs = rvs
    try:
        x = t(size=ch.all("size", [1, 5]))
    finally:
        del stats.truncnorm.rvs
    ch.check(np.all(np.abs(x) <= limit * s * (1 + 1e-9)), "samples within the limits")
    if seen:
        a, b, loc, scale, size = seen[0]
        ch.close(-a, b, "symmetric", rtol=1e-12)
        ch.close(loc, 0, "centred")
        ch.close(scale * trunc_std(b), 1.0, "unit standard deviation", rtol=1e-9)
    ch.check(np.size(x) == size if seen else True, "number of samples")
    # percentiles
    pct = ch.all("percentile", [0.5, 0.02, 0.16, 0.84, 0.999, 0.3])
    rho = ch.all("correlation", [0.0, 0.5, -0.5, 1.0, -1.0, -0.7])
    z = t.correlated_at_percentile(rho, pct)
    w = s  # the marginal: a normal variate with the scaled deviation, truncated at the limits
    ch.check(np.all(np.abs(z) <= limit * (1 + 1e-12)), f"within the limits: {z}")
    f = (cdf(z[0] / w) - cdf(-limit / w)) / (cdf(limit / w) - cdf(-limit / w))
    ch.close(f, pct, f"percentile of {z[0]}", rtol=1e-7)
    ch.close(z[1], np.clip(rho * z[0] + math.sqrt(1 - rho**2) * z[0], -limit, limit), "second variate", rtol=1e-9, atol=1e-12)
    ch.check(np.array_equal(z, t.correlated_at_percentile(rho, pct)), "deterministic")
    ch.op(3)
    ch.state(limit, z)


def correlated(ch):
    """The first pair within the limits is used, whatever was drawn before."""
    limit = ch.all("limit", [2, 1.0])
    rho = ch.all("correlation", [0.5, -0.7, 0.0])
    pool = [[0.5, -0.25], [2.5, 0.1], [0.1, -2.5], [1.5, 1.2], [-0.9, 0.9], [-3.0, -3.0], [-1.99, 1.99], [9.0, -9.0]]
    n_bad = ch.all("rejected", list(range(0, 14 if ch.thorough else 8)))
    ok = ch.all("accepted", [v for v in pool if max(map(abs, v)) < limit])
    bad = [v for v in pool if max(map(abs, v)) >= limit]
    ib = ch.all("first rejected", list(range(len(bad))))
    seq = [bad[(ib + j) % len(bad)] for j in range(n_bad)] + [ok]
    seen, given = [], []

    def mvn(mu, c, size=None, *a, **kw):
        seen.append((np.array(mu, float), np.array(c, float)))
        m = 1 if size is None else int(np.prod(size))
        out = []
        for _ in range(m):
            i = len(given)
            out.append(seq[i] if i < len(seq) else [0.11, 0.12])
            given.append(out[-1])
        if len(given) > 500:
            ch.fail("does not accept a valid pair")
        return np.array(out[0] if size is None else out, float)

    t = variation.TruncatedNorm(limit)
    with patched(multivariate_normal=mvn):
        z = t.correlated(rho)
    ch.op()
    ch.check(np.shape(z) == (2,) and np.all(np.abs(z) < limit), f"pair {z}")
    if seen:
        for mu, c in seen:
            ch.close(mu, [0, 0], "mean")
            ch.close(c, [[1, rho], [rho, 1]], "covariance", rtol=1e-12)
        ch.close(z, ok, "first valid pair", rtol=0)
    ch.state(seq)


SECTIONS = [("reuse", reuse, 0), ("vary", vary, dict(quick=3, thorough=4)), ("classes", classes, 0), ("unchanged_tables", unchanged_tables, 0),
            ("variates", variates, 0), ("correlated", correlated, 0)]
