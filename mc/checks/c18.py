"""C18: quarter-wavelength amplification and the fit to a target."""

import math

import numpy as np

from mc.common import lin_soil, nl_soil
from mc.ref import sh
from pystrata import motion, propagation, site

ASSUMPTIONS = ["frequencies are positive", "the fixed-point iteration with averaging and a 1 % tolerance is part of the method",
               "executions within 1e-9 of the tolerance are outside the domain"]

FREQS = np.array([0.1, 0.25, 0.7, 1.0, 2.2, 5.0, 13.0, 40.0])


def average(thick, prop, z):
    """Mean of a property from the surface to depth z; the last layer is unbounded."""
    top, acc = 0.0, 0.0
    for i, (h, p) in enumerate(zip(thick, prop)):
        base = math.inf if i == len(thick) - 1 else top + h
        acc += max(min(z, base) - top, 0.0) * p
        top = base
        if top >= z:
            break
    return acc / z


class NotConverged(Exception):
    pass


class Undecided(Exception):
    pass


def model(rho, thick, slow, freqs, method, atten):
    z = [1 / (4 * np.mean(slow) * f) for f in freqs]
    for it in range(50):
        s = [average(thick, slow, v) for v in z]
        new = [(v + 1 / (4 * q * f)) / 2 for v, q, f in zip(z, s, freqs)]
        margin = [abs(a - b) / (1e-8 + 0.01 * b) for a, b in zip(z, new)]
        z = new
        if abs(max(margin) - 1) < 1e-9:
            raise Undecided
        if max(margin) <= 1:
            break
    else:
        raise NotConverged
    r = [average(thick, rho, v) for v in z]
    if method == "ba23":
        fb = 1 / (4 * sum(h * q for h, q in zip(thick[:-1], slow[:-1])))
        eta = []
        for f in freqs:
            x = (math.log10(f / fb) + 1.301) / 1.398
            eta.append(_eta(max(x, 0.0)))  # no amplification below the range of the model
    else:
        eta = [0.5] * len(freqs)
    amp = np.array([(rho[-1] / slow[-1] / (a / b)) ** e for a, b, e in zip(r, s, eta)])
    term = amp * np.exp(-np.pi * atten * np.asarray(freqs)) if atten else amp
    return amp, term


def _eta(x):
    """Boore and Abrahamson (2023) exponent."""
    with np.errstate(all="ignore"):
        num = 0.560 * np.float64(x) ** 4.0
        den = ((1 - np.float64(x) ** 6.0) ** 2.0 + 0.760 * np.float64(x) ** 3.0) ** 0.333
        return num / den


def mk_profile(ch, n_max=3):
    n = ch.all("n_soil", list(range(n_max, -1, -1)))
    layers, spec = [], []
    for i in range(n):
        h = ch.choose(f"h{i}", [20.0, 2.0, 300, 0.4])
        v = ch.choose(f"v{i}", [200.0 + 150 * i, 120.0, 1200, 600.0])
        uw = ch.choose(f"uw{i}", [18.0, 22.0, 15])
        layers.append(site.Layer(lin_soil("s", uw, 0.02), h, v))
        spec.append((float(h), 1 / v, uw / sh.G))
    hr = ch.choose("hr", [0.0, 10.0, 500.0])
    layers.append(site.Layer(lin_soil("r", 25.0, 0.01), hr, 2000.0))
    spec.append((hr, 1 / 2000.0, 25.0 / sh.G))
    t, s, r = (np.array(x) for x in zip(*spec))
    return site.Profile(layers), t, s, r


def amplification(ch):
    p, t, s, r = mk_profile(ch)
    kind = ch.choose("freqs", ["grid", "one", "descending", "list", "rvt"])
    f = {"grid": FREQS, "one": np.array([1.3]), "descending": FREQS[::-1], "list": FREQS.tolist(), "rvt": FREQS}[kind]
    mot = motion.RvtMotion(f, np.ones(len(f)), 5.0) if kind == "rvt" else motion.Motion(f)
    method = ch.choose("method", ["default", "standard", "ba23"])
    atten = ch.choose("site_atten", [None, 0.04, 0, 0.002])
    if method == "ba23" and len(t) == 1:
        ch.prune()  # no depth above the half-space
    kw = {}
    if method != "default":
        kw["method"] = method
    if atten is not None:
        kw["site_atten"] = atten
    calc = propagation.QuarterWaveLenCalculator(**kw)
    try:
        amp, term = model(r, t, s, np.asarray(f), method, atten)
        conv = True
    except Undecided:
        ch.prune()
    except NotConverged:
        conv = False
    try:
        calc(mot, p, p.location("outcrop", index=-1))
    except RuntimeError:
        ch.check(not conv, "did not converge although the method does")
        ch.state("not converged")
        return
    ch.op()
    ch.check(conv, "a result although the method does not converge")
    ch.close(calc.crustal_amp, amp, "crustal amplification", rtol=1e-8 if method != "ba23" else 1e-7)
    ch.close(calc.site_term, term, "site term", rtol=1e-8 if method != "ba23" else 1e-7)
    ch.check(calc.site_atten == atten and calc.method == ("standard" if method == "default" else method), "parameters")
    # again, and after another profile
    first = np.array(calc.crustal_amp)
    q = site.Profile([site.Layer(lin_soil(), 5.0, 500.0), site.Layer(lin_soil(), 0, 900.0)])
    calc(mot, q, q.location("outcrop", index=-1))
    calc(mot, p, p.location("outcrop", index=-1))
    ch.check(np.array_equal(first, calc.crustal_amp, equal_nan=True), "the same again")
    ch.state(first, calc.site_term)


def uniform(ch):
    """No contrast, no amplification: however the profile is divided."""
    n = ch.all("n", [0, 1, 2, 5])
    h = ch.all("h", [1.0, 50.0, 7])
    v = ch.all("v", [150.0, 2000, 760.0])
    p = site.Profile([site.Layer(lin_soil("a", 20.0, 0.01), h, v) for _ in range(n)]
                     + [site.Layer(lin_soil("a", 20.0, 0.01), 0, v)])
    calc = propagation.QuarterWaveLenCalculator(site_atten=0.03)
    calc(motion.Motion(FREQS), p, p.location("outcrop", index=-1))
    ch.op()
    ch.close(calc.crustal_amp, np.ones(FREQS.size), "amplification", rtol=1e-10)
    ch.close(calc.site_term, np.exp(-np.pi * 0.03 * FREQS), "site term", rtol=1e-10)
    ch.state(n, h, v)


def unknown(ch):
    m = ch.all("method", ["Standard", "", "ba22"])
    p = site.Profile([site.Layer(lin_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    try:
        propagation.QuarterWaveLenCalculator(method=m)(motion.Motion(FREQS), p, p.location("outcrop", index=-1))
    except Exception:
        ch.op()
        ch.state(m)
        return
    ch.fail(f"method {m!r} accepted")


def sq(a, b):
    return float(np.mean(((np.asarray(a) - np.asarray(b)) / np.asarray(b)) ** 2))


def objective(q, mot, tt, target, v0, h0, k0, v, h, k, kw):
    """Misfit of the profile with these values, including the preference for the initial values."""
    layers = [site.Layer(l.soil_type, a, b) for l, a, b in zip(q, h, v)]
    p = site.Profile(layers)
    calc = propagation.QuarterWaveLenCalculator(site_atten=k)
    try:
        calc(mot, p, p.location("outcrop", index=-1))
    except RuntimeError:
        return np.inf
    obj = 10 * sq(target, calc.crustal_amp if tt == "crustal_amp" else calc.site_term) + sq(1 / v0, 1 / v)
    if "adjust_thickness" in kw:
        obj += sq(h0[:-1], h[:-1])
    if "adjust_site_atten" in kw:
        obj += sq(k, k0)
    return obj


def moves(q, mot, tt, target, v0, h0, k0, v, h, k, kw):
    """Reductions of the misfit by changing one of the adjusted values, within the bounds."""
    args = q, mot, tt, target, v0, h0, k0
    base = objective(*args, v, h, k, kw)
    for f in (0.97, 1.03):
        for i in range(len(v) - (0 if "adjust_source_vel" in kw else 1)):
            w = v.copy()
            w[i] *= f
            if 100 <= w[i] <= 4000:
                yield "velocity", i, base - objective(*args, w, h, k, kw)
        if "adjust_thickness" in kw:
            for i in range(len(h) - 1):
                w = h.copy()
                w[i] *= f
                if h0[i] / 2 <= w[i] <= 2 * h0[i]:
                    yield "thickness", i, base - objective(*args, v, w, k, kw)
        if "adjust_site_atten" in kw and 0.0001 <= k * f <= 0.2:
            yield "attenuation", 0, base - objective(*args, v, h, k * f, kw)


def fit(ch):
    n = ch.all("n_soil", [2, 1])
    hr = ch.choose("hr", [0.0, 50.0])
    dm = ch.choose("damping_min", [None, 0.07])
    layers = [site.Layer(lin_soil(f"s{i}", 18.0 + i, 0.02), 30.0 + 20 * i, 250.0 + 200 * i, dm) for i in range(n)]
    layers.append(site.Layer(lin_soil("r", 25.0, 0.01), hr, 2000.0))
    p = site.Profile(layers, ch.choose("wt", [0.0, 3.0]))
    mot = motion.Motion(FREQS)
    k0 = ch.choose("site_atten", [0.03, 0.01])
    calc = propagation.QuarterWaveLenCalculator(site_atten=k0)
    loc = p.location("outcrop", index=-1)
    calc(mot, p, loc)
    tt = ch.choose("target_type", ["crustal_amp", "site_term"])
    base = np.array(calc.crustal_amp if tt == "crustal_amp" else calc.site_term)
    tk = ch.choose("target", ["scaled", "same", "tilted", "flat", "list", "thicker", "thinner", "faster", "slower"])
    changed = {"thicker": (1.8, 1), "thinner": (0.6, 1), "faster": (1, 1.6), "slower": (1, 0.5)}.get(tk, (1, 1))
    if changed != (1, 1):
        # the amplification of another profile
        other = site.Profile([site.Layer(l.soil_type, l.thickness * changed[0], l.initial_shear_vel * changed[1])
                              for l in p[:-1]] + [p[-1].copy()])
        oc = propagation.QuarterWaveLenCalculator(site_atten=k0)
        oc(mot, other, other.location("outcrop", index=-1))
        changed = np.array(oc.crustal_amp if tt == "crustal_amp" else oc.site_term)
    target = {"scaled": base * 1.25, "same": base.copy(), "tilted": base * np.linspace(1.2, 0.8, base.size),
              "flat": np.ones(base.size), "list": (base * 1.1).tolist()}.get(tk, changed)
    kw = {}
    for k in ("adjust_thickness", "adjust_site_atten", "adjust_source_vel"):
        if ch.choose(k, [False, True]):
            kw[k] = True
    before = [(l.thickness, l.initial_shear_vel, l.damping_min, l.depth) for l in p]
    try:
        got = calc.fit(tt, target, **kw)
    except RuntimeError as e:
        # the search may visit a profile for which the (documented) iteration does not converge
        if "converge" in str(e) and tk != "same":
            ch.prune()
        raise
    ch.op()
    ch.check([(l.thickness, l.initial_shear_vel, l.damping_min, l.depth) for l in p] == before, "initial profile is unchanged")
    ch.check(isinstance(got, site.Profile) and got is not p, "a new profile is returned")
    q = calc.profile
    ch.check(q is got, "the calculator holds the fitted profile")
    ch.same(len(q), len(p), "number of layers")
    ch.same(q.wt_depth, p.wt_depth, "water table")
    v0, v = np.array([b[1] for b in before]), np.array([l.initial_shear_vel for l in q])
    h0, h = np.array([b[0] for b in before]), np.array([l.thickness for l in q])
    for a, b in zip(p, q):
        ch.check(b.soil_type == a.soil_type, "soil types are kept")
        ch.close(b.damping_min, a.damping_min, "damping of the layers", rtol=1e-12)
    ch.check(np.all(v >= 100 * (1 - 1e-9)) and np.all(v <= 4000 * (1 + 1e-9)), f"velocity bounds: {v}")
    if "adjust_source_vel" not in kw:
        ch.close(v[-1], v0[-1], "velocity of the half-space", rtol=1e-9)
    if "adjust_thickness" in kw:
        ch.check(np.all(h >= h0 / 2 * (1 - 1e-9)) and np.all(h <= 2 * h0 * (1 + 1e-9)), f"thickness bounds: {h}")
    else:
        ch.close(h, h0, "thicknesses", rtol=1e-12)
    k = calc.site_atten
    if "adjust_site_atten" in kw:
        ch.check(0.0001 <= k <= 0.2, f"site attenuation bounds: {k}")
    else:
        ch.close(k, k0, "site attenuation", rtol=0)
    # amplification reported is the one of the fitted profile
    fresh = propagation.QuarterWaveLenCalculator(site_atten=k)
    fresh(mot, q, q.location("outcrop", index=-1))
    ch.close(calc.crustal_amp, fresh.crustal_amp, "crustal amplification", rtol=1e-9)
    ch.close(calc.site_term, fresh.site_term, "site term", rtol=1e-9)
    # the fit does not get worse, including the preference for the initial values
    sq = lambda a, b: float(np.mean(((np.asarray(a) - np.asarray(b)) / np.asarray(b)) ** 2))
    now = calc.crustal_amp if tt == "crustal_amp" else calc.site_term
    obj = 10 * sq(target, now) + sq(1 / v0, 1 / v)
    if "adjust_thickness" in kw:
        obj += sq(h0[:-1], h[:-1])
    if "adjust_site_atten" in kw:
        obj += sq(k, k0)
    obj0 = 10 * sq(target, base)
    ch.check(obj <= obj0 * (1 + 1e-9) + 1e-12, f"misfit {obj} after the fit, {obj0} before")
    if tk != "same" and obj0 > 1e-3:
        tgt = np.asarray(target, float)
        # values that were to be adjusted and whose change reduces the misfit are adjusted
        for name, i, g in moves(p, mot, tt, tgt, v0, h0, k0, v0, h0, k0, kw):
            if g > 0.02 * obj0:
                a, b = {"velocity": (v0, v), "thickness": (h0, h), "attenuation": ([k0], [k])}[name]
                ch.check(abs(b[i] / a[i] - 1) > 1e-8, f"{name} {i} is not adjusted from {a[i]}, although this reduces the misfit")
        for name, i, g in moves(q, mot, tt, tgt, v0, h0, k0, v, h, k, kw):
            # of the values that matter to the search, none could be changed to reduce the misfit further
            ch.check(name == "thickness" or g <= 0.02 * obj0, f"changing {name} {i} reduces the misfit by {g} from {obj}")
    if tk == "same":
        ch.close(v, v0, "velocities when the target is already met", rtol=1e-4)
        ch.close(k, k0, "site attenuation when the target is already met", rtol=1e-3)
    elif tk in ("scaled", "list") and obj0 > 1e-3 and not (tt == "site_term" and tk == "flat"):
        ch.check(obj < 0.9 * obj0, f"misfit is not reduced: {obj} from {obj0}")
    ch.state(v, h, k)


SECTIONS = [("amplification", amplification, dict(quick=2, thorough=3)), ("uniform", uniform, 0), ("unknown", unknown, 0),
            ("fit", fit, dict(quick=3, thorough=6))]


def warm():
    p = site.Profile([site.Layer(lin_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    propagation.QuarterWaveLenCalculator()(motion.Motion(FREQS), p, p.location("outcrop", index=-1))
