"""C27: attenuation of the site: increments, scattering, and adjustment of the damping to a target."""

import numpy as np

from mc.common import lin_soil, nl_soil
from mc.ref import sh
from pystrata import site, tools

ASSUMPTIONS = ["velocities, thicknesses and minimum damping are positive (half-space: thickness zero or more)",
               "damping stays below 50 %; names used to exclude layers are not parts of each other"]

SOILS = {"fill": lambda: lin_soil("fill", 17.0, 0.03), "sand": lambda: nl_soil("sand", 18.0), "clay": lambda: nl_soil("clay", 16.0, 1.5),
         "silt": lambda: lin_soil("silt", 18.5, 0.012), "rock": lambda: lin_soil("rock", 22.0, 0.01)}
HS = [(0.0, 800.0), (0, 2500.0), (12.0, 760.0), (0.0, 300.0)]
LAYERS = [("fill", 4.0, 180.0), ("sand", 10.0, 320.0), ("clay", 25.0, 250.0), ("silt", 3, 450)]


def column(ch, thick=(None, 0.8, 60.0), vel=(None, 150, 900.0)):
    n = ch.all("layers", [1, 2, 3, 4])
    shared = {}
    layers, spec = [], []
    for i in range(n):
        name, h, v = LAYERS[i]
        name = ch.choose(f"soil{i}", [name] + [s for s in ("clay", "sand", "rock") if s != name])
        h2 = ch.choose(f"h{i}", list(thick))
        v2 = ch.choose(f"v{i}", list(vel))
        dmin = ch.choose(f"dmin{i}", [None, 0.004, 0.06])
        h, v = (h if h2 is None else h2), (v if v2 is None else v2)
        st = shared.setdefault(name, SOILS[name]())
        layers.append(site.Layer(st, h, v, dmin) if dmin is not None else site.Layer(st, h, v))
        spec.append([name, h, v, st.damping_min if dmin is None else dmin])
    h, v = ch.choose("half-space", HS)
    st = SOILS["rock"]()
    layers.append(site.Layer(st, h, v))
    spec.append(["rock", h, v, 0.01])
    return site.Profile(layers, ch.choose("wt", [0, 3.0])), spec


def strain(ch, p):
    """Properties may have been softened by a calculation: the attenuation is that of small strains."""
    s = ch.choose("strain", [None, 1e-3, 2e-4])
    if s is not None:
        for l in p:
            l.strain = s


def rho(name):
    return SOILS[name]().density


def kappa(spec):
    return sum(2 * d * h / v for _, h, v, d in spec)


def scatter(spec, freqs, model="dormieux"):
    col = sh.Column([dict(thick=h, rho=rho(n), mod=rho(n) * v * v, damp=d) for n, h, v, d in spec], 2 * np.pi * freqs, model)
    y = np.log(np.abs(col.accel_tf((len(spec) - 1, 0.0, "outcrop"), (0, 0.0, "outcrop"))))
    x = freqs - freqs.mean()
    slope = np.sum(x * (y - y.mean())) / np.sum(x * x)
    return max(-slope / np.pi - kappa(spec), 0.0)


def snap(p):
    return [(id(l.soil_type), l.soil_type.name, l.soil_type.unit_wt, l.soil_type.damping_min, l.thickness, l.initial_shear_vel, l.damping_min) for l in p]


def attenuation(ch):
    p, spec = column(ch)
    strain(ch, p)
    before = snap(p), [float(l.shear_vel) for l in p]
    for l, (n, h, v, d) in zip(p, spec):
        ch.close(l.incr_site_atten, 2 * d * h / v, f"increment of {n}", rtol=1e-10)
        ch.op()
    ch.close(p.site_attenuation(), kappa(spec), "site attenuation", rtol=1e-10)
    f = ch.choose("freqs", [None, np.linspace(20, 100, 41), [30.0, 45.0, 80.0, 120.0], np.linspace(50, 200, 31)])
    exp = scatter(spec, np.linspace(50, 200, num=256) if f is None else np.asarray(f, float))
    got = tools.calc_atten_scatter(p) if f is None else tools.calc_atten_scatter(p, f)
    ch.close(got, exp, "attenuation of scattering", rtol=1e-5, atol=1e-8)
    ch.same((snap(p), [float(l.shear_vel) for l in p]), before, "profile unchanged")
    ch.op(2)
    ch.state(kappa(spec), exp)


EXCLUDE = ["none", "str rock", "str clay", "regex", "list rock", "list two", "call hs", "call thin", "list empty", "tail", "str no match", "call all"]


def excluded(how, spec):
    """Argument and the excluded layers."""
    names = [s[0] for s in spec]
    n = len(spec)
    if how == "none":
        return None, []
    if how == "str rock":
        return "rock", [i for i in range(n) if names[i] == "rock"]
    if how == "str clay":
        return "clay", [i for i in range(n) if names[i] == "clay"]
    if how == "regex":
        return "s.*t|ro", [i for i in range(n) if names[i] in ("silt", "rock")]
    if how == "tail":
        return "ck", []  # matched from the start of the name
    if how == "str no match":
        return "gravel", []
    if how == "list rock":
        return ["rock"], [i for i in range(n) if names[i] == "rock"]
    if how == "list two":
        return ["sand", "fill"], [i for i in range(n) if names[i] in ("sand", "fill")]
    if how == "list empty":
        return [], []
    if how == "call all":
        return (lambda l: True), list(range(n))
    if how == "call thin":
        return (lambda l: l.thickness < 5), [i for i in range(n) if spec[i][1] < 5]
    return (lambda l: l.initial_shear_vel >= 760), [i for i in range(n) if spec[i][2] >= 760]


def adjust(ch):
    how = ch.all("exclude", EXCLUDE)
    p, spec = column(ch)
    strain(ch, p)
    inplace = ch.choose("inplace", [False, True])
    arg, exc = excluded(how, spec)
    sel = [i for i in range(len(spec)) if i not in exc]
    sc = scatter(spec, np.linspace(50, 200, num=256))
    k_exc = sum(2 * spec[i][3] * spec[i][1] / spec[i][2] for i in exc)
    which = ch.choose("target", ["double", "small", "large", "just above", "out of reach", "zero"])
    base = sc + k_exc
    room = sum(2 * 0.02 * spec[i][1] / spec[i][2] for i in sel)
    target = {"double": base + 2 * room, "small": base + 0.1 * room, "large": base + 10 * room, "just above": base + 1e-3 * room,
              "out of reach": 0.9 * base - 1e-6, "zero": 0.0}[which]
    before = snap(p)
    s2 = sum(spec[i][1] / spec[i][2] ** 2 for i in sel)
    if sel and not s2:
        ch.prune()  # only a half-space of no thickness is left to be adjusted
    kw = {} if not inplace and how != "none" else {"inplace": inplace}
    if how != "none":
        kw["exclude"] = arg
    try:
        q, got = tools.adjust_damping_values(p, target, **kw)
    except RuntimeError:
        ch.check(not sel or target <= base * (1 + 1e-9) + 1e-7, f"target {target} can be achieved, at least {base}")
        ch.same(snap(p), before, "profile unchanged after the refusal")
        ch.op()
        return
    ch.check(sel and target > base - 1e-7, f"target {target} cannot be achieved: {base}")
    ch.close(got, sc, "attenuation of scattering", rtol=1e-5, atol=1e-8)
    rem = target - sc - k_exc
    if rem < 1e-6:
        return
    ch.check((q is p) == inplace, "adjusted in place or a copy")
    if not inplace:
        ch.same(snap(p), before, "profile unchanged")
        ch.check(all(a is not b for a, b in zip(p, q)), "layers are copies")
    ch.same([x[:6] for x in snap(q)], [x[:6] for x in before], "other properties")
    for i, l in enumerate(q):
        d = spec[i][3] if i in exc else rem / (2 * spec[i][2] * s2)
        ch.close(l.damping_min, d, f"minimum damping of layer {i} ({'excluded' if i in exc else 'adjusted'})", rtol=1e-3, atol=1e-9)
        ch.close(l.damping, l.damping_min, f"damping of layer {i} at small strain", rtol=1e-12)
        ch.close(l.shear_vel, spec[i][2], f"velocity of layer {i}", rtol=1e-9)
    ch.close(q.site_attenuation() + got, target, "total attenuation", rtol=1e-9)
    ch.op(2)
    ch.state([l.damping_min for l in q])


def sequence(ch):
    """Adjustments, edits and questions, in every order, of one profile and its copies."""
    spec = [["fill", 4.0, 180.0, 0.03], ["sand", 10.0, 320.0, SOILS["sand"]().damping_min], ["fill", 20.0, 250.0, 0.03], ["rock", 0.0, 800.0, 0.01]]
    pool = {n: SOILS[n]() for n in ("fill", "sand", "rock")}
    p = site.Profile([site.Layer(pool[n], h, v) for n, h, v, _ in spec])
    for k in range(5 if ch.thorough else 4):
        op = ch.all(f"op{k}", ["adjust", "adjust in place", "adjust but rock", "adjust but fill", "faster", "thicker", "damped", "inserted", "strained"])
        if op == "faster":
            spec[1][2] = p[1].initial_shear_vel = spec[1][2] * 1.3
            p.reset_layers()
        elif op == "thicker":
            spec[0][1] = p[0].thickness = spec[0][1] + 3.0
            p.update_layers()
        elif op == "damped":
            spec[0][3] = p[0].damping_min = 0.045
            p.reset_layers()
        elif op == "inserted":
            p.insert(2, site.Layer(pool["sand"], 3.5, 290.0))
            spec.insert(2, ["sand", 3.5, 290.0, pool["sand"].damping_min])
        elif op == "strained":
            for l in p:
                l.strain = 3e-4
        else:
            exc = {"adjust but rock": "rock", "adjust but fill": ["fill"]}.get(op)
            sel = [s for s in spec if exc is None or s[0] not in exc]
            if not sum(s[1] for s in sel):
                ch.prune()
            base = scatter(spec, np.linspace(50, 200, num=256)) + sum(2 * d * h / v for n, h, v, d in spec if [n, h, v, d] not in sel)
            target = base + [0.9, 1.7, 0.5, 1.2, 2.1][k] * sum(0.04 * h / v for _, h, v, _ in sel)
            before = snap(p)
            q, got = tools.adjust_damping_values(p, target, exclude=exc, inplace=op == "adjust in place")
            s2 = sum(h / v**2 for _, h, v, _ in sel)
            rem = target - base
            new = [[n, h, v, rem / (2 * v * s2) if [n, h, v, d] in sel else d] for n, h, v, d in spec]
            for i, l in enumerate(q):
                ch.close(l.damping_min, new[i][3], f"op {k}: {op}: damping of layer {i}", rtol=1e-3, atol=1e-9)
                ch.close(l.damping, l.damping_min, f"op {k}: {op}: current damping of layer {i}", rtol=1e-12)
                ch.close(l.shear_vel, new[i][2], f"op {k}: {op}: velocity of layer {i}", rtol=1e-9)
            ch.close(q.site_attenuation() + got, target, f"op {k}: {op}: total", rtol=1e-9)
            if op == "adjust in place":
                ch.check(q is p, "in place")
                for s, l in zip(spec, q):
                    s[3] = l.damping_min
            else:
                ch.same(snap(p), before, "profile unchanged")
            ch.op()
        for i, (l, (n, h, v, d)) in enumerate(zip(p, spec)):
            ch.close(l.incr_site_atten, 2 * d * h / v, f"after op {k} ({op}): increment of layer {i}", rtol=1e-10)
        ch.close(p.site_attenuation(), kappa(spec), f"after op {k} ({op}): site attenuation", rtol=1e-10)
        ch.state(k, op, spec)


SECTIONS = [("sequence", sequence, 0), ("attenuation", attenuation, {"quick": 2, "thorough": 3}), ("adjust", adjust, {"quick": 2, "thorough": 3})]
