"""C01: transfer functions between any two locations are the exact SH solution.
(C02 uses the same drivers for strain and stress.)"""

import numpy as np

from mc.common import FREQS, lin_soil, nl_soil, rvt_motion, ts_motion
from mc.ref import sh
from pystrata import propagation, site

ASSUMPTIONS = [
    "layer thickness/density/modulus/damping are taken from the alphabet; frequencies are the listed grid",
    "tolerance 1e-6 relative to the largest amplitude along the frequency grid",
]

THICK = [10.0, 0.1, 150.0, 3]
VEL = [300.0, 150.0, 1500.0, 300]
UW = [18.0, 22.0]
DAMP = [0.02, 0.0, 0.30, 0.8]
FIELDS = ["within", "outcrop", "incoming_only"]

FREQ_SETS = [
    ("grid", lambda: rvt_motion()),
    ("timeseries", lambda: ts_motion(32)),
    ("one", lambda: rvt_motion([1.3], [0.1])),
    ("tiny", lambda: rvt_motion([1e-5, 1e-3, 0.2], [0.1, 0.1, 0.1])),
    ("descending", lambda: rvt_motion(FREQS[::-1], np.ones(FREQS.size))),
]


def build_column(ch, max_soil):
    """Real profile and model of a column; every attribute is a choice."""
    n = ch.all("n_soil", list(range(max_soil, -1, -1)))
    spec, layers = [], []
    for i in range(n):
        h = ch.choose(f"h{i}", THICK)
        v = ch.choose(f"v{i}", VEL)
        uw = ch.choose(f"uw{i}", UW)
        kind = ch.choose(f"d{i}", DAMP + ["nl"])
        if kind == "nl":
            st, d = nl_soil(unit_wt=uw), 0.01
        else:
            st, d = lin_soil(unit_wt=uw, damping=kind), kind
        over = ch.choose(f"dm{i}", [None, 0.05])
        layers.append(site.Layer(st, h, v, over) if over is not None else site.Layer(st, h, v))
        spec.append(dict(thick=h, v=float(v), uw=uw, damp=d if over is None else over))
    v = ch.choose("vr", [800.0, 300.0, 150.0])
    uw = ch.choose("uwr", [24.0, 18.0])
    d = ch.choose("dr", [0.005, 0.0, 0.2])
    hr = ch.choose("hr", [0.0, 25.0])
    layers.append(site.Layer(lin_soil("rock", uw, d), hr, v))
    spec.append(dict(thick=hr, v=v, uw=uw, damp=d))
    depth = 0.0
    for s in spec:
        s["top"] = depth
        s["rho"] = s["uw"] / sh.G
        s["mod"] = s["rho"] * s["v"] ** 2
        depth += s["thick"]
    return site.Profile(layers), spec


def loc_options(spec):
    """(kind, value) positions: layer tops by index, depths inside layers, in rock."""
    n = len(spec)
    opts = [("index", n - 1), ("index", 0), ("index", -1)]
    opts += [("index", i) for i in range(1, n - 1)]
    for i in range(n - 1):
        opts.append(("depth", spec[i]["top"] + spec[i]["thick"] / 2))
        opts.append(("depth", spec[i]["top"]))
    opts.append(("depth", spec[-1]["top"]))
    opts.append(("depth", spec[-1]["top"] + 7.5))
    return opts


def model_loc(spec, pos):
    kind, val = pos
    if kind == "index":
        return val % len(spec), 0.0
    for i, s in enumerate(spec[:-1]):
        if s["top"] <= val < s["top"] + s["thick"]:
            return i, val - s["top"]
    return len(spec) - 1, val - spec[-1]["top"]


def real_loc(ch, name, profile, spec, first=0):
    opts = loc_options(spec)
    opts = opts[first:first + 1] + opts[:first] + opts[first + 1:]
    pos = ch.choose(name, opts)
    field = ch.choose(name + ".field", FIELDS if first else ["outcrop", "within", "incoming_only"])
    arg = ch.choose(name + ".enum", [False, True])
    wf = propagation.WaveField[field] if arg else field
    loc = profile.location(wf, **{pos[0]: pos[1]})
    i, z = model_loc(spec, pos)
    return loc, (i, z, field)


def accel(ch, max_soil=2):
    mname, mk = ch.choose("motion", FREQ_SETS)
    profile, spec = build_column(ch, max_soil)
    lin, min_ = real_loc(ch, "in", profile, spec, 0)
    lout, mout = real_loc(ch, "out", profile, spec, 1)
    m = mk()
    calc = propagation.LinearElasticCalculator()
    calc(m, profile, lin)
    col = sh.Column(spec, 2 * np.pi * m.freqs)
    ref = col.accel_tf(min_, mout)
    ok = np.abs(col.disp(*min_)) > 1e-9
    act = np.asarray(calc.calc_accel_tf(lin, lout))
    ch.op(3)
    ch.check(act.shape == m.freqs.shape, f"transfer function shape {act.shape}")
    ch.close(act[ok], ref[ok], "accel tf", rtol=1e-6, scale="max")
    # wave field at a location is consistent with the ratio
    num = np.asarray(calc.wave_at_location(lout))
    den = np.asarray(calc.wave_at_location(lin))
    ch.close((num / den)[ok], ref[ok], "wave_at_location ratio", rtol=1e-6, scale="max")
    ch.close(np.asarray(calc.calc_accel_tf(lout, lout)), np.ones(m.freqs.size), "identity tf",
             rtol=1e-9) if np.all(np.abs(num) > 0) else None
    ch.state(act)


def column_walk(ch, max_soil=5):
    """Deep columns: all wave fields at all positions of one profile, from one run."""
    n = ch.all("n_soil", [max_soil, 3, 1] if isinstance(max_soil, int) else max_soil)
    mname, mk = ch.choose("motion", FREQ_SETS[:3])
    spec, layers = [], []
    pat = ch.choose("pattern", ["increasing", "inversion", "equal", "alternating", "thin"])
    shared = ch.choose("soil", ["own", "shared", "same layer params"])
    st = nl_soil("shared", 19.0)
    for i in range(n):
        v = {"increasing": 180.0 + 90 * i, "inversion": max(600.0 - 90 * i, 100.0 + i), "equal": 250.0,
             "alternating": 200.0 if i % 2 else 500.0, "thin": 220.0 + 10 * i}[pat]
        h = {"thin": 0.05, "equal": 5.0}.get(pat, 4.0 + 3 * i if n < 9 else 1.0 + 0.1 * i)
        d = 0.01 + 0.01 * i if n < 9 else 0.01 + 0.001 * i
        uw = 17.0 + 0.5 * i if n < 9 else 17.0 + 0.1 * i
        if shared == "shared":
            d, uw = 0.01, 19.0
            layers.append(site.Layer(st, h, v))
        elif shared == "own":
            layers.append(site.Layer(lin_soil("s", uw, d), h, v))
        else:
            h, v, d, uw = 6.0, 240.0, 0.03, 18.0
            layers.append(site.Layer(lin_soil("s", uw, d), h, v))
        spec.append(dict(thick=h, v=v, damp=d, uw=uw))
    rock_equal = ch.choose("rock", ["stiff", "same as soil"])
    if rock_equal == "stiff":
        layers.append(site.Layer(lin_soil("r", 24.0, 0.01), 0, 900.0))
        spec.append(dict(thick=0.0, v=900.0, damp=0.01, uw=24.0))
    else:
        layers.append(site.Layer(layers[0].soil_type, layers[0].thickness, layers[0].initial_shear_vel))
        spec.append(dict(spec[0]))
    depth = 0.0
    for s in spec:
        s["top"] = depth
        s["rho"] = s["uw"] / sh.G
        s["mod"] = s["rho"] * s["v"] ** 2
        depth += s["thick"]
    how = ch.choose("build", ["list", "append", "insert"])
    if how == "list":
        profile = site.Profile(layers)
    elif how == "append":
        profile = site.Profile()
        for l in layers:
            profile.append(l)
    else:
        profile = site.Profile([layers[-1]])
        for l in layers[-2::-1]:
            profile.insert(0, l)
    m = mk()
    calc = propagation.LinearElasticCalculator()
    pos_in = ch.choose("in", loc_options(spec))
    field_in = ch.choose("in.field", ["outcrop", "within", "incoming_only"])
    lin = profile.location(field_in, **{pos_in[0]: pos_in[1]})
    calc(m, profile, lin)
    col = sh.Column(spec, 2 * np.pi * m.freqs)
    mi = model_loc(spec, pos_in) + (field_in,)
    ok = np.abs(col.disp(*mi)) > 1e-9
    sig = []
    for pos in loc_options(spec):
        for field in FIELDS:
            lout = profile.location(field, **{pos[0]: pos[1]})
            mo = model_loc(spec, pos) + (field,)
            act = calc.calc_accel_tf(lin, lout)
            ch.op()
            ch.close(act[ok], col.accel_tf(mi, mo)[ok], f"accel tf to {pos} {field}", rtol=1e-6, scale="max")
            sig.append(act[-1])
    ch.state(np.array(sig))


def deep(ch):
    column_walk(ch, [12, 33])


def strained(ch):
    """reset_layers=False keeps the strain-compatible properties; True discards them."""
    reset = ch.all("reset", [True, False])
    strain = ch.all("strain", [1e-4, 3e-3, "vector"])
    nlay = ch.all("n", [1, 2, 3])
    m = rvt_motion()
    if strain == "vector":
        strain = 1e-4 * (1 + np.arange(m.freqs.size))
    layers = [site.Layer(nl_soil(), 5.0 + i, 200.0 + 50 * i) for i in range(nlay)]
    rock = ch.all("rock", ["lin", "nl"])
    layers.append(site.Layer(lin_soil("rock", 24.0, 0.01) if rock == "lin" else nl_soil("rock", 24.0), 0, 900.0))
    p = site.Profile(layers)
    for l in layers if rock == "nl" else layers[:-1]:
        l.strain = strain
    spec = []
    rows = list(zip([5.0, 6.0, 7.0], [200.0, 250.0, 300.0], [18.0] * 3))[:nlay]
    for h, v, uw in rows + ([(0.0, 900.0, 24.0)] if rock == "nl" else []):
        rho = uw / sh.G
        if reset:
            spec.append(dict(thick=h, rho=rho, mod=rho * v**2, damp=0.01))
        else:
            from mc.ref.soil import interp_curve
            from mc.common import D_STRAINS, D_VALUES, MR_STRAINS, MR_VALUES

            spec.append(dict(thick=h, rho=rho, mod=rho * v**2 * interp_curve(MR_STRAINS, MR_VALUES, strain, (0.001, 1)),
                             damp=interp_curve(D_STRAINS, D_VALUES, strain, (0, 0.49))))
    if rock == "lin":
        spec.append(dict(thick=0, rho=24 / sh.G, mod=24 / sh.G * 900.0**2, damp=0.01))
    calc = propagation.LinearElasticCalculator()
    lin = p.location("outcrop", index=-1)
    calc(m, p, lin, reset_layers=reset)
    col = sh.Column(spec, 2 * np.pi * m.freqs)
    for i in range(nlay):
        act = calc.calc_accel_tf(lin, p.location("within", index=i))
        ch.op()
        ch.close(act, col.accel_tf((nlay, 0, "outcrop"), (i, 0, "within")), f"layer {i} tf", rtol=1e-7, scale="max")
        ch.state(act)


def warm():
    accel_once = __import__("mc.explore", fromlist=["execute"]).execute
    accel_once(accel, [], 0, "quick")


SECTIONS = [
    ("accel", accel, dict(quick=3, thorough=4)),
    ("column", column_walk, dict(quick=3, thorough=6)),
    ("deep", deep, dict(quick=1, thorough=2)),
    ("strained", strained, 0),
]
