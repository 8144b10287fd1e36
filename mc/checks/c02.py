"""C02: strain and stress transfer functions are the derivative of the same solution."""

import numpy as np

from mc.checks.c01 import FIELDS, FREQ_SETS, build_column, loc_options, model_loc, real_loc
from mc.common import lin_soil, nl_soil, rvt_motion
from mc.ref import sh
from pystrata import propagation, site

ASSUMPTIONS = ["frequency grid and layer alphabet as in C01", "tolerance 1e-6 of the largest amplitude"]


def interior(spec):
    out = []
    for i, s in enumerate(spec):
        h = s["thick"]
        if i < len(spec) - 1:
            out += [(i, h / 2), (i, 0.0), (i, h), (i, 0.25 * h)]
        else:
            out += [(i, 0.0), (i, 4.0)]
    return out


def check_all(ch, calc, profile, spec, m, lin, mi, col, mods):
    ok = np.abs(col.disp(*mi)) > 1e-9
    for i, z in ch.choose("outs", [("#first", interior(spec)[:6]), ("#all", interior(spec))])[1]:
        loc = site.Location(i, profile[i], "within", z)
        ref = col.strain_tf(mi, (i, z, "within"))
        act = np.asarray(calc.calc_strain_tf(lin, loc))
        ch.op(3)
        # scale: velocity-like amplitude over shear-wave velocity
        with np.errstate(all="ignore"):
            sc = np.nanmax(np.where(ok, np.abs(sh.G * col.k[i] * (np.abs(col.disp(i, z, "incoming_only")) * 2)
                                              / (col.ang**2 * col.disp(*mi))), np.nan))
        if not np.isfinite(sc):
            sc = 1.0
        ch.check(act.shape == m.freqs.shape, "strain tf shape")
        ch.close(act[ok], ref[ok], f"strain tf layer {i} z={z}", rtol=1e-6, scale=sc)
        for damped in (True, False):
            st = np.asarray(calc.calc_stress_tf(lin, loc, damped))
            f = col.gc[i] if damped else mods[i]
            fmax = np.max(np.abs(f))
            ch.close(st[ok], (ref * f)[ok], f"stress tf damped={damped} layer {i} z={z}", rtol=1e-6,
                     scale=sc * fmax)
        if i == 0 and z == 0:
            ch.check(np.all(np.abs(act[ok]) <= 1e-12 * sc), "strain at the free surface is not zero")
        ch.state(act)
    # the damped stress is continuous across every interface
    for i in range(len(spec) - 1):
        up = calc.calc_stress_tf(lin, site.Location(i, profile[i], "within", spec[i]["thick"]), True)
        dn = calc.calc_stress_tf(lin, site.Location(i + 1, profile[i + 1], "within", 0), True)
        sc = np.max(np.abs(np.asarray(up)[ok])) if ok.any() else 0
        ch.op()
        ch.close(np.asarray(up)[ok], np.asarray(dn)[ok], f"stress continuity at interface {i}", rtol=1e-5, scale=sc)


def strain_stress(ch):
    mname, mk = ch.choose("motion", FREQ_SETS)
    profile, spec = build_column(ch, 3 if ch.thorough else 2)
    lin, mi = real_loc(ch, "in", profile, spec, 0)
    m = mk()
    calc = propagation.LinearElasticCalculator()
    calc(m, profile, lin)
    col = sh.Column(spec, 2 * np.pi * m.freqs)
    check_all(ch, calc, profile, spec, m, lin, mi, col, [s["mod"] for s in spec])


def strained(ch):
    """Strain-compatible properties, scalar and frequency dependent."""
    n = ch.all("n", [1, 2])
    strain = ch.all("strain", [2e-4, 5e-3, "vector"])
    field = ch.all("field", FIELDS)
    m = rvt_motion()
    if strain == "vector":
        strain = 1e-4 * (1 + np.arange(m.freqs.size))
    layers = [site.Layer(nl_soil(), 5.0 + i, 200.0 + 50 * i) for i in range(n)]
    rock = ch.all("rock", ["lin", "nl"])
    layers.append(site.Layer(lin_soil("rock", 24.0, 0.01) if rock == "lin" else nl_soil("rock", 24.0), 0, 900.0))
    p = site.Profile(layers)
    for l in layers if rock == "nl" else layers[:-1]:
        l.strain = strain
    from mc.common import D_STRAINS, D_VALUES, MR_STRAINS, MR_VALUES
    from mc.ref.soil import interp_curve

    spec = []
    for i in range(n + (rock == "nl")):
        uw, v, h = (18.0, 200.0 + 50 * i, 5.0 + i) if i < n else (24.0, 900.0, 0.0)
        rho = uw / sh.G
        spec.append(dict(thick=h, rho=rho,
                         mod=rho * v**2 * interp_curve(MR_STRAINS, MR_VALUES, strain, (0.001, 1)),
                         damp=interp_curve(D_STRAINS, D_VALUES, strain, (0, 0.49))))
    if rock == "lin":
        spec.append(dict(thick=0, rho=24 / sh.G, mod=24 / sh.G * 900.0**2, damp=0.01))
    lin = p.location(field, index=-1)
    calc = propagation.LinearElasticCalculator()
    calc(m, p, lin, reset_layers=False)
    col = sh.Column(spec, 2 * np.pi * m.freqs)
    check_all(ch, calc, p, spec, m, lin, (n, 0, field), col, [s["mod"] for s in spec])


def deep(ch):
    """Columns of many layers."""
    n = ch.all("n", [12, 33])
    pat = ch.choose("pattern", ["increasing", "alternating", "equal"])
    soil = ch.choose("soil", ["own", "shared"])
    mname, mk = ch.choose("motion", FREQ_SETS[:3])
    shared = nl_soil("shared", 19.0)
    spec, layers, top = [], [], 0.0
    for i in range(n):
        v = {"increasing": 180.0 + 20 * i, "equal": 250.0, "alternating": 200.0 if i % 2 else 450.0}[pat]
        h, d, uw = (1.0 + 0.1 * i, 0.01 + 0.001 * i, 17.0 + 0.1 * i) if pat != "equal" else (2.0, 0.02, 18.0)
        if soil == "shared":
            d, uw = 0.01, 19.0
        layers.append(site.Layer(shared if soil == "shared" else lin_soil("s", uw, d), h, v))
        spec.append(dict(thick=h, damp=d, rho=uw / sh.G, mod=uw / sh.G * v**2, top=top))
        top += h
    layers.append(site.Layer(lin_soil("r", 24.0, 0.01), 0, 900.0))
    spec.append(dict(thick=0.0, damp=0.01, rho=24 / sh.G, mod=24 / sh.G * 900.0**2, top=top))
    p = site.Profile(layers)
    lin, mi = real_loc(ch, "in", p, spec, 0)
    m = mk()
    calc = propagation.LinearElasticCalculator()
    calc(m, p, lin)
    check_all(ch, calc, p, spec, m, lin, mi, sh.Column(spec, 2 * np.pi * m.freqs), [s["mod"] for s in spec])


def warm():
    from mc.explore import execute

    execute(strain_stress, [], 0, "quick")


SECTIONS = [
    ("strain_stress", strain_stress, dict(quick=2, thorough=3)),
    ("deep", deep, dict(quick=1, thorough=2)),
    ("strained", strained, 1),
]
