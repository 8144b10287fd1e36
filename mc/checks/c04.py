"""C04: the complex modulus follows the selected damping model."""

import numpy as np

import pystrata.site as site
from mc.checks.c01 import model_loc
from mc.common import D_STRAINS, D_VALUES, MR_STRAINS, MR_VALUES, lin_soil, nl_soil, rvt_motion
from mc.ref import sh
from mc.ref.soil import interp_curve
from pystrata import propagation

ASSUMPTIONS = ["the model is selected with pystrata.site.COMP_MODULUS_MODEL, as documented by the examples"]
MODELS = [None, "dormieux", "seed", "kramer"]
DAMPS = [0.02, 0.0, 0.1, 0.35, 0.48, 0.49, 0.495, 0.5, 0.75, 1.5, -0.01, 1, np.float64(0.07)]


def with_model(model, fn):
    old = site.COMP_MODULUS_MODEL
    if model is not None:
        site.COMP_MODULUS_MODEL = model
    try:
        return fn()
    finally:
        site.COMP_MODULUS_MODEL = old


def modulus(ch):
    model = ch.all("model", MODELS)
    d = ch.all("damping", DAMPS)
    v = ch.all("vel", [200.0, 1500.0, 35])
    uw = ch.choose("uw", [18.0, 25])
    how = ch.choose("how", ["layer damping_min", "soil damping", "setter"])
    st = lin_soil(unit_wt=uw, damping=d if how == "soil damping" else 0.02)
    if how == "layer damping_min":
        layer = site.Layer(st, 10.0, v, d)
    elif how == "soil damping":
        layer = site.Layer(st, 10.0, v)
    else:
        layer = site.Layer(st, 10.0, v)
        layer.damping_min = d
    name = model or "dormieux"
    rho = uw / sh.G
    g = rho * v**2
    gc = sh.comp_mod(g, d, name)
    got, vel = with_model(model, lambda: (layer.comp_shear_mod, layer.comp_shear_vel))
    ch.op(2)
    ch.close(got, gc, f"complex modulus ({name})", rtol=1e-10)
    ch.close(vel, np.sqrt(gc / rho), f"complex velocity ({name})", rtol=1e-10)
    dc = min(max(d, 0), 0.49)
    # loss angle and magnitude: what distinguishes the models
    ch.close(np.imag(got), 2 * dc * g, "dissipated energy", rtol=1e-10)
    if name == "dormieux":
        ch.close(abs(got), g, "magnitude of the modulus", rtol=1e-10)
    if name == "kramer":
        ch.close(abs(got), g * (1 + dc**2), "magnitude of the modulus", rtol=1e-9)
    if name == "seed":
        ch.close(np.real(got), g, "real part of the modulus", rtol=1e-12)
    ch.close(layer.shear_mod, g, "real modulus is unchanged", rtol=1e-12)
    ch.close(layer.initial_shear_mod, g, "initial modulus", rtol=1e-12)
    ch.close(layer.damping, d, "damping of the layer itself is not clipped", rtol=1e-12)
    ch.state(got)


def strained(ch):
    model = ch.all("model", MODELS)
    strain = ch.all("strain", [1e-6, 3e-4, 0.01, "vector"])
    dm = ch.all("damping_min", [None, 0.05, 0.35])
    scale = ch.choose("dscale", [1.0, 2.4])
    if strain == "vector":
        strain = np.array([1e-6, 1e-4, 2e-3, 0.5])
    st = nl_soil(dscale=scale)
    layer = site.Layer(st, 10.0, 200.0, dm)
    layer.strain = strain
    g = 18.0 / sh.G * 200.0**2 * interp_curve(MR_STRAINS, MR_VALUES, strain, (0.001, 1))
    dv = np.array(D_VALUES) * scale
    d = interp_curve(D_STRAINS, dv, strain, (0, 0.49))
    if dm is not None:
        d = d - dv[0] + dm
    gc = sh.comp_mod(g, d, model or "dormieux")
    got, vel = with_model(model, lambda: (layer.comp_shear_mod, layer.comp_shear_vel))
    ch.op(2)
    ch.close(got, gc, "complex modulus", rtol=1e-10)
    ch.close(vel, np.sqrt(gc / (18 / sh.G)), "complex velocity", rtol=1e-10)
    ch.state(got)


def through_calc(ch):
    """The selected model is the one the wave propagation uses, at call time."""
    models = [ch.all(f"model{i}", MODELS[1:]) for i in range(2)]
    d = ch.all("damping", [0.02, 0.2, 0.7])
    m = rvt_motion()
    p = site.Profile([site.Layer(lin_soil(damping=d), 20.0, 250.0), site.Layer(lin_soil("r", 24.0, d / 2), 0, 800.0)])
    lin = p.location("outcrop", index=-1)
    lout = p.location("outcrop", index=0)
    spec = [dict(thick=20.0, rho=18 / sh.G, mod=18 / sh.G * 250.0**2, damp=d),
            dict(thick=0.0, rho=24 / sh.G, mod=24 / sh.G * 800.0**2, damp=d / 2)]
    calc = propagation.LinearElasticCalculator()
    for model in models:
        act = with_model(model, lambda: (calc(m, p, lin), calc.calc_accel_tf(lin, lout))[1])
        ref = sh.Column(spec, 2 * np.pi * m.freqs, model).accel_tf((1, 0, "outcrop"), (0, 0, "outcrop"))
        ch.op()
        ch.close(act, ref, f"transfer function with {model}", rtol=1e-8, scale="max")
        mods = with_model(model, lambda: (p.comp_shear_mod, p.comp_shear_vel))
        refm = np.array([sh.comp_mod(s["mod"], s["damp"], model) for s in spec])
        ch.close(mods[0], refm, "profile complex modulus", rtol=1e-10)
        ch.close(mods[1], np.sqrt(refm / np.array([s["rho"] for s in spec])), "profile complex velocity", rtol=1e-10)
        st = lin_loc = None
        loc = site.Location(0, p[0], "within", 10.0)
        sa = with_model(model, lambda: calc.calc_stress_tf(lin, loc, True))
        sb = calc.calc_stress_tf(lin, loc, False)
        et = calc.calc_strain_tf(lin, loc)
        ch.close(sa, et * refm[0], "damped stress", rtol=1e-9, scale="max")
        ch.close(sb, et * spec[0]["mod"], "undamped stress", rtol=1e-9, scale="max")
        ch.state(act)


def unknown(ch):
    name = ch.all("model", ["Seed", "", "none", "dormieux "])
    layer = site.Layer(lin_soil(), 10.0, 200.0)
    try:
        got = with_model(name, lambda: layer.comp_shear_mod)
    except Exception:
        ch.op()
        ch.state(name)
        return
    ch.fail(f"unknown model {name!r} silently gives {got!r}")


SECTIONS = [
    ("modulus", modulus, 2),
    ("strained", strained, 1),
    ("through_calc", through_calc, 0),
    ("unknown", unknown, 0),
]
