"""C08: the equivalent-linear iteration."""

import contextlib

import numpy as np

from mc.common import D_STRAINS, D_VALUES, FREQS, MR_STRAINS, MR_VALUES, lin_soil, nl_soil, pulse, rvt_motion
from mc.explore import Violation
from mc.ref import sh
from mc.ref.eql import Eql, RvtPeak, StrainLimitExceeded, TsPeak, Undecided
from pystrata import motion, propagation, site

ASSUMPTIONS = [
    "the half-space is linear", "peaks of random vibration motions are those of pyrvt",
    "executions in which a threshold decision is within 1e-7 of the threshold are outside the domain",
]
FAS = 0.05 * FREQS / (1 + (FREQS / 3.0) ** 2) ** 1.2


def soil(kind):
    """Real soil type and the model of it: (mr curve, damping curve, dmin)."""
    if kind == "nl":
        return nl_soil(), (MR_STRAINS, MR_VALUES), (D_STRAINS, D_VALUES), D_VALUES[0]
    if kind == "lin":
        return lin_soil(), None, None, 0.02
    if kind == "mod":
        return site.SoilType("m", 18.0, site.ModulusReductionCurve("g", MR_STRAINS, MR_VALUES), 0.03), \
            (MR_STRAINS, MR_VALUES), None, 0.03
    if kind == "damp":
        return site.SoilType("d", 18.0, None, site.DampingCurve("d", D_STRAINS, D_VALUES)), \
            None, (D_STRAINS, D_VALUES), D_VALUES[0]
    if kind == "soft":
        x, g, d = [1e-5, 1e-4, 3e-4, 5e-2], [1.0, 0.9, 0.3, 0.05], [0.005, 0.01, 0.20, 0.3]
        return site.SoilType("s", 16.0, site.ModulusReductionCurve("g", x, g), site.DampingCurve("d", x, d)), \
            (x, g), (x, d), 0.005
    if kind == "zero":  # no damping at small strain
        d = [0.0, 0.0, 0.02, 0.1, 0.2]
        return site.SoilType("z", 18.0, site.ModulusReductionCurve("g", MR_STRAINS, MR_VALUES),
                             site.DampingCurve("d", D_STRAINS, d)), (MR_STRAINS, MR_VALUES), (D_STRAINS, d), 0.0
    raise ValueError(kind)


def column(ch, n_max=3, kinds=("nl", "lin", "mod", "damp", "soft", "zero")):
    n = ch.all("n_soil", [*range(n_max, -1, -1), *([6] if n_max > 2 else [])])
    layers, spec = [], []
    depth = 0.0
    for i in range(n):
        st, mr, dc, dmin = soil(ch.choose(f"soil{i}", kinds))
        h = ch.choose(f"h{i}", [8.0, 2.0, 25])
        v = ch.choose(f"v{i}", [250.0, 120.0, 600.0])
        dm = ch.choose(f"dm{i}", [None, 0.04])
        layers.append(site.Layer(st, h, v, dm))
        rho = st.unit_wt / sh.G
        spec.append(dict(thick=float(h), rho=rho, v0=float(v), g0=rho * v**2, dmin=dmin if dm is None else dm,
                         mr=mr, dc=dc, top=depth))
        depth += h
    v = ch.choose("vr", [900.0, 400.0])
    st = lin_soil("rock", 23.0, 0.01)
    layers.append(site.Layer(st, 0, v))
    rho = 23.0 / sh.G
    spec.append(dict(thick=0.0, rho=rho, v0=v, g0=rho * v**2, dmin=0.01, mr=None, dc=None, top=depth))
    return layers, spec, n


def motions(ch, name="motion", amps=(1.0, 0.05, 6.0, 40.0)):
    amp = ch.choose(name + " amp", list(amps))
    kind = ch.choose(name, ["ts", "rvt", "ts odd", "ts fa_length"])
    if kind == "ts":
        a = pulse(32, 0.02, 0.2 * amp)
        return motion.TimeSeriesMotion("m", "", 0.02, a), TsPeak(a, 0.02)
    if kind == "ts odd":
        a = pulse(27, 0.02, 0.2 * amp)
        return motion.TimeSeriesMotion("m", "", 0.02, a, fa_length=45), TsPeak(a, 0.02, 45)
    if kind == "ts fa_length":
        a = pulse(20, 0.02, 0.2 * amp)
        return motion.TimeSeriesMotion("m", "", 0.02, a, fa_length=50), TsPeak(a, 0.02, 50)
    return rvt_motion(FREQS, FAS * amp), RvtPeak(FREQS, FAS * amp, 8.0)


def location(ch, n, spec):
    f = ch.choose("input field", ["outcrop", "within", "incoming_only"])
    at = ch.choose("input at", ["top of half-space", "surface", "mid-depth"])
    if at == "surface":
        return f, dict(index=0), (0, 0.0, f)
    if at == "mid-depth" and n > 1:
        return f, dict(depth=spec[1]["top"] + spec[1]["thick"] / 4), (1, spec[1]["thick"] / 4, f)
    return f, dict(index=-1), (n, 0.0, f)


def compare(ch, calc, p, ref, mot, mref, tag=""):
    for i, l in enumerate(p):
        ch.close(l.shear_mod, ref.mod[i], f"{tag}modulus of layer {i}", rtol=1e-6)
        ch.close(l.damping, ref.damp[i], f"{tag}damping of layer {i}", rtol=1e-6, atol=1e-9)
        ch.close(l.shear_vel, np.sqrt(np.asarray(ref.mod[i]) / ref.layers[i]["rho"]), f"{tag}velocity of layer {i}",
                 rtol=1e-6)
        ch.close(l.initial_shear_mod, ref.layers[i]["g0"], f"{tag}initial modulus of layer {i}", rtol=1e-9)
        ch.close(l.initial_shear_vel, ref.layers[i]["v0"], f"{tag}initial velocity of layer {i}", rtol=1e-9)
        if i < len(ref.layers) - 1:
            ch.close(l.strain, ref.strain[i], f"{tag}strain of layer {i}", rtol=1e-6, scale="max")
            ch.close(l.strain_max, ref.strain_max[i], f"{tag}maximum strain of layer {i}", rtol=1e-6)
    # the response the calculator reports is the one of its last iteration
    base = ref.lin
    lin = p.location(base[2], index=base[0]) if base[1] == 0 else p.location(base[2], depth=p[base[0]].depth + base[1])
    for i in sorted({0, len(p) - 1}):
        for f in ("within", "outcrop"):
            tf = ref.col.accel_tf(base, (i, 0.0, f))
            got = calc.calc_accel_tf(lin, p.location(f, index=i))
            sel = np.isfinite(tf)
            ch.close(got[sel], tf[sel], f"{tag}transfer function to layer {i} {f}", rtol=1e-5, scale="max")
    ch.state([(l.shear_mod, l.damping, l.strain_max) for l in p])


@contextlib.contextmanager
def conditioned(ch, ref, mref):
    """A difference counts only if the reference iteration itself is well conditioned:
    an iteration that does not converge can amplify rounding without bound."""
    try:
        yield
    except Violation:
        outs = []
        for eps in (0.0, 1e-11):
            r = Eql(ref.layers, ref.lin, ref.ratio, ref.tol, ref.max_iter, ref.limit, ref.method, ref.model)
            r.perturb = eps
            try:
                r.run(mref)
                outs.append(np.concatenate([np.ravel(x) for x in r.mod + r.damp]))
            except (StrainLimitExceeded, Undecided) as exc:
                outs.append(type(exc).__name__)
        a, b = outs
        if isinstance(a, str) or isinstance(b, str):
            if a is not b and a != b:
                ch.prune()
        elif a.shape != b.shape or not np.allclose(a, b, rtol=1e-8, atol=0):
            ch.prune()
        raise


def run(ch, calc, ref, mot, mref, p, loc, **kw):
    """Both must agree on completing or on refusing (strain limit)."""
    try:
        ref.run(mref, **({"reset": kw["reset_layers"]} if kw else {}))
        limit = False
    except Undecided:
        ch.prune()
    except StrainLimitExceeded:
        limit = True
    try:
        calc(mot, p, loc, **kw)
        got = False
    except RuntimeError as exc:
        got = "limit" in str(exc).lower() or repr(exc)
    ch.op(ref.iterations)
    if got not in (True, False):
        ch.fail(f"unexpected {got}")
    ch.check(got == limit, f"strain limit: the calculation {'raised' if got else 'completed'}, the reference "
                           f"{'raised' if limit else 'completed'} (strains limited in iterations {ref.limited})")
    return limit


def iterate(ch):
    layers, spec, n = column(ch)
    p = site.Profile(layers)
    f, where, rloc = location(ch, n, spec)
    mot, mref = motions(ch)
    kw = {}
    kw["strain_ratio"] = ch.choose("strain_ratio", [None, 1.0, 0.5])
    kw["tolerance"] = ch.choose("tolerance", [None, 1.0, 10.0, 1e-6])
    kw["max_iterations"] = ch.choose("max_iterations", [None, 1, 2, 3, 40])
    kw["strain_limit"] = ch.choose("strain_limit", ["default", None, 0.001, 0.0005])
    kw = {k: v for k, v in kw.items() if v is not None and v != "default" or (k == "strain_limit" and v is None)}
    calc = propagation.EquivalentLinearCalculator(**kw)
    ref = Eql(spec, rloc, kw.get("strain_ratio", 0.65), kw.get("tolerance", 0.01), kw.get("max_iterations", 15),
              kw.get("strain_limit", 0.05))
    before = ch.choose("before", [None, "strained", "linear run"])
    if before == "strained":
        for l in p:
            l.strain = 3e-3
    elif before == "linear run":
        propagation.LinearElasticCalculator()(mot, p, p.location(f, **where))
    loc = p.location(f, **where)
    with conditioned(ch, ref, mref):
        if run(ch, calc, ref, mot, mref, p, loc):
            ch.state("limit", ref.limited)
            return
        compare(ch, calc, p, ref, mot, mref)
    ch.check(calc.motion is mot and calc.profile is p and calc.loc_input is loc, "references kept by the calculator")
    for k, d in (("strain_ratio", 0.65), ("tolerance", 0.01), ("max_iterations", 15), ("strain_limit", 0.05)):
        ch.same(getattr(calc, k), kw.get(k, d), f"calc.{k}")
    if ref.error < ref.tol:
        # a fixed point: going on with the iteration does not change the properties
        worst = 0.0
        again = Eql(spec, rloc, ref.ratio, ref.tol, 1, None)
        again.mod, again.damp = [l.shear_mod for l in p], [l.damping for l in p]
        again.run(mref, reset=False)
        for l, g, d in zip(p, again.mod, again.damp):
            worst = max(worst, abs(g / l.shear_mod - 1) * 100)
        limited = ref.limited[-1]
        ch.check(limited or worst <= max(5 * ref.tol, 1e-6), f"not a fixed point: modulus changes by {worst} % "
                                                             f"in a further iteration")


def continued(ch):
    """Sequences of runs on the same profile; reset_layers=False continues from the last."""
    layers, spec, n = column(ch, 2, ("nl", "lin", "soft"))
    p = site.Profile(layers)
    rloc = (n, 0.0, "outcrop")
    mi = ch.choose("max_iterations", [15, 1, 2])
    calc = propagation.EquivalentLinearCalculator(max_iterations=mi)
    ref = Eql(spec, rloc, max_iter=mi)
    steps = 3 if ch.thorough else 2
    for s in range(steps):
        mot, mref = motions(ch, f"motion{s}", (1.0, 5.0))
        reset = ch.all(f"reset{s}", [True, False]) if s else True
        loc = p.location("outcrop", index=-1)
        if reset:
            ref = Eql(spec, rloc, max_iter=mi)
        if run(ch, calc, ref, mot, mref, p, loc, **({} if reset else {"reset_layers": False})):
            ch.state("limit")
            return
        compare(ch, calc, p, ref, mot, mref, f"run {s} ")


def ratio(ch):
    m = ch.all("mag", [4.0, 5.0, 6.5, 7, 7.5, 8.3, 1, 11])
    got = propagation.EquivalentLinearCalculator.calc_strain_ratio(m)
    ch.op()
    ch.close(got, (m - 1) / 10, "strain ratio", rtol=1e-12)
    ch.state(m)


SECTIONS = [("iterate", iterate, dict(quick=2, thorough=3)), ("continued", continued, dict(quick=1, thorough=2)),
            ("ratio", ratio, 0)]


def warm():
    p = site.Profile([site.Layer(nl_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    propagation.EquivalentLinearCalculator()(rvt_motion(), p, p.location("outcrop", index=-1))
