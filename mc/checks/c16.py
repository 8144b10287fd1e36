"""C16: what each output reports, computed from the exact solution for the same layer properties."""

import numpy as np
import pykooh

from mc.common import FREQS, lin_soil, nl_soil, pulse, rvt_motion
from mc.ref import sh
from mc.ref.eql import RvtPeak, TsPeak
from mc.checks.c12 import sdof
from pystrata import motion, output, propagation, site

ASSUMPTIONS = ["layer properties are read from the layers after the calculation (their values are the subject of C08, C09)",
               "peaks of random vibration motions are those of pyrvt, smoothing is that of pykooh"]
FAS = 0.05 * FREQS / (1 + (FREQS / 3.0) ** 2) ** 1.2
OUT_F = np.array([0.2, 0.7, 1.0, 3.3, 9.0, 20.0])


def mk_motion(kind, amp=1.0):
    if kind == "rvt":
        return rvt_motion(FREQS, FAS * amp), RvtPeak(FREQS, FAS * amp, 8.0)
    n, fal = {"ts": (32, None), "ts odd": (27, 45), "ts long": (20, 64)}[kind]
    a = pulse(n, 0.02, 0.2 * amp)
    return motion.TimeSeriesMotion("m", "", 0.02, a, fa_length=fal), TsPeak(a, 0.02, fal)


def mk_profile(ch):
    n = ch.choose("n_soil", [3, 1, 2, 7])
    kind = ch.choose("soils", ["mixed", "linear", "equal"])
    layers = []
    for i in range(n):
        if kind == "equal":
            layers.append(site.Layer(nl_soil("e"), 5.0, 220.0))
        elif kind == "linear" or i == 1:
            layers.append(site.Layer(lin_soil("l", 19.0, 0.03), 4.0 + i, 250.0 + 40 * i))
        else:
            layers.append(site.Layer(nl_soil("n"), 6.0 + i, 180.0 + 60 * i))
    layers.append(site.Layer(lin_soil("r", 23.0, 0.01), 0, 800.0))
    return site.Profile(layers, ch.choose("wt", [0, 4.5, 100.0]))


CALCS = {
    "EQL": lambda: propagation.EquivalentLinearCalculator(),
    "LE": lambda: propagation.LinearElasticCalculator(),
    "FDM": lambda: propagation.FrequencyDependentEqlCalculator("ko:30"),
}

KINDS = ["accel ts", "arias ts", "strain ts", "stress ts", "fas", "rs", "tf", "rs ratio", "max strain", "damping",
         "mod reduc", "initial vel", "compat vel", "csr", "max accel"]


def content(ch):
    kind = ch.all("output", KINDS)
    ck = ch.all("calculator", list(CALCS))
    if ck == "LE" and kind == "max strain":
        ch.prune()  # a linear calculation has no maximum strains
    mk = ch.choose("motion", ["ts", "ts odd", "ts long", "rvt"])
    if kind.endswith(" ts") and mk == "rvt":
        ch.prune()
    mot, mref = mk_motion(mk, ch.choose("amp", [1.0, 0.1, 4.0]))
    p = mk_profile(ch)
    n = len(p) - 1
    in_f = ch.choose("input", [("outcrop", -1), ("within", -1), ("within", 0), ("outcrop", "below")])
    lin = dict(index=in_f[1]) if in_f[1] != "below" else dict(depth=p[-1].depth + 3.5)
    calc = CALCS[ck]()
    try:
        calc(mot, p, p.location(in_f[0], **lin))
    except RuntimeError:
        ch.prune()  # strain limit
    freqs = np.asarray(mot.freqs)
    col = sh.Column([dict(thick=l.thickness, rho=l.density, mod=l.shear_mod, damp=l.damping) for l in p],
                    2 * np.pi * freqs)
    rin = (n, 3.5, in_f[0]) if in_f[1] == "below" else (in_f[1] % (n + 1), 0.0, in_f[0])
    if ck != "LE":
        # iterations that did not converge end with waves of other properties (see C08, C09)
        t1 = calc.calc_accel_tf(p.location(in_f[0], **lin), p.location("outcrop", index=0))
        t2 = col.accel_tf(rin, (0, 0.0, "outcrop"))
        if not np.allclose(t1, t2, rtol=0, atol=1e-3 * np.nanmax(np.abs(t2))):
            ch.prune()
    tops = np.r_[0.0, np.cumsum([l.thickness for l in p][:-1])]

    def loc(name, fields=("outcrop", "within", "incoming_only")):
        """A location by depth or index, in the library and in the model."""
        f = ch.choose(name + " field", list(fields))
        where = ch.choose(name + " at", ["surface", "mid first", "half-space", "interface", "index last", "low in last",
                                         "in half-space"])
        if where == "in half-space" and kind == "stress ts":
            ch.prune()  # no effective stress within the half-space
        d = {"surface": 0.0, "mid first": tops[1] / 2, "half-space": tops[n], "interface": tops[max(n - 1, 0)],
             "low in last": tops[n] - 0.3, "in half-space": tops[n] + 2.5}
        if where == "index last":
            return output.OutputLocation(f, index=-1), (n, 0.0, f)
        i = max(j for j in range(n + 1) if tops[j] <= d[where])
        return output.OutputLocation(f, depth=d[where]), (i, d[where] - tops[i], f)

    def tf(l):
        return col.accel_tf(rin, l)

    def fin(x):
        return np.where(np.isfinite(x), x, 0)

    def series(t):
        return mref.series(t)

    def psa(t, d):
        return np.array([mref.peak(t * sdof(freqs, f, d)) for f in OUT_F])

    rtol, scale = 1e-5, "max"
    refs = None
    if kind == "accel ts":
        ol, rl = loc("location")
        o = output.AccelerationTSOutput(ol)
        exp = series(tf(rl))
    elif kind == "arias ts":
        ol, rl = loc("location")
        o = output.AriasIntensityTSOutput(ol)
        x = series(tf(rl))
        exp = np.r_[0.0, np.cumsum((x[1:] ** 2 + x[:-1] ** 2) / 2)] * 0.02 * np.pi / 2 * sh.G
    elif kind == "strain ts":
        ol, rl = loc("location", ("within",))
        pct = ch.all("in_percent", [False, True, None])
        o = output.StrainTSOutput(ol, **({} if pct is None else dict(in_percent=pct)))
        exp = series(col.strain_tf(rin, rl)) * (100 if pct else 1)
    elif kind == "stress ts":
        ol, rl = loc("location", ("within",))
        damped, norm = ch.all("damped", [False, True]), ch.all("normalized", [False, True])
        if norm and rl[0] == 0 and rl[1] == 0:
            ch.prune()  # no stress at the surface
        kw = dict(damped=damped, normalized=norm)
        if ch.choose("options", ["given", "omitted"]) == "omitted":
            kw = {k: v for k, v in kw.items() if v}
        o = output.StressTSOutput(ol, **kw)
        t = col.strain_tf(rin, rl) * (col.gc[rl[0]] if damped else p[rl[0]].shear_mod)
        exp = series(t)
        if norm:
            z = tops[rl[0]] + rl[1]
            s = sum(l.thickness * l.unit_wt for l in p[: rl[0]]) + rl[1] * p[rl[0]].unit_wt
            exp = exp / (s - max(z - p.wt_depth, 0) * sh.G)
    elif kind == "fas":
        ol, rl = loc("location")
        ko = ch.all("ko_bandwidth", ["default", None, 20])
        o = output.FourierAmplitudeSpectrumOutput(OUT_F, ol, **({} if ko == "default" else dict(ko_bandwidth=ko)))
        y = np.abs(tf(rl) * mref.fas)
        exp = np.interp(OUT_F, freqs, y) if ko is None else pykooh.smooth(OUT_F, freqs, y, 30 if ko == "default" else ko)
        refs = OUT_F
    elif kind == "rs":
        ol, rl = loc("location")
        d = ch.choose("osc_damping", [0.05, 0.02])
        o = output.ResponseSpectrumOutput(OUT_F, ol, d)
        exp, refs = psa(tf(rl), d), OUT_F
        ch.close(o.periods, 1 / OUT_F, "periods", rtol=1e-12)
    elif kind == "tf":
        a, ra = loc("in", ("within", "outcrop", "incoming_only"))
        b, rb = loc("out")
        absolute = ch.all("absolute", [True, False])
        ko = ch.all("ko_bandwidth", [None, 25])
        if not absolute and ko:
            ch.prune()
        kw = dict(ko_bandwidth=ko, absolute=absolute)
        if ch.choose("options", ["given", "omitted"]) == "omitted":
            kw = {k: v for k, v in kw.items() if v not in (None, True)}
        o = output.AccelTransferFunctionOutput(OUT_F, a, b, **kw)
        y = col.accel_tf(ra, rb)
        y = np.abs(y) if absolute else y
        exp = pykooh.smooth(OUT_F, freqs, y, ko) if ko else np.array(
            [np.interp(f, freqs, np.real(y)) + 1j * np.interp(f, freqs, np.imag(y)) for f in OUT_F])
        exp = np.real(exp) if absolute else exp
        refs = OUT_F
    elif kind == "rs ratio":
        a, ra = loc("in", ("within", "outcrop", "incoming_only"))
        b, rb = loc("out")
        d = ch.choose("osc_damping", [0.05, 0.02])
        o = output.ResponseSpectrumRatioOutput(OUT_F, a, b, d)
        exp, refs = psa(tf(rb), d) / psa(tf(ra), d), OUT_F
        ch.close(o.periods, 1 / OUT_F, "periods", rtol=1e-12)
    elif kind in ("max strain", "csr"):
        mids = [l.depth_mid for l in p][:-1]
        refs = np.r_[0, mids]
        exp = []
        if kind == "max strain":
            o = output.MaxStrainProfile()
            exp = [0.0] + [l.strain_max for l in p[:-1]]
        else:
            o = output.CyclicStressRatioProfile()
            s = 0.0
            for i, l in enumerate(p[:-1]):
                z = l.depth + l.thickness / 2
                eff = s + l.thickness / 2 * l.unit_wt - max(z - p.wt_depth, 0) * sh.G
                exp.append(0.65 * mref.peak(col.strain_tf(rin, (i, l.thickness / 2, "within")) * l.shear_mod) / eff)
                s += l.thickness * l.unit_wt
            exp = [exp[0]] + exp
        exp = np.array(exp)
        # maximum strains of an equivalent-linear run belong to its last iteration
    elif kind in ("damping", "mod reduc", "initial vel", "compat vel"):
        o = {"damping": output.DampingProfile, "mod reduc": output.ShearModReducProfile,
             "initial vel": output.InitialVelProfile, "compat vel": output.CompatVelProfile}[kind]()
        get = {"damping": lambda l: np.max(l.damping), "initial vel": lambda l: l.initial_shear_vel,
               "mod reduc": lambda l: np.min(l.shear_mod) / (l.density * l.initial_shear_vel**2),
               "compat vel": lambda l: np.min(np.sqrt(np.asarray(l.shear_mod) / l.density))}[kind]
        v = [get(l) for l in p[:-1]]
        exp, refs = np.array([v[0]] + v), tops
    else:
        o = output.MaxAccelProfile()
        exp = np.array([mref.peak(fin(col.accel_tf(rin, (i, 0.0, "within")))) for i in range(n + 1)])
        refs = tops
    if not np.all(np.isfinite(exp)):
        ch.prune()  # resonance of a rigid base at zero frequency and the like
    o(calc, name="run")
    ch.op()
    if refs is None:
        refs = 0.02 * np.arange(len(exp))
    ch.close(o.refs, refs, "references", rtol=1e-9, atol=1e-9)
    # equivalent linear runs end with waves of the last iteration: within their tolerance
    ch.close(o.values, exp, "values", rtol=1e-5 if ck == "LE" else 3e-3, scale=scale)
    ch.same(list(o.names), ["run"], "names")
    got = list(o.iter_results())
    ch.same(len(got), 1, "number of results")
    ch.check(got[0][0] == "run" and np.array_equal(got[0][1], o.refs) and np.array_equal(got[0][2], o.values),
             "results of the iteration")
    for f in freqs_attr(o):
        ch.close(getattr(o, f), o.refs, f, rtol=0)
    ch.state(kind, ck, o.values)


def freqs_attr(o):
    return [a for a in ("freqs", "times") if hasattr(o, a)]


def refuses(ch):
    """Time series of motions that have none; strains of other wave fields."""
    k = ch.all("case", ["accel", "arias", "strain", "stress", "strain outcrop", "stress incoming"])
    L = output.OutputLocation
    try:
        if k == "strain outcrop":
            output.StrainTSOutput(L("outcrop", index=0))
        elif k == "stress incoming":
            output.StressTSOutput(L("incoming_only", index=0))
        else:
            p = site.Profile([site.Layer(lin_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
            calc = propagation.LinearElasticCalculator()
            calc(rvt_motion(), p, p.location("outcrop", index=-1))
            o = {"accel": output.AccelerationTSOutput, "arias": output.AriasIntensityTSOutput,
                 "strain": output.StrainTSOutput, "stress": output.StressTSOutput}[k](L("within", depth=2.0))
            o(calc)
    except Exception:
        ch.op()
        ch.state(k)
        return
    ch.fail(f"{k}: accepted")


SECTIONS = [("content", content, dict(quick=2, thorough=3)), ("refuses", refuses, 0)]


def warm():
    mot, _ = mk_motion("ts")
    p = site.Profile([site.Layer(nl_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    for f in CALCS.values():
        f()(mot, p, p.location("outcrop", index=-1))
