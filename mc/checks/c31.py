"""C31: plots show the collected results and profiles under their names, and change nothing."""

import math
import os
import warnings

os.environ["MPLBACKEND"] = "Agg"

import matplotlib  # noqa: E402

matplotlib.use("Agg")

import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402

from mc.checks.c17 import mean_std  # noqa: E402
from mc.common import FREQS, lin_soil, nl_soil, pulse, rvt_motion  # noqa: E402
from mc.ref import sh  # noqa: E402
from pystrata import motion, output, propagation, site  # noqa: E402

ASSUMPTIONS = ["the style of the lines is not judged", "results are positive where statistics are drawn"]
L = output.OutputLocation
F = [0.5, 2.0, 10.0]
FAS = 0.05 * FREQS / (1 + (FREQS / 3.0) ** 2) ** 1.2
_RUNS = {}


def run(kind, n, vel, n_t):
    k = kind, n, vel, n_t
    if k not in _RUNS:
        p = site.Profile([site.Layer(nl_soil(), 4.0 + i, vel * (1 + 0.3 * i)) for i in range(n)] + [site.Layer(lin_soil("r", 23, 0.01), 0, 900.0)])
        m = rvt_motion(FREQS, FAS) if kind == "rvt" else motion.TimeSeriesMotion("mem", "m", 0.02, pulse(n_t, 0.02, 0.2))
        c = propagation.EquivalentLinearCalculator()
        c(m, p, p.location("outcrop", index=-1))
        _RUNS[k] = c
    return _RUNS[k]


TOP, BASE = L("outcrop", index=0), L("outcrop", index=-1)
OUT = {  # name: (maker, kind of motion, x label, y label, scales)
    "rs": (lambda f=F: output.ResponseSpectrumOutput(f, TOP, 0.05), "rvt", "Frequency (Hz)", "5%-Damped, Spec. Accel. (g)", ("log", "log")),
    "fas": (lambda f=F: output.FourierAmplitudeSpectrumOutput(f, TOP, ko_bandwidth=None), "rvt", "Frequency (Hz)", None, ("log", "log")),
    "tf": (lambda f=F: output.AccelTransferFunctionOutput(f, BASE, TOP), "rvt", "Frequency (Hz)", None, ("log", "log")),
    "ratio": (lambda f=F: output.ResponseSpectrumRatioOutput(f, BASE, TOP, 0.025), "rvt", "Frequency (Hz)", "2.5%-Damped, Resp. Spectral Ratio", ("log", "log")),
    "accel": (lambda: output.AccelerationTSOutput(TOP), "ts", "Time (sec)", "Acceleration (g)", ("linear", "linear")),
    "strain ts": (lambda: output.StrainTSOutput(L("within", depth=2.0)), "ts", "Time (sec)", "Shear Strain (dec)", ("linear", "linear")),
    "strain ts %": (lambda: output.StrainTSOutput(L("within", depth=2.0), in_percent=True), "ts", "Time (sec)", "Shear Strain (%)", ("linear", "linear")),
    "stress ts": (lambda: output.StressTSOutput(L("within", depth=2.0)), "ts", "Time (sec)", "Stress (τ)", ("linear", "linear")),
    "stress ratio ts": (lambda: output.StressTSOutput(L("within", depth=2.0), normalized=True), "ts", "Time (sec)", "Stress Ratio (τ/σ`ᵥ)", ("linear", "linear")),
    "csr": (lambda: output.CyclicStressRatioProfile(), "rvt", "Cyclic Stress Ratio", "Depth (m)", ("log", "linear")),
    "arias": (lambda: output.AriasIntensityTSOutput(TOP), "ts", "Time (sec)", "Arias Intensity (m/s)", ("linear", "linear")),
    "strain": (lambda: output.MaxStrainProfile(), "rvt", "Max. Strain (dec)", "Depth (m)", ("log", "linear")),
    "damping": (lambda: output.DampingProfile(), "rvt", "Damping (dec)", "Depth (m)", ("log", "linear")),
    "vel": (lambda: output.InitialVelProfile(), "rvt", "Initial Velocity (m/s)", "Depth (m)", ("log", "linear")),
    "compat": (lambda: output.CompatVelProfile(), "rvt", "Strain-Compatible Velocity (m/s)", "Depth (m)", ("log", "linear")),
    "mod": (lambda: output.ShearModReducProfile(), "rvt", "G/Gmax", "Depth (m)", ("log", "linear")),
    "max accel": (lambda: output.MaxAccelProfile(), "rvt", "Max. Accel. (g)", "Depth (m)", ("log", "linear")),
}
DEPTH = {"csr", "strain", "damping", "vel", "compat", "mod", "max accel"}


def result(kind, c, *freqs):
    """Reference and values of one calculation, from a new output."""
    o = OUT[kind][0](*freqs)
    o(c)
    return np.array(o.refs, float), np.array(o.values, float)


def trim(x, y):
    k = np.isfinite(np.asarray(x, float)) & np.isfinite(np.asarray(y, float))
    return np.asarray(x, float)[k], np.asarray(y, float)[k]


def data(line):
    return trim(line.get_xdata(), line.get_ydata())


def outputs(ch):
    kind = ch.all("output", list(OUT))
    maker, mot, xlabel, ylabel, scales = OUT[kind]
    n = ch.all("results", [1, 2, 3, 4])
    style = ch.all("style", ["default", "indiv", "stats"])
    freqs = [ch.choose("frequencies", [F, F[::-1], [2.0, 0.5, 10.0], [3.0]])] if kind in ("rs", "fas", "tf", "ratio") else []
    o = maker(*freqs)
    single, names = [], []
    for i in range(n):
        c = run(mot, ch.choose(f"layers{i}", [2, 1, 3]), ch.choose(f"vel{i}", [200.0 + 40 * i, 150.0]), ch.choose(f"length{i}", [32, 20]))
        name = ch.choose(f"name{i}", [f"run {i}", None])
        o(c, name)
        single.append(result(kind, c, *freqs))
        names.append(name or f"r{i + 1}")
    depth = kind in DEPTH
    drawn = ("stats" if depth else "indiv") if style == "default" else style
    stats = drawn == "stats"
    if stats and mot == "ts":
        ch.prune()
    how = ch.choose("axes", ["given", "made", "used before", "drawn before", "shared depth"])
    before = np.array(o.refs), np.array(o.values), list(o.names)
    ax = None
    if how != "made":
        ax = Figure().subplots()
    if how == "used before":
        o.plot(ax, **({} if style == "default" else {"style": style})) if not (stats and n == 2) else None
        ax.clear()
    n_before = 0
    if how in ("drawn before", "shared depth"):
        if stats and n == 2:
            ch.prune()
        other = ax
        if how == "shared depth":
            if not depth:
                ch.prune()
            # The same depths, in figures side by side
            other, ax = ax.figure.subplots(1, 2, sharey=True)
        first = maker(*freqs)
        first(run(mot, 2, 180.0, 32), "first")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            first.plot(other, style="indiv")
        n_before = len(ax.get_lines())
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = o.plot(*([] if ax is None else [ax]), **({} if style == "default" else {"style": style}))
    except RuntimeError:
        ch.check(stats and n == 2, "a plot that can be drawn is drawn")
        ch.op()
        return
    finally:
        plt.close("all")
    ch.check(not (stats and n == 2), "statistics of two results are refused")
    ch.check(ax is None or got is ax, "the axes given are used")
    if n_before:
        ch.same(got.get_lines()[0].get_label(), "first", "label of the line drawn before")
    lines = got.get_lines()[n_before:]
    ch.same(len(lines), n + (1 if stats else 0), "number of lines")
    for i, (r, v) in enumerate(single):
        x, y = data(lines[i])
        rx, vy = (v, r) if depth else (r, v)
        ex, ey = trim(rx, vy)
        ch.close(x, ex, f"abscissa of line {i}", rtol=1e-9, atol=1e-15)
        ch.close(y, ey, f"ordinate of line {i}", rtol=1e-9, atol=1e-15)
        if not stats:
            ch.same(lines[i].get_label(), names[i], f"label of line {i}")
        ch.op()
    if stats:
        if not depth:
            x, y = data(lines[-1])
            ch.close(x, freqs[0], "abscissa of the median", rtol=0)
            ch.close(y, [mean_std([s[1][j] for s in single])[0] for j in range(len(freqs[0]))], "median", rtol=1e-9)
        else:
            x, y = data(lines[-1])
            m = np.array(maker_stats(o, y))
            ch.close(x, m, "median by depth", rtol=1e-9, atol=1e-15)
            z = np.nanmax([np.nanmax(s[0]) for s in single])
            ch.check(len(y) > 50 and y.min() <= 0.05 * z and y.max() >= z * (1 - 1e-9), "median is drawn over the depth")
        ch.same(lines[-1].get_label(), "Median", "label of the median")
        ch.same(lines[0].get_label(), "Realization", "label of the results")
    ch.same((got.get_xlabel(), got.get_xscale(), got.get_yscale()), (xlabel, *scales), "label and scales")
    ch.same(got.get_ylabel(), o.ylabel if ylabel is None else ylabel, "label of the ordinate")
    ch.check((got.get_legend() is not None) == (n > 1), "legend for several results")
    if got.get_legend() is not None:
        shown = ["first"] * n_before + (names if not stats else ["Realization", "Median"])
        ch.same([t.get_text() for t in got.get_legend().get_texts()], shown, "legend")
    ch.same(bool(got.yaxis_inverted()), depth, "depth increases downwards")
    if freqs:
        ch.close(np.array(o.refs, float), freqs[0], "frequencies unchanged", rtol=0)
    ch.check(np.array_equal(o.refs, before[0], equal_nan=True) and np.array_equal(o.values, before[1], equal_nan=True) and list(o.names) == before[2],
             "results unchanged")
    ch.state(kind, n, style, [s[1] for s in single])


def maker_stats(o, depths):
    """Median at depths from the individual results: the value of the next point below."""
    out = []
    refs = o.refs if o.refs.ndim > 1 else np.tile(o.refs[:, None], (1, 1 if o.values.ndim == 1 else o.values.shape[1]))
    vals = o.values if o.values.ndim > 1 else o.values[:, None]
    for d in depths:
        ln = []
        for j in range(vals.shape[1]):
            r, v = trim(refs[:, j], vals[:, j])
            k = next((i for i, z in enumerate(r) if z >= d - 1e-12), len(r) - 1)
            if v[k] > 0:
                ln.append(math.log(v[k]))
            else:
                ln.append(-math.inf)
        out.append(math.exp(sum(ln) / len(ln)))
    return out


PROPS = ["damping", "density", "initial_shear_vel", "max_error", "shear_vel", "slowness", "strain", "travel_time", "unit_wt"]
KEYS = {"damping": "damping", "density": "density", "initial_shear_vel": "initial", "max_error": "error", "shear_vel": "v_s", "slowness": "slowness",
        "strain": "strain", "travel_time": "time", "unit_wt": "wt"}


def profiles(ch):
    prop = ch.all("property", PROPS)
    n = ch.all("layers", [1, 2, 4])
    how = ch.all("axes", ["given", "made"])
    kw = ch.all("options", [{}, dict(plot_kwds=dict(color="red", label="me")), dict(axis_kwds=dict(xlabel="mine", xlim=(0, 7))), dict(axis_kwds=dict(ylim=(50, 0)))])
    strained = ch.all("strained", [False, True])
    p = site.Profile([site.Layer(nl_soil(f"s{i}", 17.0 + i), 4.0 + i, 200.0 + 90 * i) for i in range(n)] + [site.Layer(lin_soil("r", 23, 0.01), 0, 900.0)])
    if strained:
        for i, l in enumerate(p[:-1]):
            l.strain = 1e-4 * (i + 1)
    ax = Figure().subplots() if how == "given" else None
    exp = np.array(getattr(p, prop), float)
    kw2 = {k: dict(v) for k, v in kw.items()}
    try:
        got = p.plot(prop, ax, **kw2) if ax is not None else p.plot(prop, **kw2)
    finally:
        plt.close("all")
    ch.check(ax is None or got is ax, "the axes given are used")
    ch.same(kw2, kw, "options unchanged")
    (line,) = got.get_lines()
    ch.close(line.get_xdata(), exp, "values", rtol=1e-12)
    z = np.r_[0, np.cumsum([4.0 + i for i in range(n)])]
    ch.close(line.get_ydata(), z, "depths", rtol=1e-12)
    lo, hi = got.get_ylim()
    ch.check(lo > hi and abs(hi) < 1e-9 and lo >= z[-1], f"depth increases downwards, from the surface to the half-space: {lo} {hi}")
    ax_kw = kw.get("axis_kwds", {})
    if "xlabel" in ax_kw:
        ch.same(got.get_xlabel(), "mine", "given label")
        ch.close(got.get_xlim(), (0, 7), "given limits")
    else:
        ch.check(KEYS[prop] in got.get_xlabel().lower(), f"label {got.get_xlabel()}")
        ch.close(got.get_xlim()[0], 0, "limit of the abscissa", atol=1e-12)
    if "ylim" in ax_kw:
        ch.close(lo, 50, "given limits")
    ch.same(got.get_ylabel(), "Depth (m)", "label of the depth")
    if "plot_kwds" in kw:
        ch.same((line.get_color(), line.get_label()), ("red", "me"), "options of the line")
    ch.op(3)
    ch.state(prop, n, exp)


def evolution(ch):
    """Amplification by frequency and depth."""
    metric = ch.all("metric", ["accel_tf", "site_amp"])
    n = ch.all("layers", [1, 3])
    depths = ch.all("depths", [("#default", None), ("#some", np.array([0.0, 1.0, 3.5, 4.0]))])[1]
    norm = ch.choose("normalized", [False, True])
    field = ch.choose("wave field", ["default", "within", "outcrop"])
    freqs = ch.choose("freqs", [("#some", np.array([0.5, 1.0, 3.0, 9.0])), ("#default", None)])[1]
    div = ch.choose("diverging", [True, False])
    axes = ch.choose("axes", ["given", "made"])
    damp = ch.choose("oscillator damping", [None, 0.02, 0.2])
    fr = np.geomspace(0.05, 60, 24)
    c = propagation.LinearElasticCalculator()
    p = site.Profile([site.Layer(lin_soil(), 4.0 + i, 200.0 + 90 * i) for i in range(n)] + [site.Layer(lin_soil("r", 23, 0.01), 0, 900.0)])
    m = rvt_motion(fr, 0.05 * fr / (1 + (fr / 3.0) ** 2) ** 1.2)
    c(m, p, p.location("outcrop", index=-1))
    kw = {}
    if depths is not None:
        kw["depths"] = depths
    if freqs is not None:
        kw["freqs"] = freqs
    if field != "default":
        kw["wave_field_out"] = field
    if norm:
        kw["normalized"] = True
    if not div:
        kw["diverging_cmap"] = False
    if damp is not None:
        kw["osc_damping"] = damp
    od = damp or 0.05
    kw2 = dict(kw)
    ax = plt.figure().subplots() if axes == "given" else None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = output.plot_amplification_evolv(c, metric, ax=ax, **kw) if ax is not None else output.plot_amplification_evolv(c, metric, **kw)
        ch.check(ax is None or got is ax, "the axes given are used")
        (mesh,) = got.collections
        arr = np.asarray(mesh.get_array(), float)
        f = np.logspace(-1, 2, num=301) if freqs is None else freqs
        z = np.linspace(0, p[-1].depth) if depths is None else depths
        arr = arr.reshape(len(z), len(f))
        xy = mesh.get_coordinates()
        ch.close(xy[0, :, 0], f, "frequencies", rtol=1e-9)
        ch.close(xy[:, 0, 1], z, "depths", rtol=1e-9, atol=1e-12)
        col = sh.Column([dict(thick=l.thickness, rho=l.density, mod=l.shear_mod, damp=l.damping) for l in p], 2 * np.pi * fr)
        fld = "within" if field == "default" else field
        amp = []
        for d in z:
            top, k = 0.0, 0
            while k < n and d >= top + 4.0 + k:
                top += 4.0 + k
                k += 1
            tf = col.accel_tf((n, 0.0, "outcrop"), (k, d - top, fld))
            if metric == "accel_tf":
                amp.append(np.interp(np.log(f), np.log(fr), np.abs(tf)))
            else:
                amp.append(m.calc_osc_accels(f, od, tf) / m.calc_osc_accels(f, od))
        amp = np.array(amp)
        if norm:
            amp = amp / amp[-1]
        ch.close(arr, amp, "amplification", rtol=1e-5)
        ch.same((got.get_xscale(), got.get_yscale()), ("log", "linear"), "scales")
        lo, hi = got.get_ylim()
        ch.check(lo > hi and lo >= z[-1] * (1 - 1e-9) and abs(hi) < 1e-9, f"depth increases downwards over the whole range: {lo} to {hi}")
        ch.same((got.get_xlabel(), got.get_ylabel()), ("Frequency (Hz)", "Depth (m)"), "labels")
        cb = mesh.colorbar
        ch.check(cb is not None, "the colours are explained")
        ch.same(cb.ax.get_ylabel(), "|TF|" if metric == "accel_tf" else "Site Ampl.", "label of the colours")
        ch.same(kw.keys(), kw2.keys(), "options unchanged")
    finally:
        plt.close("all")
    ch.op(len(z))
    ch.state(metric, n, amp)


SECTIONS = [("outputs", outputs, {"quick": 1, "thorough": 2}), ("profiles", profiles, 0), ("evolution", evolution, {"quick": 1, "thorough": 3})]
