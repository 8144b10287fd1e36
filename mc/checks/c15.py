"""C15: outputs collect one named result per calculation, whatever the sequence of calls."""

import numpy as np
import pandas as pd

from mc.common import FREQS, lin_soil, nl_soil, pulse, rvt_motion
from pystrata import motion, output, propagation, site

ASSUMPTIONS = ["a result is compared with the one of a new output object for the same calculation"]

L = output.OutputLocation
F = [0.5, 2.0, 10.0]
MAKE = {
    "accel ts": lambda: output.AccelerationTSOutput(L("outcrop", index=0)),
    "arias ts": lambda: output.AriasIntensityTSOutput(L("within", index=-1)),
    "strain ts": lambda: output.StrainTSOutput(L("within", depth=3.0), in_percent=True),
    "stress ts": lambda: output.StressTSOutput(L("within", depth=3.0), normalized=True),
    "fas": lambda: output.FourierAmplitudeSpectrumOutput(F, L("outcrop", index=0), ko_bandwidth=None),
    "rs": lambda: output.ResponseSpectrumOutput(F, L("outcrop", index=0), 0.05),
    "tf": lambda: output.AccelTransferFunctionOutput(F, L("outcrop", index=-1), L("outcrop", index=0)),
    "tf complex": lambda: output.AccelTransferFunctionOutput(F, L("outcrop", index=-1), L("outcrop", index=0),
                                                             absolute=False),
    "rs ratio": lambda: output.ResponseSpectrumRatioOutput(F, L("outcrop", index=-1), L("outcrop", index=0), 0.05),
    "max strain": lambda: output.MaxStrainProfile(),
    "damping": lambda: output.DampingProfile(),
    "mod reduc": lambda: output.ShearModReducProfile(),
    "initial vel": lambda: output.InitialVelProfile(),
    "compat vel": lambda: output.CompatVelProfile(),
    "csr": lambda: output.CyclicStressRatioProfile(),
    "max accel": lambda: output.MaxAccelProfile(),
}
CONST = {"fas", "rs", "tf", "tf complex", "rs ratio"}


def profile(n):
    return site.Profile([site.Layer(nl_soil(), 5.0 + i, 200.0 + 50 * i) for i in range(n)]
                        + [site.Layer(lin_soil("r", 23, 0.01), 0, 800.0)])


def calculation(name):
    n, mk = {"short": (1, 20), "long": (3, 40), "medium": (2, 30)}[name]
    p = profile(n)
    m = motion.TimeSeriesMotion("m", "", 0.02, pulse(mk, 0.02, 0.1 * n))
    c = propagation.EquivalentLinearCalculator()
    c(m, p, p.location("outcrop", index=-1))
    return c


_CALC, _ONE = {}, {}


def warm():
    for k in ("short", "medium", "long"):
        _CALC[k] = calculation(k)
        for o in MAKE:
            x = MAKE[o]()
            x(_CALC[k], "single")
            _ONE[o, k] = (np.array(x.refs), np.array(x.values))


def pad(x, n):
    return np.concatenate([x, np.full(n - len(x), np.nan)])


def verify(ch, o, kind, model, where):
    ch.same([str(n) if not isinstance(n, tuple) else n for n in o.names], [m[0] for m in model], f"{where}: names")
    res = list(o.iter_results())
    ch.same(len(res), len(model), f"{where}: number of results")
    if not model:
        ch.check(o.values is None, f"{where}: no values")
        if kind in CONST:
            ch.close(o.refs, F, f"{where}: references", rtol=0)
        else:
            ch.same(np.size(o.refs), 0, f"{where}: number of references")
        return
    nv = max(len(_ONE[kind, m[1]][1]) for m in model)
    for (name, refs, vals), (mname, calc) in zip(res, model):
        er, ev = _ONE[kind, calc]
        ch.same(name, mname, f"{where}: name")
        ch.close(vals, pad(ev, nv), f"{where}: values of {mname}", rtol=1e-12)
        ch.close(refs, er if kind in CONST else pad(er, nv), f"{where}: references of {mname}", rtol=1e-12)
    if len(model) > 1:
        exp = np.stack([pad(_ONE[kind, c][1], nv) for _, c in model], axis=1)
    else:
        exp = _ONE[kind, model[0][1]][1]
    ch.close(o.values, exp, f"{where}: table of values", rtol=1e-12)
    if not kind.endswith(" ts"):
        df = o.to_dataframe()
        cols = [tuple(c) if isinstance(c, tuple) else c for c in df.columns]
        if all(isinstance(m[0], str) for m in model):
            ch.same(cols, [m[0] for m in model], f"{where}: columns of the table")
        ch.same(df.shape[1], len(model), f"{where}: number of columns")
        if kind in CONST:
            ch.close(df.to_numpy(), exp.reshape(len(F), -1), f"{where}: table", rtol=1e-12)
            ch.close(np.array(df.index, float), F, f"{where}: index of the table", rtol=0)
    ch.state(kind, [m[1] for m in model], [m[0] for m in model])


def sequences(ch):
    kind = ch.all("output", list(MAKE))
    o = MAKE[kind]()
    other = MAKE[kind]()
    model, omodel = [], []
    verify(ch, o, kind, model, "new")
    depth = 5 if ch.thorough else 4
    for s in range(depth):
        op = ch.all(f"op{s}", ["stop", "short", "long", "medium", "reset"])
        if op == "stop":
            break
        ch.op()
        if op == "reset":
            o.reset()
            model = []
        else:
            name = ch.choose(f"name{s}", [None, "given", "r1", ("a", s)])
            if name is None:
                o(_CALC[op])
                name = f"r{len(model) + 1}"
            else:
                o(_CALC[op], name=name)
            model.append((name, op))
            if s == 1:
                other(_CALC[op], "elsewhere")
                omodel.append(("elsewhere", op))
        if len({isinstance(m[0], tuple) for m in model}) > 1:
            ch.prune()  # mixed kinds of names
        verify(ch, o, kind, model, f"after step {s}")
    verify(ch, other, kind, omodel, "another output of the same kind")


def collection(ch):
    sets = ch.all("outputs", [["rs", "max strain"], ["accel ts", "rs", "initial vel"], ["tf"], [],
                              ["damping", "damping"], list(MAKE)])
    outs = [MAKE[k]() for k in sets]
    seq = ch.choose("container", [list, tuple])
    col = output.OutputCollection(seq(outs))
    ch.same(len(col), len(outs), "length")
    ch.check([id(o) for o in col] == [id(o) for o in outs], "order")
    for i, o in enumerate(outs):
        ch.check(col[i] is o and o in col, "membership")
    ch.check(MAKE["rs"]() not in col, "membership of another output")
    model = []
    for s in range(3):
        op = ch.all(f"op{s}", ["short", "long", "reset"])
        ch.op()
        if op == "reset":
            col.reset()
            model = []
        else:
            name = ch.choose(f"name{s}", [None, "x"])
            col(_CALC[op]) if name is None else col(_CALC[op], name)
            model.append((name or f"r{len(model) + 1}", op))
        for o, k in zip(outs, sets):
            verify(ch, o, k, model, f"{k} after step {s}")


def integers(ch):
    """Profiles given with integers are combined like others."""
    seq = [ch.all(f"n{i}", [1, 2, 3]) for i in range(3)]
    kind = ch.all("output", ["initial vel", "compat vel", "damping", "max accel"])
    o = MAKE[kind]()
    exp, refs = [], []
    for n in seq:
        out = []
        for c in (int, float):
            p = site.Profile([site.Layer(lin_soil("i", c(18)), c(5 + i), c(200 + 50 * i)) for i in range(n)]
                             + [site.Layer(lin_soil("r", c(23), 0.01), c(0), c(800))], c(0))
            calc = propagation.LinearElasticCalculator()
            calc(rvt_motion(), p, p.location("outcrop", index=-1))
            out.append(calc)
        o(out[0])
        x = MAKE[kind]()
        x(out[1])
        exp.append(np.array(x.values, float))
        refs.append(np.array(x.refs, float))
        ch.op()
    m = max(len(x) for x in exp)
    ch.close(o.values, np.stack([pad(x, m) for x in exp], axis=1), "values", rtol=1e-9)
    ch.close(o.refs, np.stack([pad(x, m) for x in refs], axis=1), "references", rtol=1e-12)
    ch.state(kind, seq)


def appending(ch):
    """Columns of different length are padded with NaN, in every order."""
    n = ch.all("n", [2, 3, 4])
    lens = [ch.all(f"len{i}", [1, 2, 4, 3]) for i in range(n)]
    arrs = [10.0 * (i + 1) + np.arange(k) for i, k in enumerate(lens)]
    kind = ch.choose("type", [float, int, complex])
    many = arrs[0].astype(kind)
    for a in arrs[1:]:
        before = many.copy()
        new = output.append_arrays(many, a.astype(kind))
        ch.op()
        ch.check(np.array_equal(many, before, equal_nan=True), "the earlier results are not changed")
        many = new
    m = max(lens)
    exp = np.stack([pad(a, m) for a in arrs], axis=1)
    ch.close(many, exp, "columns", rtol=0)
    ch.state(lens, kind.__name__)


def many(ch):
    """Long campaigns: the table after each of many calculations, some of them named."""
    kind = ch.all("output", list(MAKE))
    n = 120 if ch.thorough else 24
    pattern = ch.all("calculations", [["short"], ["short", "long"], ["long", "medium", "short"]])
    named = ch.all("named", [0, 5, 11])
    restart = ch.all("reset after", [0, 10, 12])
    o = MAKE[kind]()
    model = []
    for s in range(n):
        op = pattern[s % len(pattern)]
        if named and s % named == 1:
            o(_CALC[op], name=f"run {s}")
            model.append((f"run {s}", op))
        else:
            o(_CALC[op])
            model.append((f"r{len(model) + 1}", op))
        ch.op()
        if restart and s == restart:
            o.reset()
            model = []
        if s > n - 4 or s % 9 == 8 or (restart and s == restart):
            verify(ch, o, kind, model, f"after {s + 1} calculations")


SECTIONS = [("many", many, 0), ("sequences", sequences, dict(quick=1, thorough=2)), ("collection", collection, dict(quick=1, thorough=3)),
            ("integers", integers, 0), ("appending", appending, dict(quick=1, thorough=1))]
