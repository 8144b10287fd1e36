"""C17: median, dispersion and tables of the collected results."""

import math

import numpy as np

from mc.common import FREQS, lin_soil, nl_soil, pulse, rvt_motion
from pystrata import motion, output, propagation, site

ASSUMPTIONS = ["results are positive; the dispersion is the population standard deviation of the logarithm"]
L = output.OutputLocation
F = [0.5, 2.0, 10.0]
FAS = 0.05 * FREQS / (1 + (FREQS / 3.0) ** 2) ** 1.2


def run(n_soil, vel, amp=1.0, thick=5.0):
    p = site.Profile([site.Layer(lin_soil(), thick + i, vel * (1 + 0.3 * i)) for i in range(n_soil)]
                     + [site.Layer(lin_soil("r", 23, 0.01), 0, 900.0)])
    c = propagation.EquivalentLinearCalculator()
    c(rvt_motion(FREQS, FAS * amp), p, p.location("outcrop", index=-1))
    return c, p


_RUNS = {}


def get(*k):
    if k not in _RUNS:
        _RUNS[k] = run(*k)
    return _RUNS[k]


def mean_std(vals):
    x = [math.log(v) for v in vals if not math.isnan(v)]
    if not x:
        return float("nan"), float("nan")
    m = sum(x) / len(x)
    return math.exp(m), math.sqrt(sum((v - m) ** 2 for v in x) / len(x))


CONST = {
    "rs": lambda: output.ResponseSpectrumOutput(F, L("outcrop", index=0), 0.05),
    "fas": lambda: output.FourierAmplitudeSpectrumOutput(F, L("outcrop", index=0), ko_bandwidth=None),
    "tf": lambda: output.AccelTransferFunctionOutput(F, L("outcrop", index=-1), L("outcrop", index=0)),
    "rs ratio": lambda: output.ResponseSpectrumRatioOutput(F, L("outcrop", index=-1), L("outcrop", index=0), 0.05),
}


def spectra(ch):
    kind = ch.all("output", list(CONST))
    o = CONST[kind]()
    n = ch.all("n", [3, 1, 2, 4])
    named = ch.choose("names", ["text", "pairs", "numbers"])
    name = {"text": lambda i: f"m{i}", "pairs": lambda i: (f"p{i % 2}", f"m{i}"), "numbers": lambda i: 10 + i}[named]
    singles = []
    for i in range(n):
        c, _ = get(ch.choose(f"layers{i}", [1, 2]), ch.choose(f"vel{i}", [200.0, 350.0, 120.0]),
                   ch.choose(f"amp{i}", [1.0, 2.5, 0.3]))
        o(c, name(i))
        s = CONST[kind]()
        s(c)
        singles.append(np.array(s.values))
    st = o.calc_stats()
    ch.op()
    ch.same(sorted(st), ["ln_std", "median", "ref"], "statistics")
    ch.close(st["ref"], F, "references", rtol=0)
    exp = [mean_std([s[j] for s in singles]) for j in range(len(F))]
    ch.close(st["median"], [e[0] for e in exp], "median", rtol=1e-9)
    ch.close(st["ln_std"], [e[1] for e in exp], "standard deviation of the logarithm", rtol=1e-7, atol=1e-9)
    df = o.calc_stats(as_dataframe=True)
    ch.same(list(df.columns), ["median", "ln_std"], "columns of the statistics table")
    ch.same(df.index.name, "freq", "index of the statistics table")
    ch.close(np.array(df.index, float), F, "index", rtol=0)
    ch.close(df["median"].to_numpy(), [e[0] for e in exp], "median in the table", rtol=1e-9)
    ch.close(df["ln_std"].to_numpy(), [e[1] for e in exp], "dispersion in the table", rtol=1e-7, atol=1e-9)
    t = o.to_dataframe()
    ch.close(t.to_numpy(), np.stack(singles, axis=1), "table", rtol=1e-12)
    ch.same(list(t.columns), [name(i) for i in range(n)], "columns")
    ch.same(t.columns.nlevels, 2 if named == "pairs" else 1, "levels of the columns")
    for i in range(n):
        ch.close(np.array(t[name(i)]), singles[i], f"column {name(i)}", rtol=1e-12)
    ch.close(np.array(t.index, float), F, "index of the table", rtol=0)
    ch.check(np.array_equal(o.calc_stats()["median"], st["median"], equal_nan=True), "statistics are repeatable")
    ch.state(kind, st["median"], st["ln_std"])


PROF = {
    "initial vel": (output.InitialVelProfile, "top"), "compat vel": (output.CompatVelProfile, "top"),
    "damping": (output.DampingProfile, "top"), "max strain": (output.MaxStrainProfile, "mid"),
    "csr": (output.CyclicStressRatioProfile, "mid"), "max accel": (output.MaxAccelProfile, "top"),
    "mod reduc": (output.ShearModReducProfile, "top"),
}


def below(refs, vals, z):
    """Value at the next reference depth (the deepest value below all of them)."""
    for r, v in zip(refs, vals):
        if z <= r:
            return v
    return vals[-1]


def profiles(ch):
    kind = ch.all("output", list(PROF))
    cls, _ = PROF[kind]
    o = cls()
    n = ch.all("n", [3, 1, 2])
    pairs = ch.choose("names", [False, True])
    name = (lambda i: (f"p{i % 2}", f"m{i}")) if pairs else (lambda i: f"m{i}")
    singles = []
    for i in range(n):
        c, p = get(ch.choose(f"layers{i}", [2, 1, 3]), ch.choose(f"vel{i}", [200.0, 350.0]),
                   ch.choose(f"amp{i}", [1.0, 2.5]), ch.choose(f"thick{i}", [5.0, 2.0]))
        o(c, name(i))
        s = cls()
        s(c)
        singles.append((np.array(s.refs), np.array(s.values)))
    zs = sorted({float(z) for r, _ in singles for z in r} | {0.7, 3.3, 6.1, 100.0})
    which = ch.choose("ref", ["given", "default", "list", "one"])
    ref = {"given": np.array(zs), "default": None, "list": zs, "one": np.array([3.3])}[which]
    kw = {} if ref is None else dict(ref=ref)
    st = o.calc_stats(**kw)
    ch.op()
    deepest = max(r[-1] for r, _ in singles)
    eref = np.linspace(0, deepest * 1.05, 512) if ref is None else np.asarray(ref)
    ch.close(st["ref"], eref, "references", rtol=1e-12, atol=1e-12)
    bad = lambda v: v if v > 0 else float("nan")
    sel = [j for j, z in enumerate(eref) if all(below(r, v, z) > 0 for r, v in singles)]
    exp = [mean_std([below(r, v, eref[j]) for r, v in singles]) for j in sel]
    ch.close(np.asarray(st["median"])[sel], [e[0] for e in exp], "median", rtol=1e-9)
    ch.close(np.asarray(st["ln_std"])[sel], [e[1] for e in exp], "standard deviation of the logarithm", rtol=1e-7,
             atol=1e-9)
    ch.check(len(sel) >= len(eref) - 1, "almost all depths have statistics")
    df = o.calc_stats(as_dataframe=True, **kw)
    ch.same(df.index.name, "depth", "index of the statistics table")
    ch.close(df["median"].to_numpy()[sel], [e[0] for e in exp], "median in the table", rtol=1e-9)
    t = o.to_dataframe(**kw)
    tref = np.linspace(0, deepest, 50) if ref is None else np.asarray(ref)
    ch.close(np.array(t.index, float), tref, "depths of the table", rtol=1e-12, atol=1e-12)
    exp = np.array([[below(r, v, z) for r, v in singles] for z in tref])
    ch.close(t.to_numpy(), exp, "table", rtol=1e-9, atol=1e-15)
    ch.same(list(t.columns), [name(i) for i in range(n)], "columns")
    ch.same(t.columns.nlevels, 2 if pairs else 1, "levels of the columns")
    ch.state(kind, st["median"], st["ln_std"])


def many(ch):
    """Statistics of many results."""
    kind = ch.all("output", ["rs", "tf", "compat vel"])
    n = ch.all("n", [10, 21, 33, 101])
    o = CONST[kind]() if kind in CONST else output.CompatVelProfile()
    cases = [get(k, v, a) for k in (1, 2) for v in (200.0, 350.0, 120.0) for a in (1.0, 2.5, 0.3)]
    runs = [cases[(i * i + i // 7) % len(cases)][0] for i in range(n)]
    singles = []
    for c in runs:
        o(c)
        s = CONST[kind]() if kind in CONST else output.CompatVelProfile()
        s(c)
        singles.append((np.array(s.refs), np.array(s.values)))
    ch.op(n)
    if kind in CONST:
        st = o.calc_stats()
        exp = [mean_std([v[j] for _, v in singles]) for j in range(len(F))]
    else:
        ref = [0.5, 4.9, 7.0, 30.0]
        st = o.calc_stats(ref=ref)
        exp = [mean_std([below(r, v, z) for r, v in singles]) for z in ref]
    ch.close(st["median"], [e[0] for e in exp], "median", rtol=1e-9)
    ch.close(st["ln_std"], [e[1] for e in exp], "standard deviation of the logarithm", rtol=1e-7, atol=1e-9)
    ch.same(list(o.names), [f"r{i + 1}" for i in range(n)], "names")
    ch.same(np.shape(o.values)[1], n, "number of results")
    ch.state(kind, n, st["median"])


def asked_again(ch):
    """Every sequence of runs, resets and questions: statistics and tables are those of the results held now."""
    kind = ch.all("output", ["rs", "tf", "compat vel", "max accel"])
    new = CONST[kind] if kind in CONST else PROF[kind][0]
    o, held = new(), []
    ref = [0.5, 4.9, 7.0, 30.0]
    kw = {} if kind in CONST else dict(ref=ref)
    asked = 0
    for k in range(7 if ch.thorough else 6):
        op = ch.all(f"op{k}", ["end", ("run", 1, 200.0), ("run", 2, 350.0), "reset", "stats"] if held else ["end", ("run", 1, 200.0), ("run", 2, 350.0)])
        if op == "end":
            break
        if op[0] == "run":
            c, _ = get(*op[1:])
            o(c)
            s = new()
            s(c)
            held.append((np.array(s.refs), np.array(s.values)))
            ch.op()
        elif op == "reset":
            o.reset()
            held = []
        else:
            asked += 1
            st = o.calc_stats(**kw)
            t = o.to_dataframe(**kw)
            df = o.calc_stats(as_dataframe=True, **kw)
            ch.op(3)
            if kind in CONST:
                rows, zs = [[v[j] for _, v in held] for j in range(len(F))], F
            else:
                rows, zs = [[below(r, v, z) for r, v in held] for z in ref], ref
            exp = [mean_std(r) for r in rows]
            ch.close(st["ref"], zs, f"step {k}: references", rtol=1e-12)
            ch.close(st["median"], [e[0] for e in exp], f"step {k}: median", rtol=1e-9)
            ch.close(st["ln_std"], [e[1] for e in exp], f"step {k}: dispersion", rtol=1e-7, atol=1e-9)
            ch.close(df["median"].to_numpy(), [e[0] for e in exp], f"step {k}: median in the table", rtol=1e-9)
            ch.close(t.to_numpy(), rows, f"step {k}: table", rtol=1e-9)
            ch.same(list(t.columns), list(o.names), f"step {k}: columns")
            # what is handed out is not what is held
            st["median"][:] = -1.0
            ch.state(kind, len(held), exp)
    ch.state(kind, len(held), asked)


SECTIONS = [("asked_again", asked_again, 0), ("many", many, 0), ("spectra", spectra, dict(quick=3, thorough=4)), ("profiles", profiles, dict(quick=3, thorough=4))]


def warm():
    get(1, 200.0)
