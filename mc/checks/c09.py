"""C09: the frequency-dependent equivalent-linear iteration."""

import numpy as np

from mc.checks.c08 import column, compare, conditioned, location, motions, run
from mc.common import lin_soil, nl_soil, rvt_motion
from mc.ref.eql import Eql
from pystrata import propagation, site

ASSUMPTIONS = [
    "the half-space is linear", "peaks of random vibration motions are those of pyrvt, Konno-Ohmachi smoothing that of pykooh",
    "executions in which a threshold decision is within 1e-7 of the threshold are outside the domain",
]
METHODS = ["ka02", "zr15", "ko:30", "ko:20", "ko:7.5"]


def iterate(ch):
    method = ch.all("method", METHODS)
    layers, spec, n = column(ch, 2, ("nl", "lin", "mod", "damp", "soft"))
    p = site.Profile(layers)
    f, where, rloc = location(ch, n, spec)
    mot, mref = motions(ch, amps=(1.0, 0.05, 6.0))
    kw = {}
    kw["strain_ratio"] = ch.choose("strain_ratio", [None, 1.0, 0.5])
    kw["tolerance"] = ch.choose("tolerance", [None, 1.0, 1e-6])
    kw["max_iterations"] = ch.choose("max_iterations", [None, 1, 2, 3, 40])
    kw["strain_limit"] = ch.choose("strain_limit", [None, 0.001, 0.0005])
    kw = {k: v for k, v in kw.items() if v is not None}
    calc = propagation.FrequencyDependentEqlCalculator(method, **kw)
    ch.same(calc.name, f"FDM-{method}", "name")
    ch.same(calc.method, method, "method")
    ref = Eql(spec, rloc, kw.get("strain_ratio", 0.65), kw.get("tolerance", 0.01), kw.get("max_iterations", 15),
              kw.get("strain_limit", 0.05), method=method)
    before = ch.choose("before", [None, "strained", "equivalent linear run", "frequency dependent run",
                                  "other motion, same calculator", "other frequencies, same calculator"])
    if before == "strained":
        for l in p:
            l.strain = 3e-3
    elif before == "equivalent linear run":
        propagation.EquivalentLinearCalculator()(mot, p, p.location(f, **where))
    elif before == "frequency dependent run":
        propagation.FrequencyDependentEqlCalculator("zr15")(mot, p, p.location(f, **where))
    elif before == "other frequencies, same calculator":
        # as many frequencies, but other ones
        try:
            m = len(mot.freqs)
            calc(rvt_motion(np.geomspace(0.03, 30.0, m), 0.05 * np.geomspace(1.0, 0.1, m), 4.0), p, p.location(f, **where))
        except (RuntimeError, np.linalg.LinAlgError):
            pass
    elif before == "other motion, same calculator":
        try:
            calc(rvt_motion([0.02, 0.1, 0.4, 0.8, 1.5, 2.5, 4.0, 9.0, 22.0], [0.1, 0.2, 0.3, 0.2, 0.2, 0.1, 0.05, 0.03, 0.01], 4.0), p, p.location(f, **where))
        except (RuntimeError, np.linalg.LinAlgError):
            pass  # strain limit, or a spectrum that the method cannot fit: the next run starts anew
    loc = p.location(f, **where)
    with conditioned(ch, ref, mref):
        if run(ch, calc, ref, mot, mref, p, loc):
            ch.state("limit", ref.limited)
            return
        compare(ch, calc, p, ref, mot, mref)
    # the strain spectrum has the shape the method prescribes
    for i in range(n):
        s = np.asarray(p[i].strain)
        if ref.limited[-1]:
            continue
        ch.check(s.shape == np.shape(mot.freqs), f"strain of layer {i} is a spectrum")
        if method.startswith("ko"):
            ch.check(np.all(np.diff(s) <= 1e-12 * s.max()), "strain spectrum does not increase with frequency")
        ch.check(s.max() <= ref.ratio * p[i].strain_max * (1 + 1e-3), "no more than the effective strain")


SECTIONS = [("iterate", iterate, dict(quick=2, thorough=3))]


def warm():
    p = site.Profile([site.Layer(nl_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    propagation.FrequencyDependentEqlCalculator("ko:30")(rvt_motion(), p, p.location("outcrop", index=-1))
