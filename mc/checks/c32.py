"""C32: calculations in different threads do not disturb one another."""

import os
import tempfile

import numpy as np
import pandas as pd

from mc import sched
from mc.common import lin_soil, nl_soil, pulse, rvt_motion
from pystrata import logic_tree, motion, output, propagation, site, tools, variation

ASSUMPTIONS = [
    "two jobs, each with its own motion, profile and calculator; one thread runs at a time (as under the interpreter lock)",
    "scheduling points: every executed source line of pystrata (thorough: also every bytecode); compiled kernels are atomic",
    "jobs that draw random numbers (one global generator) or use pyplot's current figure are not included",
]

F1 = np.geomspace(0.1, 40.0, 9)
F2 = np.geomspace(0.2, 30.0, 9)  # as many frequencies, but other ones


def rvt(k):
    return rvt_motion((F1, F2)[k], duration=(8.0, 11.0)[k])


def rec(k):
    return motion.TimeSeriesMotion("m", "d", (0.02, 0.03)[k], (pulse(16, 0.02, 0.3), -0.1 * pulse(16, 0.03)[::-1])[k])


SHARED = {"nl": nl_soil("nl"), "r": lin_soil("r", 22.0, 0.01)}


def prof(k):
    """Two profiles of as many layers, of the same soils."""
    nl, r = SHARED["nl"], SHARED["r"]
    if k:
        return site.Profile([site.Layer(nl, 6.0, 180.0), site.Layer(r, 5.0, 320.0), site.Layer(r, 0, 900.0)], 2.0)
    return site.Profile([site.Layer(nl, 9.0, 240.0), site.Layer(nl, 4.0, 250.0), site.Layer(r, 0, 1200.0)], 0.0)


def spectra(calc, m, p):
    loc = p.location("outcrop", index=-1)
    calc(m, p, loc)
    surf, mid = p.location("outcrop", index=0), p.location("within", depth=5.0)
    tf = calc.calc_accel_tf(loc, surf)
    return dict(tf=tf, strain=calc.calc_strain_tf(loc, mid), stress=calc.calc_stress_tf(loc, mid, True),
                osc=m.calc_osc_accels([1.0, 5.0], 0.05, tf), pga=m.calc_peak(tf),
                layers=[(l.strain, l.shear_mod, l.damping, l.max_error) for l in p])


def linear(k):
    return spectra(propagation.LinearElasticCalculator(), (rec, rvt)[k](k), prof(k))


def eql(k):
    return spectra(propagation.EquivalentLinearCalculator(max_iterations=3), rvt(k), prof(k))


def fdm(method):
    def run(k):
        return spectra(propagation.FrequencyDependentEqlCalculator(method, strain_ratio=0.8,
                                                                   max_iterations=2), rvt(k), prof(k))

    run.__name__ = "fdm_" + method[:2]
    return run


def qwl(k):
    calc = propagation.QuarterWaveLenCalculator(site_atten=(0.02, 0.03)[k])
    p = prof(k)
    m = rvt(k)
    calc(m, p, p.location("outcrop", index=-1))
    return dict(amp=calc.crustal_amp, term=calc.site_term)


def outputs(k):
    calc = propagation.EquivalentLinearCalculator(max_iterations=2)
    oc = output.OutputCollection([
        output.ResponseSpectrumOutput([1.0, 7.0], output.OutputLocation("outcrop", index=0), 0.05),
        output.MaxStrainProfile(), output.InitialVelProfile(),
        output.AccelTransferFunctionOutput(F1, output.OutputLocation("outcrop", index=-1),
                                           output.OutputLocation("outcrop", index=0)),
    ])
    p, m = prof(k), rec(k)
    for _ in range(2):
        calc(m, p, p.location("outcrop", index=-1))
        oc(calc)
    return dict(refs=[o.refs for o in oc], values=[o.values for o in oc], names=[list(o.names) for o in oc],
                stats=[o.calc_stats() for o in oc])


def curves(s):
    return (s.name, s.unit_wt, s.mod_reduc.strains, s.mod_reduc.values, s.damping.values, s.mod_reduc(3e-4), s.damping(3e-4))


def soils(k):
    st = (F1, F2)[k] * 1e-5
    d = site.DarendeliSoilType(plas_index=(0, 30)[k], ocr=(1, 3)[k], stress_mean=(100.0, 250.0)[k], strains=st)
    m = site.MenqSoilType(coef_unif=(5, 20)[k], diam_mean=(2, 8)[k], stress_mean=(100.0, 250.0)[k], strains=st)
    r = site.RollinsEtAlSoilType(18.0, stress_mean=(100.0, 250.0)[k], coef_unif=(None, 12)[k], strains=st)
    return [curves(x) for x in (d, m, r)]


def soils2(k):
    st = (F1, F2)[k] * 1e-5
    w = site.WangSoilType(("clean_sand_and_gravel", "clayey_soil")[k], stress_mean=(100.0, 250.0)[k],
                          **({"coef_unif": 4.0, "diam_50": 1.0, "void_ratio": 0.6}, {"plas_index": 20, "ocr": 2.0})[k],
                          strains=st)
    a = site.AlemuEtAlSoilType(17.0, plas_index=(5, 25)[k], ocr=(1, 3)[k], stress_mean=(50.0, 120.0)[k], strains=st)
    q = site.KishidaSoilType(stress_vert=(50.0, 120.0)[k], organic_content=(10, 60)[k], strains=st)
    t = site.TwoParamModifiedHyperbolicSoilType("t", 18, stress_mean=(50.0, 120.0)[k], strains=st)
    p = site.SoilType.from_published("p", 18.0, ("Vucetic & Dobry (91), PI=0", "Vucetic & Dobry (91), PI=30")[k])
    return [curves(x) for x in (w, a, q, t, p)]


def profiles(k):
    p = site.Profile([site.Layer(SHARED["nl"], 8.0, 200.0), site.Layer(SHARED["r"], 7.0, 320.0 + k),
                      site.Layer(SHARED["r"], 0, 900.0)], 3.0 * k)
    d = p.auto_discretize(max_freq=(15.0, 10.0)[k], wave_frac=0.3)
    q = site.Profile.from_dataframe(pd.DataFrame(dict(name=["u", "v"], unit_wt=[18.0, 20.0 + k], damping=[0.01, 0.02],
                                                      thickness=[3.0 + k, 0.0], vel_shear=[200.0, 500.0])), wt_depth=1.0 + k)
    var = variation.DarendeliVariation(0.5, limits_damping=(0.001, 0.3), sample_mode="fixed_percentiles",
                                       percentiles=[0.2, 0.8 - 0.1 * k])
    v = [(l.soil_type.mod_reduc.values, l.soil_type.damping.values)
         for l in var.vary_profile(p, sample_index=k) if l.soil_type.is_nonlinear]
    loc = d.location("within", depth=9.0)
    return dict(depth=d.depth, vs=d.initial_shear_vel, soils=sorted(x.name for x in d.iter_soil_types()), v=v,
                vs12=p.time_average_vel(12.0), att=p.site_attenuation(), ray=p.simplified_rayliegh_vel(),
                stress=[(l.stress_vert(), l.stress_mean(0.5, True)) for l in d if l.thickness > 0.5], loc=(loc.index, loc.depth_within),
                frame=[(l.thickness, l.initial_shear_vel, l.damping_min, l.depth) for l in q],
                eff=tools.calc_mean_eff_stress([0.0, 4.0 + k, 9.0], [18.0, 19.0, 20.0 + k], 2.0 + k))


def damping(k):
    p = site.Profile([site.Layer(site.SoilType(f"s{i}", 18.0, None, 0.01 * (i + 1 + k)), t, 200.0 + 100 * i)
                      for i, t in enumerate((5.0, 7.0, 0.0))])
    q, sc = tools.adjust_damping_values(p, 0.02 + 0.01 * k)
    return dict(scatter=(sc, tools.calc_atten_scatter(p, np.linspace(20, 60, 8))), before=[l.damping_min for l in p],
                after=[l.damping_min for l in q], att=(p.site_attenuation(), q.site_attenuation()))


def motions(k):
    out = []
    src = motion.SourceTheoryRvtMotion((6.0, 5.5)[k], (20.0, 35.0)[k], ("wna", "ceus")[k])
    src.calc_fourier_amps(F1)
    m = rec(k)
    for x in (src, rvt(k)):
        out.append((x.pga, x.pgv, x.calc_osc_accels([1.0, 5.0], 0.05)))
    out.append((m.freqs, m.fourier_amps, m.calc_osc_accels([1.0, 5.0], 0.03), m.pga, m.arias_intensity, m.cav,
                m.calc_time_series(np.full(m.freqs.size, 0.5 + k)), m.times))
    return out


def files(k):
    with tempfile.TemporaryDirectory(dir=os.environ.get("MC_WORK")) as d:
        f = os.path.join(d, "a.at2")
        with open(f, "wt") as fp:
            fp.write(f"PEER\nrec {k}\nACC\n12   {0.01 * (k + 1):.4f}   NPTS, DT\n")
            for row in np.arange(12.0).reshape(3, 4) * (k + 1) * 0.01:
                fp.write("".join(f"{v:15.7E}" for v in row) + "\n")
        m = motion.TimeSeriesMotion.load_at2_file(f, scale=1.0 + k)
        return m.accels, m.time_step, m.description, m.freqs, m.fourier_amps


def tree(k):
    t = logic_tree.LogicTree([
        logic_tree.Node("a", [logic_tree.Alternative("x", 0.4), logic_tree.Alternative("y", 0.6)]),
        logic_tree.Node.from_miller_rice("b", (3, 5)[k]),
        logic_tree.Node("c", [logic_tree.Alternative(1.0, 0.5), logic_tree.Alternative(2.0 + k, 0.5)]),
    ])
    return [(b.as_dict(), b.weight) for b in t]


JOBS = {f.__name__: f for f in (linear, eql, fdm("ka02"), fdm("ko:30"), fdm("zr15"), qwl, outputs, soils, soils2, profiles,
                                damping, motions, files, tree)}

_cache = {}


def norm(x):
    """Comparable structure: containers, numbers and texts."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def points(job, k, visits, opcodes=False):
    """The scheduling points of a job, every place in the code at most so often."""
    return [n for n, v in enumerate(alone(job, k, opcodes)[1]) if visits is None or v < visits]


def alone(job, k, opcodes=False):
    """Result and number of scheduling points of a job that runs on its own (warm)."""
    key = (job, k, opcodes)
    if key not in _cache:
        JOBS[job](k)
        runs = [sched.Run([lambda: norm(JOBS[job](k))], (), opcodes, record=True).go().jobs[0] for _ in range(2)]
        for r in runs:
            if r.error is not None:
                raise r.error
        visits, places = {}, []
        for place in runs[-1].trail:
            places.append(visits.get(place, 0))
            visits[place] = places[-1] + 1
        _cache[key] = (runs[-1].result, places)
    return _cache[key]


def equal(ch, a, b, what):
    if isinstance(b, dict):
        ch.check(isinstance(a, dict) and list(a) == list(b), f"{what}: other entries")
        for k in b:
            equal(ch, a[k], b[k], f"{what} {k}")
    elif isinstance(b, list):
        ch.check(isinstance(a, list) and len(a) == len(b), f"{what}: other length")
        for i, (x, y) in enumerate(zip(a, b)):
            equal(ch, x, y, f"{what}[{i}]")
    elif isinstance(b, (str, type(None))):
        ch.same(a, b, what)
    else:
        a, b = np.asarray(a), np.asarray(b)
        ch.check(a.shape == b.shape and a.dtype.kind == b.dtype.kind, f"{what}: {a!r}, alone {b!r}")
        if b.dtype.kind in "fc":
            ch.check(np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True),
                     lambda: f"{what} differs from the job alone: {a.ravel()[:4]} instead of {b.ravel()[:4]}")
        else:
            ch.check((a == b).all(), f"{what}: {a!r}, alone {b!r}")


def run(ch, pair, plan, opcodes=False):
    (a, ka), (b, kb) = pair
    want = [alone(a, ka)[0], alone(b, kb)[0]]
    r = sched.Run([lambda: norm(JOBS[a](ka)), lambda: norm(JOBS[b](kb))], plan, opcodes).go()
    for j, w, (name, k) in zip(r.jobs, want, pair):
        ch.check(j.error is None, lambda: f"{name}({k}) fails when it is preempted: {j.error!r}")
        equal(ch, j.result, w, f"{name}({k})")
    ch.op(sum(j.points for j in r.jobs))
    ch.state(pair, plan)


HEAVY = ("fdm_ka", "fdm_ko", "fdm_zr", "outputs", "damping")
SMALL = ("soils", "soils2", "qwl", "files", "motions", "tree")
# the jobs that go through the same code
MIXED = [
    ("eql", "linear"), ("eql", "fdm_ko"), ("fdm_ka", "fdm_ko"), ("fdm_zr", "fdm_ka"), ("qwl", "profiles"),
    ("profiles", "soils"), ("soils2", "soils"), ("outputs", "eql"), ("motions", "linear"), ("damping", "linear"),
]


def one_switch(ch):
    """The first job is preempted at every one of its points by the whole second job."""
    a, b = ch.all("jobs", [(j, j) for j in JOBS] + MIXED)
    ka = ch.all("which first", [0, 1] if ch.thorough or (a == b and a not in HEAVY) else [0])
    visits = None if ch.thorough else 1 if a in HEAVY or a != b else 2
    k = ch.all("preempted after", points(a, ka, visits))
    run(ch, ((a, ka), (b, 1 - ka)), (k,))


def two_switches(ch):
    """Both jobs are preempted once."""
    j = ch.all("job", [x for x in JOBS if x not in HEAVY] if ch.thorough else ["files", "tree", "soils"])
    k1 = ch.all("first preempted after", points(j, 0, 1))
    k2 = ch.all("second preempted after", points(j, 1, 1))
    run(ch, ((j, 0), (j, 1)), (k1, k2))


def bytecodes(ch):
    """One preemption, at every bytecode."""
    j = ch.all("job", SMALL)
    ka = ch.all("which first", [0, 1])
    k = ch.all("preempted after", points(j, ka, 2 if ch.thorough else 1, True))
    run(ch, ((j, ka), (j, 1 - ka)), (k,), True)


def warm():
    for j in JOBS:
        for k in (0, 1):
            alone(j, k)
    if os.environ.get("MC_COUNT"):
        print({k[:2]: [len(points(*k[:2], n)) for n in (1, 2, 3, None)] for k, v in _cache.items()})


SECTIONS = [("one preemption", one_switch, 0), ("two preemptions", two_switches, 0), ("bytecodes", bytecodes, dict(quick=None, thorough=0))]
