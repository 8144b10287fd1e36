"""C10: results do not depend on what was calculated before, and inputs are left alone."""

import numpy as np

from mc.common import FREQS, lin_soil, nl_soil, pulse, rvt_motion
from pystrata import motion, propagation, site

ASSUMPTIONS = ["each operation is compared with the same operation on fresh objects"]


def mk_motion(k):
    if k == "ts":
        return motion.TimeSeriesMotion("m", "d", 0.02, pulse(32, 0.02, 0.3))
    if k == "ts2":
        return motion.TimeSeriesMotion("m", "d", 0.03, pulse(32, 0.02, -0.02)[::-1])
    # as many frequencies as the records, but other ones
    return rvt_motion(np.geomspace(0.05, 40.0, 17))


def mk_profile(k):
    nl = nl_soil()
    if k == "A":
        return site.Profile([site.Layer(nl, 6.0, 180.0), site.Layer(lin_soil(), 4.0, 300.0),
                             site.Layer(nl, 10.0, 350.0, 0.03), site.Layer(lin_soil("r", 22, 0.01), 0, 900.0)], 2.0)
    if k == "C":
        # a half-space of a nonlinear soil
        return site.Profile([site.Layer(nl_soil("y"), 7.0, 200.0), site.Layer(nl_soil("h", 21), 0, 500.0)])
    # as many layers as A, and layers that compare equal
    return site.Profile([site.Layer(nl, 6.0, 180.0), site.Layer(nl, 6.0, 180.0), site.Layer(nl_soil("x"), 5.0, 260.0),
                         site.Layer(lin_soil("r", 22, 0.01), 0, 700.0)])


CALCS = {
    "LE": lambda: propagation.LinearElasticCalculator(),
    "EQL": lambda: propagation.EquivalentLinearCalculator(),
    "EQL1": lambda: propagation.EquivalentLinearCalculator(strain_ratio=1.0, max_iterations=2),
    "ko": lambda: propagation.FrequencyDependentEqlCalculator("ko:30"),
    "zr15": lambda: propagation.FrequencyDependentEqlCalculator("zr15", strain_ratio=0.5),
    "ka02": lambda: propagation.FrequencyDependentEqlCalculator("ka02"),
    "QWL": lambda: propagation.QuarterWaveLenCalculator(site_atten=0.02),
}
OSC = [0.5, 2.0, 9.0]


def perform(calc, mot, p, qwl, where="base"):
    """Run and observe everything a user reads."""
    loc = p.location("outcrop", index=-1) if where == "base" else p.location("within", depth=8.0)
    calc(mot, p, loc)
    out = {}
    if qwl:
        out["crustal_amp"], out["site_term"] = calc.crustal_amp, calc.site_term
    else:
        surf = p.location("outcrop", index=0)
        mid = p.location("within", depth=7.5)
        out["tf"] = calc.calc_accel_tf(loc, surf)
        out["tf within"] = calc.calc_accel_tf(surf, mid)
        out["strain tf"] = calc.calc_strain_tf(loc, mid)
        out["stress tf"] = calc.calc_stress_tf(loc, mid, True)
        out["wave"] = calc.wave_at_location(mid)
        tf = out["tf"]
        out["sa"] = mot.calc_osc_accels(OSC, 0.05, tf)
        out["peak"] = mot.calc_peak(tf)
        out["pgv"] = mot.calc_pgv(tf)
    for i, l in enumerate(p):
        out[f"mod {i}"], out[f"damping {i}"] = l.shear_mod, l.damping
        out[f"vel {i}"] = l.shear_vel
        if l.strain_max is not None:
            out[f"strain_max {i}"] = l.strain_max
    return {k: np.array(v) for k, v in out.items()}


def observe_inputs(mot, p):
    o = dict(freqs=np.array(mot.freqs), fas=np.array(mot.fourier_amps), ang=np.array(mot.angular_freqs),
             wt=p.wt_depth, ids=[id(l) for l in p], soils=[id(l.soil_type) for l in p],
             geom=[(l.thickness, l.initial_shear_vel, l.initial_shear_mod, l.damping_min, l.depth, l.unit_wt,
                    l.stress_vert(0, True)) for l in p])
    if hasattr(mot, "accels"):
        o["accels"] = np.array(mot.accels)
        o["times"] = np.array(mot.times)
    else:
        o["duration"] = mot.duration
    for i, l in enumerate(p):
        st = l.soil_type
        o[f"soil {i}"] = (st.name, st.unit_wt, st.damping_min)
        if st.mod_reduc is not None:
            o[f"mr {i}"] = np.r_[st.mod_reduc.strains, st.mod_reduc.values, st.damping.strains, st.damping.values]
    return o


_MEMO = {}


def fresh(ck, mk, pk, where="base"):
    key = (ck, mk, pk, where)
    if key not in _MEMO:
        _MEMO[key] = perform(CALCS[ck](), mk_motion(mk), mk_profile(pk), ck == "QWL", where)
    return _MEMO[key]


def history(ch):
    calcs = {k: f() for k, f in CALCS.items()}
    mots = {k: mk_motion(k) for k in ("ts", "ts2", "rvt")}
    profs = {k: mk_profile(k) for k in ("A", "B", "C")}
    before = {(m, p): observe_inputs(mots[m], profs[p]) for m in mots for p in profs}
    thin = not ch.thorough
    ops = []
    for ck in CALCS:
        for mk in mots:
            for pk in profs:
                if thin and (ck in ("ka02", "EQL1") or mk == "ts2" and ck in ("LE", "zr15")):
                    continue
                if thin and mk == "ts2" and pk == "B":
                    continue
                if pk == "C" and (ck not in ("LE", "EQL", "ko") or mk != "ts"):
                    continue
                if ck == "QWL" and mk != "rvt":  # needs non-zero frequencies
                    continue
                ops.append((ck, mk, pk))
    ops += [("LE", "ts", "A", "within"), ("EQL", "ts", "A", "within"), ("ko", "rvt", "A", "within")]
    other = [("strain", "A"), ("strain", "B"), ("strain", "C"), ("velocity there and back", "A"), ("copy and run", "A"),
             ("measures", "ts"), ("new calculator", "EQL"), ("new calculator", "ko"), ("discretize", "B")]
    depth = 3
    for s in range(depth):
        last = s == depth - 1
        op = ch.all(f"op{s}", ops if last else ops + other)
        ch.op()
        if op[0] == "strain":
            for l in profs[op[1]]:
                l.strain = 4e-3
        elif op[0] == "velocity there and back":
            l = profs[op[1]][0]
            v = l.initial_shear_vel
            l.initial_shear_vel = 100.0
            l.initial_shear_vel = v
        elif op[0] == "copy and run":
            q = profs[op[1]].copy()
            propagation.EquivalentLinearCalculator()(mots["ts2"], q, q.location("outcrop", index=-1))
        elif op[0] == "measures":
            m = mots[op[1]]
            m.pgv, m.pga, m.arias_intensity, m.cav, m.calc_peak(2.0), m.calc_osc_accels([1.0])
        elif op[0] == "new calculator":
            calcs[op[1]] = CALCS[op[1]]()
        elif op[0] == "discretize":
            q = profs[op[1]].copy().auto_discretize()
            q[0].strain = 1e-3
        else:
            ck, mk, pk = op[:3]
            got = perform(calcs[ck], mots[mk], profs[pk], ck == "QWL", *op[3:])
            ref = fresh(*op)
            ch.same(sorted(got), sorted(ref), f"step {s} {op}: observations")
            for k in ref:
                ch.close(got[k], ref[k], f"step {s} {op}: {k} differs from a run on fresh objects", rtol=1e-9,
                         scale="max")
        for (mk, pk), b in before.items():
            now = observe_inputs(mots[mk], profs[pk])
            for k in b:
                same = np.array_equal(now[k], b[k]) if isinstance(b[k], np.ndarray) else now[k] == b[k]
                ch.check(same, f"step {s} {op}: input {k} of motion {mk}, profile {pk} changed")
    ch.state([np.asarray(l.shear_mod) for p in profs.values() for l in p])


def warm():
    for ck in CALCS:
        for mk in ("ts", "ts2", "rvt"):
            for pk in ("A", "B", "C"):
                if ck == "QWL" and mk != "rvt":
                    continue
                fresh(ck, mk, pk)


SECTIONS = [("history", history, 0)]
