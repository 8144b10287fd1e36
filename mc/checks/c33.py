"""C33: a campaign that is saved and restored (pickled, or deeply copied) at any point goes on as if it had not been."""

import copy
import os
import pickle
import subprocess
import sys
import warnings

import numpy as np

from mc.checks import c32
from mc.checks.c32 import F1, curves, equal, rec, rvt
from mc.common import MR_STRAINS, lin_soil, nl_soil
from pystrata import logic_tree, motion, output, propagation, site, tools, variation

ASSUMPTIONS = ["objects are saved together, or each one on its own, by pickle (protocols 2 to 5) or copy.deepcopy",
               "restored in the same process, or in a fresh interpreter with the same version of the code"]
SAVE = {f"pickle {n}": (lambda n: lambda x: pickle.loads(pickle.dumps(x, n)))(n) for n in (2, 3, 4, 5)}
SAVE["deepcopy"] = copy.deepcopy
SAVE["twice"] = lambda x: copy.deepcopy(pickle.loads(pickle.dumps(x)))


def norm(x):
    """Comparable structure: containers, numbers and texts."""
    x = c32.norm(x)
    if isinstance(x, list):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return norm(x.tolist()) if isinstance(x, np.ndarray) and x.dtype.kind == "O" else x


def prof(k):
    """Two profiles of as many layers, of soils of their own."""
    nl, r = nl_soil("nl"), lin_soil("r", 22.0, 0.01)
    if k:
        return site.Profile([site.Layer(nl, 6.0, 180.0), site.Layer(r, 5.0, 320.0), site.Layer(r, 0, 900.0)], 2.0)
    return site.Profile([site.Layer(nl, 9.0, 240.0), site.Layer(nl, 4.0, 250.0), site.Layer(r, 0, 1200.0)], 0.0)


def world():
    """Everything a campaign works with."""
    oi, os_ = output.OutputLocation("outcrop", index=-1), output.OutputLocation("outcrop", index=0)
    return dict(
        ts=rec(0), rvt=rvt(1), profile=prof(0),
        LE=propagation.LinearElasticCalculator(),
        EQL=propagation.EquivalentLinearCalculator(max_iterations=2),
        ko=propagation.FrequencyDependentEqlCalculator("ko:30", max_iterations=2),
        QWL=propagation.QuarterWaveLenCalculator(site_atten=0.02),
        outs=output.OutputCollection([
            output.ResponseSpectrumOutput([1.0, 7.0], os_, 0.05), output.MaxStrainProfile(), output.InitialVelProfile(),
            output.AccelTransferFunctionOutput(F1, oi, os_),
        ]),
        var=variation.DarendeliVariation(0.5, limits_damping=(0.001, 0.3), sample_mode="fixed_percentiles",
                                         percentiles=[0.2, 0.8]),
    )


def op_run(calc, mot):
    def op(w, s):
        p = w["profile"]
        w["last"] = w[calc]
        w[calc](w[mot], p, p.location("outcrop", index=-1))
        if calc != "QWL":
            w["outs"](w[calc])

    return op


def op_named(w, s):
    if w.get("last") is not None and not isinstance(w["last"], propagation.QuarterWaveLenCalculator):
        w["outs"](w["last"], (f"step {s}", s, ("at", s))[s % 3])


def op_strain(w, s):
    for i, l in enumerate(w["profile"]):
        l.strain = 1e-4 * (i + 1)


def op_append(w, s):
    p = w["profile"]
    p.insert(1, p[0].copy())
    p[0].thickness = 3.5


def op_soil(w, s):
    p = w["profile"]
    p[0].soil_type.mod_reduc.values = [1.0, 0.9, 0.6, 0.2, 0.05]
    p[1].initial_shear_vel = 410.0
    p.update_layers()


def op_vary(w, s):
    w["profile"] = w["var"].vary_profile(w["profile"], sample_index=s)


def op_reset(w, s):
    w["outs"].reset()
    w["profile"].reset_layers()


OPS = {"EQL": op_run("EQL", "rvt"), "LE": op_run("LE", "ts"), "ko": op_run("ko", "rvt"), "QWL": op_run("QWL", "rvt"),
       "EQL ts": op_run("EQL", "ts"), "named": op_named, "strain": op_strain, "append": op_append, "soil": op_soil,
       "vary": op_vary, "reset": op_reset}


def observe(w):
    p = w["profile"]
    r = dict(layers=[(l.thickness, l.depth, l.strain, l.shear_mod, l.damping, l.unit_wt, l.stress_vert(), l.initial_shear_vel)
                     for l in p], wt=p.wt_depth, soils=[l.soil_type.name for l in p],
             shared=[[a.soil_type is b.soil_type for b in p] for a in p],
             motions=[(m.freqs, m.fourier_amps, m.pga, m.calc_osc_accels([2.0], 0.05)) for m in (w["ts"], w["rvt"])],
             names=[list(o.names) for o in w["outs"]], values=[o.values for o in w["outs"]],
             refs=[o.refs for o in w["outs"]])
    r["shown"] = [public(w[k]) for k in ("ts", "rvt", "LE", "EQL", "ko", "QWL", "var")] + [public(x) for x in w["outs"]]
    for k in ("LE", "EQL", "ko", "QWL"):
        c = w[k]
        r[k] = [c.profile is p, c.motion is w["rvt"], c.motion is w["ts"]]
        if c.profile is not None and len(c.profile) == len(p):
            if k == "QWL":
                r[k] += [c.crustal_amp, c.site_term, c.site_atten]
            else:
                surf, inp = c.profile.location("outcrop", index=0), c.loc_input
                r[k] += [c.calc_accel_tf(inp, surf), c.loc_input.index, c.loc_input.wave_field.name, c.name]
    return norm(r)


def step(w, op, s):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            OPS[op](w, s)
        except (ValueError, RuntimeError, IndexError, AssertionError) as e:
            return type(e).__name__
    return None


def campaign(ch):
    depth = 4 if ch.thorough else 3
    ops = []
    for s in range(depth):
        op = ch.all(f"op{s}", ["end"] + [o for o in OPS if o not in ops or o in ("EQL", "append")])
        if op == "end":
            break
        ops.append(op)
    if not ops:
        ch.prune()
    at = ch.all("saved before", range(len(ops) + 1))
    mode = (ch.choose if len(ops) > 2 else ch.all)("saved by", ["pickle 5", "elsewhere", "deepcopy", "pickle 2", "pickle 4", "twice"])
    if mode == "elsewhere":
        w = world()
        for s, op in enumerate(ops[:at]):
            step(w, op, s)
        errors, got = elsewhere("rest", w, ops[at:], at)
        w = world()
        wants = [step(w, op, s) for s, op in enumerate(ops)]
        ch.same(errors, wants[at:], "errors")
        equal(ch, got, observe(w), "campaign in another process")
        ch.op(len(ops))
        return
    ref, w, left = world(), world(), None
    for s, op in enumerate(ops):
        if s == at:
            left, before = w, observe(w)
            w = SAVE[mode](w)
        a, b = step(ref, op, s), step(w, op, s)
        ch.same(b, a, f"step {s} ({op}): error")
        ch.op()
    if at == len(ops):
        left, before = w, observe(w)
        w = SAVE[mode](w)
    want = observe(ref)
    equal(ch, observe(w), want, "restored campaign")
    equal(ch, observe(left), before, "campaign that was left behind")
    # the one left behind goes on as well
    for s, op in enumerate(ops[at:], at):
        step(left, op, s)
    equal(ch, observe(left), want, "original campaign afterwards")
    ch.state(want["layers"], want["values"], want["names"])


def plain(v):
    if isinstance(v, (list, tuple)):
        return all(plain(x) for x in v)
    if isinstance(v, dict):
        return all(plain(x) for x in v.values())
    return v is None or isinstance(v, (bool, int, float, complex, str, np.ndarray, np.number))


def public(x):
    """All plain values that an object shows."""
    r = {}
    for n in dir(x):
        if n[0] == "_":
            continue
        try:
            v = getattr(x, n)
        except Exception as e:
            v = type(e).__name__
        if isinstance(v, np.ndarray) and v.dtype.names:
            v = [np.array(v[k]) for k in v.dtype.names]
        if plain(v):
            r[n] = v
    return r


def single(x):
    """What a single object answers."""
    return [public(x), answers(x), public(x)]


def answers(x):
    if isinstance(x, motion.Motion):
        return [x.freqs, x.fourier_amps, x.pga, x.pgv, x.calc_osc_accels([1.0, 5.0], 0.03), x.duration if hasattr(x, "duration") else 0]
    if isinstance(x, site.SoilType):
        return [type(x).__name__, x.name, x.unit_wt, x.damping_min, x.is_nonlinear, x.density, curves(x) if x.is_nonlinear else 0]
    if isinstance(x, site.NonlinearCurve):
        return [type(x).__name__, x.name, x.strains, x.values, x([1e-7, 3e-5, 2e-3, 0.5])]
    if isinstance(x, site.Layer):
        return [x.thickness, x.initial_shear_vel, x.damping_min, x.shear_mod, x.damping, x.strain, x.max_error, single(x.soil_type)]
    if isinstance(x, site.Profile):
        return [x.depth, x.thickness, x.wt_depth, x.initial_shear_vel, x.slowness, x.vs30(),
                [single(l) for l in x], [l.stress_vert(0, True) for l in x], [x.index(l) for l in x]]
    if isinstance(x, site.Location):
        return [x.index, x.depth_within, x.wave_field.name, x.stress_vert(), single(x.layer)]
    if isinstance(x, logic_tree.LogicTree):
        return [[b.as_dict(), b.weight] for b in x] + [len(x.nodes), [n.name for n in x.nodes]]
    if isinstance(x, logic_tree.Branch):
        return [x.as_dict(), x.weight]
    if isinstance(x, output.Output):
        return [x.refs, x.values, list(x.names), x.ylabel, [r for r in x.iter_results()] if x.values is not None else 0]
    np.random.seed(7)
    p = prof(0)
    if isinstance(x, variation.ToroThicknessVariation):
        return [x.c_1, x.c_2, x.c_3, x(p).thickness]
    if isinstance(x, variation.VelocityVariation):
        return [x(p).initial_shear_vel]
    if isinstance(x, variation.SoilTypeVariation):
        return [x.correlation, x.sample_mode, [single(l.soil_type) for l in x.vary_profile(p, sample_index=1)]]
    if isinstance(x, variation.TruncatedNorm):
        return [x.limit, x.scale, x(5), x.correlated(0.4)]
    calc = x
    m = rvt(0)
    calc(m, p, p.location("outcrop", index=-1))
    if isinstance(calc, propagation.QuarterWaveLenCalculator):
        return [calc.crustal_amp, calc.site_term, calc.method]
    return [calc.calc_accel_tf(p.location("outcrop", index=-1), p.location("outcrop", index=0)), calc.name, single(p)]


def _out(o):
    calc = propagation.EquivalentLinearCalculator(max_iterations=1)
    p = prof(0)
    calc(rec(0), p, p.location("outcrop", index=-1))
    o(calc)
    for name in ("again", 5, 1.5, ("a", 2)):
        o(calc, name)
    return o


def _used(p):
    for l in p:
        l.strain = 3e-4
    return p


def _tree():
    return logic_tree.LogicTree([
        logic_tree.Node("a", [logic_tree.Alternative("x", 0.4), logic_tree.Alternative("y", 0.6)]),
        logic_tree.Node.from_miller_rice("b", 3),
        logic_tree.Node("c", [logic_tree.Alternative(1.0, 0.5, requires={"a": "x"}), logic_tree.Alternative((1, 2), 0.5)]),
    ])


def _opened(m):
    m.fourier_amps, m.pga, m.pgv, m.cav, m.arias_intensity
    return m


OL = output.OutputLocation("outcrop", index=0)
OBJECTS = {
    "record": lambda: rec(0), "record, used": lambda: _opened(rec(0)), "odd record": lambda: motion.TimeSeriesMotion(
        "f", "d", 0.01, np.sin(np.arange(21.0)), fa_length=27),
    "rvt": lambda: rvt(0), "source": lambda: _src(), "compatible": lambda: motion.CompatibleRvtMotion(
        F1, 0.1 + 0.2 * np.exp(-F1 / 9), duration=7.0, osc_damping=0.05),
    "linear soil": lambda: lin_soil(), "soil": lambda: nl_soil(), "darendeli": lambda: site.DarendeliSoilType(18.0, plas_index=20),
    "menq": lambda: site.MenqSoilType(19.0, coef_unif=7), "wang": lambda: site.WangSoilType("clayey_soil", stress_mean=150.0, plas_index=20),
    "alemu": lambda: site.AlemuEtAlSoilType(17.0, plas_index=12), "rollins": lambda: site.RollinsEtAlSoilType(20.0, coef_unif=15),
    "kishida": lambda: site.KishidaSoilType(organic_content=25), "published": lambda: site.SoilType.from_published(
        "p", 18.0, "Vucetic & Dobry (91), PI=30"),
    "two param": lambda: site.TwoParamModifiedHyperbolicSoilType("t", 18.0, 90.0),
    "modulus curve": lambda: nl_soil().mod_reduc, "damping curve": lambda: nl_soil().damping,
    "spectral curve": lambda: site.ModulusReductionCurve("v", MR_STRAINS, np.outer([1, 0.9, 0.7, 0.4, 0.1], [1.0, 0.9])),
    "layer": lambda: prof(1)[1], "layer, strained": lambda: _used(prof(1))[0], "profile": lambda: prof(0),
    "profile, strained": lambda: _used(prof(1)), "discretized": lambda: prof(0).auto_discretize(15.0, 0.2),
    "location": lambda: prof(1).location("within", depth=8.0),
    "LE": lambda: propagation.LinearElasticCalculator(), "EQL": lambda: propagation.EquivalentLinearCalculator(0.5, 0.005, 4, 0.02),
    "low limit": lambda: propagation.EquivalentLinearCalculator(0.5, 0.3, 4, 2e-5),
    "ka02": lambda: propagation.FrequencyDependentEqlCalculator("ka02", max_iterations=2),
    "zr15": lambda: propagation.FrequencyDependentEqlCalculator("zr15", 0.8, max_iterations=2),
    "QWL": lambda: propagation.QuarterWaveLenCalculator(0.03), "ba23": lambda: propagation.QuarterWaveLenCalculator(None, "ba23"),
    "spectrum": lambda: output.ResponseSpectrumOutput([1.0, 5.0], OL, 0.05),
    "spectrum, filled": lambda: _out(output.ResponseSpectrumOutput([1.0, 5.0], OL, 0.05)),
    "record output": lambda: _out(output.AccelerationTSOutput(OL)), "fourier": lambda: _out(output.FourierAmplitudeSpectrumOutput(F1, OL)),
    "strains": lambda: _out(output.StrainTSOutput(output.OutputLocation("within", depth=4.0))),
    "strain profile": lambda: _out(output.MaxStrainProfile()), "damping profile": lambda: _out(output.DampingProfile()),
    "tree": _tree, "branch": lambda: list(_tree())[-1],
    "thickness": lambda: variation.ToroThicknessVariation(2.0, -0.5, 1.1), "toro": lambda: variation.ToroVelocityVariation.generic_model("USGS C"),
    "depth": lambda: variation.DepthDependToroVelVariation.generic_model("USGS D"), "darendeli variation": lambda: variation.DarendeliVariation(
        -0.4, sample_mode="fixed_percentiles", percentiles=[0.3, 0.9]), "spid": lambda: variation.SpidVariation(0.3, std_mod_reduc=0.1),
    "truncated": lambda: variation.TruncatedNorm(1.5),
}


def _src():
    m = motion.SourceTheoryRvtMotion(6.0, 20.0, "wna")
    m.calc_fourier_amps(F1)
    return m


def objects(ch):
    name = ch.all("object", list(OBJECTS))
    mode = ch.all("saved by", list(SAVE) + ["elsewhere"])
    asked = ch.all("asked before", [False, True])
    x = OBJECTS[name]()
    twin = OBJECTS[name]()
    if asked:
        single(x)
        single(twin)
    want = norm(single(twin))
    if mode == "elsewhere":
        equal(ch, elsewhere("single", x), want, f"{name} in another process")
        ch.op()
        return
    y = SAVE[mode](x)
    ch.check(type(y) is type(x), f"{name}: other type {type(y)}")
    equal(ch, norm(single(y)), want, f"{name} restored")
    equal(ch, norm(single(x)), want, f"{name} that was saved")
    ch.op(2)
    ch.state(name, want)


_helper = {}


def elsewhere(job, *args):
    """Answer of a fresh interpreter (other identities, other hashes of texts), which gets its arguments as a pickle."""
    h = _helper.get(os.getpid())
    if h is None:
        env = dict(os.environ, PYTHONHASHSEED="4711")
        code = "from mc.checks import c33; c33.serve()"
        h = _helper[os.getpid()] = subprocess.Popen([sys.executable, "-c", code], env=env, stdin=subprocess.PIPE,
                                                    stdout=subprocess.PIPE)
    pickle.dump((job, args), h.stdin)
    h.stdin.flush()
    ok, answer = pickle.load(h.stdout)
    if not ok:
        raise RuntimeError(answer)
    return answer


def serve():
    out, sys.stdout = os.fdopen(os.dup(1), "wb"), sys.stderr
    while True:
        try:
            job, args = pickle.load(sys.stdin.buffer)
        except EOFError:
            return
        except Exception as e:
            answer = (False, f"restore: {type(e).__name__}: {e}")
        else:
            try:
                answer = (True, dict(single=lambda x: norm(single(x)), rest=rest)[job](*args))
            except Exception as e:
                answer = (False, f"{type(e).__name__}: {e}")
        pickle.dump(answer, out)
        out.flush()


def rest(w, ops, at):
    errors = [step(w, op, s) for s, op in enumerate(ops, at)]
    return errors, observe(w)


SECTIONS = [("objects", objects, 0), ("campaign", campaign, dict(quick=0, thorough=1))]
