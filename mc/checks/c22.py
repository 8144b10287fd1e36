"""C22: equality, hashes and copies of soil types, layers and profiles."""

import itertools

import numpy as np

from mc.common import lin_soil, nl_soil, rvt_motion
from pystrata import propagation, site

ASSUMPTIONS = ["a layer belongs to one profile", "soil types are not changed after they are used in a hash table"]

G1 = site.ModulusReductionCurve("g", [1e-6, 1e-3], [1, 0.3])
D1 = site.DampingCurve("d", [1e-6, 1e-3], [0.01, 0.1])


def soils():
    """Soil types by recipe; equal recipes have to give equal soil types."""
    return {
        "a": lambda: site.SoilType("s", 18.0, None, 0.02), "int": lambda: site.SoilType("s", 18, None, 0.02),
        "name": lambda: site.SoilType("t", 18.0, None, 0.02), "weight": lambda: site.SoilType("s", 18.5, None, 0.02),
        "near weight": lambda: site.SoilType("s", 18.001, None, 0.02), "near damping": lambda: site.SoilType("s", 18.0, None, 0.0201),
        "damping": lambda: site.SoilType("s", 18.0, None, 0.03), "curve": lambda: site.SoilType("s", 18.0, G1, D1),
        "only g": lambda: site.SoilType("s", 18.0, G1, 0.02), "only d": lambda: site.SoilType("s", 18.0, None, D1),
        "copy": lambda: site.SoilType("s", 18.0, G1, D1).copy(),
        "sub": lambda: site.DarendeliSoilType(18.0, "s"),
    }


SAME = [{"a", "int"}, {"curve", "copy"}]


def laws(ch):
    """Equality is an equivalence that follows the properties, and equal objects have equal hashes."""
    kind = ch.all("kind", ["soil", "layer"])
    names = list(soils())
    if kind == "soil":
        na, nb = ch.all("a", names), ch.all("b", names)
        a, b = soils()[na](), soils()[nb]()
        want = na == nb or any({na, nb} <= s for s in SAME)
        if na == nb == "sub":
            want = None  # built anew: the curves are distinct objects
    else:
        geo = [(5.0, 200.0), (5, 200), (6.0, 200.0), (5.0, 300.0), (5.0, np.float64(200)), (5.0, 200.01), (5.001, 200.0), (0.0, 200.0)]
        sn = ["a", "int", "damping", "curve", "copy"]
        na, nb = ch.all("a", sn), ch.all("b", sn)
        ga, gb = ch.all("ga", geo), ch.all("gb", geo)
        hist = ch.all("history", ["new", "strained", "in profile", "changed"])
        a, b = site.Layer(soils()[na](), *ga), site.Layer(soils()[nb](), *gb)
        if hist == "strained":
            a.strain = 3e-4
        elif hist == "in profile":
            site.Profile([site.Layer(lin_soil(), 1, 100.0), a])
        elif hist == "changed":
            a = site.Layer(soils()[na](), 1.0, 99.0)
            site.Profile([a])
            a.thickness, a.initial_shear_vel = ga
        want = (na == nb or any({na, nb} <= s for s in SAME)) and ga == gb
    ch.op()
    ch.check(a == a and not (a != a), "equal to itself")
    ch.check((a == b) == (b == a), "symmetric")
    ch.check((a == b) == (not (a != b)), "equal or different")
    if want is not None:
        ch.check((a == b) == want, f"equality of {a!r} and {b!r} is {a == b}")
    if a == b:
        ch.check(hash(a) == hash(b), "equal objects have different hashes")
        ch.check(len({a, b}) == 1 and {a: 1}[b] == 1, "equal objects in sets")
    else:
        ch.check(len({a, b}) == 2, "different objects in sets")
    h = hash(a)
    ch.check(hash(a) == h, "hash is stable")
    for o in (None, 1, "s", object()):
        ch.check(not (a == o) and a != o, f"equal to {o!r}")
    ch.state(kind, na, nb)


MODELS = {
    "plain": lambda **k: site.SoilType("s", 18.0, G1, D1),
    "darendeli": lambda **k: site.DarendeliSoilType(18.0, "s", plas_index=20, **k),
    "menq": lambda **k: site.MenqSoilType(unit_wt=18.0, coef_unif=8, **k),
    "kishida": lambda **k: site.KishidaSoilType("s", 14.0, organic_content=30, **k),
    "kishida default": lambda **k: site.KishidaSoilType(**k),
    "rollins": lambda **k: site.RollinsEtAlSoilType(20.0, "s", coef_unif=12.0, **k),
    "alemu": lambda **k: site.AlemuEtAlSoilType(18.0, "s", plas_index=9, **k),
    "wang": lambda **k: site.WangSoilType("clean_sand_and_gravel", unit_wt=19.0, stress_mean=90.0, **k),
    "two": lambda **k: site.TwoParamModifiedHyperbolicSoilType("s", 18.0, 55.0, **k),
    "published": lambda **k: site.SoilType.from_published("s", 18.0, "Vucetic & Dobry (91), PI=15"),
}


def kinds(ch):
    """Copies of every kind of soil type, and of a copy."""
    k = ch.all("kind", list(MODELS))
    st = MODELS[k](**ch.all("options", [{}, dict(strains=np.geomspace(1e-6, 0.02, 9))] if k not in ("plain", "published") else [{}]))
    q = st.copy()
    if ch.all("twice", [False, True]):
        q = q.copy()
    ch.op()
    ch.check(q is not st and type(q) is type(st), f"a {type(st).__name__} is copied as a {type(q).__name__}")
    ch.check(q == st and st == q and not q != st and hash(q) == hash(st), "copy equals the original")
    for a in ("name", "unit_wt", "density", "damping_min", "is_nonlinear", "quality"):
        ch.same(getattr(q, a), getattr(st, a), a)
    e = np.geomspace(1e-7, 0.1, 7)
    for a in ("mod_reduc", "damping"):
        ch.close(getattr(q, a)(e), getattr(st, a)(e), a, rtol=0)
    for a in ("strain_ref", "curvature", "masing_scaling"):
        if hasattr(st, a):
            ch.close(getattr(q, a), getattr(st, a), a, rtol=0)
    base, other = (st, q) if ch.all("changed", ["copy", "original"]) == "copy" else (q, st)
    before = (base.name, base.unit_wt, base.damping_min, base.mod_reduc(e).tolist(), base.damping(e).tolist())
    what = ch.all("change", ["name", "damping", "mod_reduc", "layer"])
    if what == "layer":
        l = site.Layer(other, 5.0, 200.0)
        l.strain = 1e-3
        l.damping_min = 0.2
        ch.check(q == st, "calculations with the copy")
    else:
        setattr(other, what, {"name": "new", "damping": 0.3, "mod_reduc": None}[what])
        ch.check(q != st, "changed copy differs")
    ch.same((base.name, base.unit_wt, base.damping_min, base.mod_reduc(e).tolist(), base.damping(e).tolist()), before, "the other one")
    ch.state(k, what)


def distinct(ch):
    """Each soil type of a profile is listed once, in order of appearance."""
    n = ch.all("n", [1, 2, 3, 4])
    names = [ch.all(f"soil{i}", ["a", "name", "curve", "copy" if ch.thorough else "curve"][: 4 if ch.thorough else 3]) for i in range(n)]
    share = ch.all("objects", ["own", "shared"])
    cache = {}
    made = [cache.setdefault(k, soils()[k]()) if share == "shared" else soils()[k]() for k in names]
    p = site.Profile([site.Layer(s, 2.0 + i, 200.0) for i, s in enumerate(made)])
    exp = []
    for s, k in zip(made, names):
        if not any(k2 == k or any({k, k2} <= q for q in SAME) for _, k2 in exp):
            exp.append((s, k))
    got = list(p.iter_soil_types())
    ch.op()
    ch.check(len(got) == len(exp) and all(g is e for g, (e, _) in zip(got, exp)), f"soil types of {names}: {got}")
    for i, l in enumerate(p):
        ch.check(l in p and p.index(l) == i and p[i] is l, "layers are found")
    ch.check(site.Layer(lin_soil("other"), 1.0, 1.0) not in p, "a layer that is not in the profile")
    ch.state(names)


# ------------------------------------------------------------------ copies are independent
class M:
    def __init__(self, layers, wt):
        self.l, self.wt = layers, wt  # [soil, h, v, dmin, strain]

    def copy(self):
        return M([x[:4] + [None] for x in self.l], self.wt)


def curve_g(s, e):
    return 1.0 if s.mod_reduc is None or e is None else s.mod_reduc(e)


def verify(ch, p, m, where):
    ch.same(len(p), len(m.l), f"{where}: number of layers")
    z = 0.0
    s = 0.0
    ch.close(p.wt_depth, m.wt, f"{where}: water table", rtol=0)
    for i, (l, (soil, h, v, dm, e)) in enumerate(zip(p, m.l)):
        w = f"{where}: layer {i}"
        ch.check(l.soil_type is soil, f"{w}: soil type")
        ch.close([l.thickness, l.initial_shear_vel, l.damping_min, l.depth, l.stress_vert(0)], [h, v, dm, z, s], f"{w}: properties", rtol=1e-12)
        ch.close(l.stress_vert(0, effective=True), s - 9.80665 * max(z - m.wt, 0), f"{w}: effective stress", rtol=1e-12, atol=1e-10)
        g = l.density * v**2
        ch.close(l.shear_mod, g * curve_g(soil, e), f"{w}: modulus", rtol=1e-12)
        ch.close(l.strain, 1e-6 if e is None else e, f"{w}: strain", rtol=0)
        z += h
        s += h * soil.unit_wt
    ch.check(len({id(l) for l in p}) == len(p), f"{where}: own layers")
    ch.op()


def copies(ch):
    nl, li, ro = nl_soil(), lin_soil("a", 20.0, 0.03), lin_soil("r", 23.0, 0.01)
    m0 = M([[nl, 5.0, 200.0, 0.01, None], [li, 4.0, 300.0, 0.06, None], [ro, 0.0, 900.0, 0.01, None]], 2.0)
    p0 = site.Profile([site.Layer(nl, 5.0, 200.0), site.Layer(li, 4.0, 300.0, 0.06), site.Layer(ro, 0.0, 900.0)], 2.0)
    ps, ms = [p0], [m0]
    ops = ["end", "copy", "thickness", "velocity", "damping_min", "strain", "append", "insert", "water", "calculate", "discretize", "reset"]
    depth = 4 if ch.thorough else 3
    for k in range(depth):
        op = ch.all(f"op{k}", ops)
        if op == "end":
            break
        if k and op == "calculate" and not ch.thorough and k > 1:
            ch.prune()
        j = ch.all("profile", list(range(len(ps))))
        p, m = ps[j], ms[j]
        i = 1 if k % 2 else 0
        if op == "copy":
            if len(ps) == 3:
                ch.prune()
            q = p.copy()
            ch.check(q is not p and all(a is not b for a in p for b in q), "copies have new layers")
            ch.check(all(a == b for a, b in zip(p, q)), "layers of the copy are equal")
            ps.append(q)
            ms.append(m.copy())
        elif op == "discretize":
            if any(x[4] is not None for x in m.l) or len(ps) == 3:
                ch.prune()
            q = p.auto_discretize(20.0, 0.2)
            ps.append(q)
            mm = []
            for x in m.l[:-1]:
                c = max(int(np.ceil(x[1] / (x[2] / 20.0 * 0.2) - 1e-9)), 1) if x[0].is_nonlinear else 1
                mm += [[x[0], x[1] / c, x[2], x[3], None] for _ in range(c)]
            ms.append(M(mm + [m.l[-1][:4] + [None]], m.wt))
        elif op == "thickness":
            p[i].thickness = m.l[i][1] = 7.5 + k
        elif op == "velocity":
            p[i].initial_shear_vel = m.l[i][2] = 444.0 + k
            m.l[i][4] = None
        elif op == "damping_min":
            p[i].damping_min = m.l[i][3] = 0.044 + 0.01 * k
            m.l[i][4] = None
        elif op == "strain":
            p[i].strain = m.l[i][4] = 1e-4 * (k + 1)
        elif op == "append":
            p.append(site.Layer(ro, 1.0, 1000.0 + k))
            m.l.append([ro, 1.0, 1000.0 + k, 0.01, None])
        elif op == "insert":
            p.insert(1, site.Layer(li, 1.5, 250.0 + k))
            m.l.insert(1, [li, 1.5, 250.0 + k, 0.03, None])
        elif op == "water":
            p.wt_depth = m.wt = [3.0, 150.0, 0.0, 8.5][k]
        elif op == "reset":
            p.reset_layers()
            for x in m.l:
                x[4] = None
        elif op == "calculate":
            propagation.LinearElasticCalculator()(rvt_motion(), p, p.location("outcrop", index=-1))
            for x in m.l:
                x[4] = None  # linear analyses use the initial properties
        for a, (pp, mm) in enumerate(zip(ps, ms)):
            verify(ch, pp, mm, f"after {op} of {j}, profile {a}")
    ch.state([[x[1:] for x in m.l] for m in ms])


def strained_copies(ch):
    """A copy made after an equivalent-linear run starts from the initial properties, and leaves the run's as they are."""
    calc = ch.all("calculator", ["eql", "fdm"])
    what = ch.all("copy", ["profile", "layer", "soil"])
    p = site.Profile([site.Layer(nl_soil(), 5.0, 200.0, 0.03), site.Layer(nl_soil(), 4.0, 300.0), site.Layer(lin_soil(), 0, 800.0)], 1.0)
    c = {"eql": propagation.EquivalentLinearCalculator, "fdm": lambda: propagation.FrequencyDependentEqlCalculator("ko:30")}[calc]()
    c(rvt_motion(), p, p.location("outcrop", index=-1))
    snap = [(np.array(l.shear_mod), np.array(l.damping), np.array(l.strain)) for l in p]
    ls = list(p.copy()) if what == "profile" else [l.copy() for l in p]
    if what == "soil":
        ls = [site.Layer(l.soil_type.copy(), l.thickness, l.initial_shear_vel, l.damping_min) for l in p]
    for a, b in zip(p, ls):
        ch.close([b.thickness, b.initial_shear_vel, b.damping_min], [a.thickness, a.initial_shear_vel, a.damping_min], "properties", rtol=0)
        ch.close(b.shear_mod, a.initial_shear_mod, "initial modulus", rtol=1e-12)
        ch.close(b.damping, a.damping_min, "initial damping", rtol=1e-12)
        b.strain = 1e-3
        ch.op()
    for l, (g, d, e) in zip(p, snap):
        ch.check(np.array_equal(l.shear_mod, g) and np.array_equal(l.damping, d) and np.array_equal(l.strain, e), "the run's properties are kept")
    ch.state(calc, what)


SECTIONS = [("laws", laws, 0), ("kinds", kinds, 0), ("distinct", distinct, 0), ("copies", copies, 0), ("strained_copies", strained_copies, 0)]


def warm():
    p = site.Profile([site.Layer(lin_soil(), 5.0, 200.0), site.Layer(lin_soil(), 0, 500.0)])
    propagation.LinearElasticCalculator()(rvt_motion(), p, p.location("outcrop", index=-1))
