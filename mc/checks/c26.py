"""C26: logic trees enumerate exactly the admissible branches with their weights and values."""

import gzip
import itertools
import json
import pathlib
import shutil
import tempfile

import numpy as np

from pystrata.logic_tree import Alternative, Branch, LogicTree, Node

ASSUMPTIONS = ["names of nodes are unique and conditions refer to nodes of the tree",
               "numbers in conditions either agree to rounding or clearly differ"]

VALUES = {
    "strings": [["a", "b"], ["c", "d", "e"], ["f", "g", "h"]],
    "numbers": [[0.1 * 3, 0.5], [1, 2, 3], [10.0, 20, 1e-3]],
    "mixed": [["a", 0.5], [0.1 * 3, "d", 2], ["f", 7, 0.25]],
    "close numbers": [[300, 301], [0.02, 0.0201, 0.02005], [1000.0, 1001, 1000.5]],
    "large numbers": [[100000, 100005], [2001.0, 2000.0], [1, 0.999, 1.001]],
    "duplicates": [["a", "b"], [0.5, 0.5, 0.75], ["f", "g", "f"]],
    "lists": [[["a", "b"], ["c"]], ["d", ["a", "b"], "e"], [["x", 1], "g", 2.5]],
    "single": [["a"], ["b"], ["c"]],
    "two nodes": [["a", "b"], [1.5, "d", 2]],
    "four nodes": [["a", "b"], ["c", "d"], [0, 1], [0.5, 0.25]],
}
NAMES = ["foo", "bar", "ba", "foo2"]


def near(v):
    """The same number up to rounding."""
    return 0.3 if v == 0.1 * 3 else v


def listed(v):
    return [v]


def rules(values, k):
    """Conditions of an alternative of node k: (requires, excludes)."""
    others = [j for j in range(len(values)) if j != k]
    out = [({}, {})]
    y = others[0]
    ny, vy = NAMES[y], values[y]
    # a list in a condition stands for its elements
    one = listed if isinstance(vy[0], list) else near
    last = listed if isinstance(vy[-1], list) else near
    out += [({ny: one(vy[0])}, {}), ({}, {ny: one(vy[0])}), ({ny: [vy[0], vy[-1]]}, {}), ({}, {ny: [vy[0], vy[-1]]}),
            ({ny: "nowhere"}, {}), ({}, {ny: 0.123}), ({ny: last(vy[-1])}, {ny: one(vy[0])})]
    if len(others) > 1:
        z = others[-1]
        nz, vz = NAMES[z], values[z]
        oz = listed if isinstance(vz[0], list) else near
        out += [({ny: one(vy[0]), nz: oz(vz[0])}, {}), ({}, {ny: one(vy[0]), nz: oz(vz[0])}), ({ny: one(vy[0])}, {nz: oz(vz[0])}),
                ({nz: [vz[-1]]}, {ny: [vy[0]]}), ({ny: one(vy[0]), nz: [vz[0], vz[-1]]}, {}), ({}, {ny: [vy[0], vy[-1]], nz: [vz[-1]]})]
    return out


def agrees(ref, v):
    if isinstance(ref, list):
        return any(agrees1(r, v) for r in ref)
    return agrees1(ref, v)


def agrees1(r, v):
    num = lambda x: isinstance(x, (int, float))
    if num(r) and num(v):
        return abs(r - v) < 1e-6
    return r == v


def admissible(alt, values):
    _, _, req, exc, _ = alt
    if not all(agrees(r, values[n]) for n, r in req.items()):
        return False
    return not (exc and all(agrees(r, values[n]) for n, r in exc.items()))


def expected(names, nodes):
    out, seen = [], []
    for combo in itertools.product(*[[a for a in alts if a[1] > 0] for alts in nodes]):
        vals = dict(zip(names, [a[0] for a in combo]))
        if all(admissible(a, vals) for a in combo) and vals not in seen:
            seen.append(vals)
            w = 1.0
            for a in combo:
                w *= a[1]
            out.append((vals, w, [a[4] for a in combo]))
    return out


def build(how, names, nodes, tmp):
    if how == "objects":
        return LogicTree([Node(n, [Alternative(v, w, r, e, p) for v, w, r, e, p in alts]) for n, alts in zip(names, nodes)])
    if how == "keywords":
        return LogicTree([Node(name=n, alts=[Alternative(value=v, weight=w, requires=r, excludes=e, params=p) for v, w, r, e, p in alts])
                          for n, alts in zip(names, nodes)])
    d = [dict(name=n, alts=[dict(value=v, weight=w, **({"requires": r} if r else {}), **({"excludes": e} if e else {}), params=p)
                            for v, w, r, e, p in alts]) for n, alts in zip(names, nodes)]
    if how == "dicts":
        return LogicTree.from_list(d)
    f = pathlib.Path(tmp) / ("t.json.gz" if how == "gz" else "t.json")
    if how == "gz":
        with gzip.open(f, "wt") as fh:
            json.dump(d, fh)
    else:
        f.write_text(json.dumps(d))
    return LogicTree.from_json(str(f) if how == "json" else f)


def compare(ch, tree, exp, names, nodes, where):
    got = list(tree)
    ch.check(len(got) == len(exp), lambda: f"{where}: {len(got)} branches {[b.as_dict() for b in got]}, expected {len(exp)}: {[e[0] for e in exp]}")
    for b, (vals, w, params) in zip(got, exp):
        ch.check(isinstance(b, Branch), f"{where}: a branch")
        ch.same(b.as_dict(), vals, f"{where}: values of the branch")
        ch.same(list(b.as_dict()), names, f"{where}: order of the nodes")
        ch.close(b.weight, w, f"{where}: weight of {vals}", rtol=1e-12)
        ch.check(tree.is_valid(b), f"{where}: valid")
        for i, n in enumerate(names):
            ch.same((b[n].name, b[n].value, b.value(n)), (n, vals[n], vals[n]), f"{where}: realization")
            ch.same(b[n].params, params[i], f"{where}: parameters of {n} in {vals}")
            ch.check(n in b, f"{where}: contains")
        ch.check("zzz" not in b, f"{where}: contains no other")
        ch.same([r.name for r in b], names, f"{where}: iteration")
        # conditions of any alternative, given the branch
        for n, alts in zip(names, nodes):
            for k, a in enumerate(alts):
                ch.same(bool(tree[n][k].is_valid(b)), admissible(a, vals), f"{where}: alternative {a[0]} given {vals}")
        ch.op()
    ch.state([e[0] for e in exp], [e[1] for e in exp])


def trees(ch):
    kind = ch.all("values", list(VALUES))
    values = VALUES[kind]
    names = NAMES[: len(values)]
    how = ch.choose("built from", ["objects", "keywords", "dicts", "json", "gz"])
    nodes = []
    for k, vs in enumerate(values):
        opts = rules(values, k)
        alts = []
        for i, v in enumerate(vs):
            req, exc = ch.choose(f"rule {names[k]}[{i}]", opts)
            w = ch.choose(f"weight {names[k]}[{i}]", [0.5, 0.0, 1, 0.125, 1e-5])
            alts.append((v, w, req, exc, {"p": [k, i]}))
        nodes.append(alts)
    exp = expected(names, nodes)
    if how in ("json", "gz"):
        tmp = tempfile.mkdtemp(prefix="mc26")
        try:
            tree = build(how, names, nodes, tmp)
        finally:
            shutil.rmtree(tmp)
    else:
        tree = build(how, names, nodes, None)
    compare(ch, tree, exp, names, nodes, "tree")
    again = [(b.as_dict(), b.weight) for b in tree]
    ch.check([a[0] for a in again] == [e[0] for e in exp], "the same branches again")
    # the nodes
    ch.check(tree["nowhere"] is None, "unknown node")
    for n, alts in zip(names, nodes):
        node = tree[n]
        ch.same((node.name, len(node)), (n, len(alts)), "node")
        ch.same(node.options, tuple(a[0] for a in alts), "options")
        ch.same([(r.name, r.value, r.weight, r.params, r.requires, r.excludes) for r in node],
                [(n, a[0], a[1], a[4], a[2], a[3]) for a in alts if a[1] > 0], "realizations")
        for a in alts:
            first = next(b for b in alts if b[0] == a[0])
            got = node.by_value(near(a[0]) if not isinstance(a[0], list) else a[0])
            ch.check(got is not None and got.value == a[0] and got.params == first[4], f"alternative of value {a[0]}: {got}")
        ch.check(node.by_value("nowhere") is None and node.by_value(0.123) is None, "no alternative of that value")
        ch.op()


def weights(ch):
    """Distributions conditional on another node: the weights of the branches add up to one."""
    dist = [[(0.02, 0.2), (0.04, 0.5), (0.06, 0.3)], [(0.04, 1.0)], [(0.02, 0.6), (0.06, 0.4)], [("none", 0.5), (0.02, 0.25), (0.1, 0.25)]]
    sites = [("C", 0.3), ("D", 0.6), ("E", 0.1)]
    pick = [ch.all(f"given {s}", list(range(len(dist)))) for s, _ in sites]
    order = ch.all("order", list(itertools.permutations(range(3))))
    grouped = ch.all("one alternative for equal distributions", [False, True])
    kappa = []
    for i, (s, _) in enumerate(sites):
        same = [t for j, (t, _) in enumerate(sites) if pick[j] == pick[i]]
        if grouped and same[0] != s:
            continue
        for v, w in dist[pick[i]]:
            kappa.append(Alternative(v, w, requires={"site": same if grouped else s}))
    tree_nodes = [Node("site", [Alternative(s, w) for s, w in sites]), Node("kappa", kappa),
                  Node("method", [Alternative("eql", 0.7), Alternative("lin", 0.3)])]
    bs = list(LogicTree([tree_nodes[i] for i in order]))
    ch.close(sum(b.weight for b in bs), 1.0, "sum of the weights", rtol=1e-12)
    for i, (s, w) in enumerate(sites):
        of = [b for b in bs if b.value("site") == s]
        ch.close(sum(b.weight for b in of), w, f"weight of {s}", rtol=1e-12)
        for v, wk in dist[pick[i]]:
            ch.close(sum(b.weight for b in of if b.value("kappa") == v), w * wk, f"weight of {v} given {s}", rtol=1e-12)
    ch.op(len(bs))
    ch.state(pick, order, grouped)


def plain(ch):
    """Nodes of plain values, and nodes as arrays."""
    vals = ch.all("values", ["ab", [1, 2.5, 3], ("x", 2, 0.5), np.array([0.1, 0.2])])
    as_alt = ch.all("second as alternative", [False, True])
    lst = list(vals)
    if as_alt:
        lst[1] = Alternative(lst[1], 0.25)
    node = Node("n", lst if as_alt else vals)
    ch.check(all(isinstance(a, Alternative) for a in node.alts), "alternatives")
    ch.same(list(node.options), list(vals), "options")
    w = [1.0] * len(lst)
    if as_alt:
        w[1] = 0.25
    ch.close([r.weight for r in node], w, "weights")
    bs = list(LogicTree([node, Node("m", ["u", "v"])]))
    ch.same([(b.value("n"), b.value("m")) for b in bs], [(v, u) for v in vals for u in "uv"], "branches")
    ch.close([b.weight for b in bs], np.repeat(w, 2), "weights of the branches")
    if not isinstance(vals, tuple):
        arr = node.to_xarray("d", "weights")
        ch.close(arr.values, w, "array of weights")
        ch.same((arr.dims, arr.name), (("d",), "weights"), "dimension")
        ch.same(list(arr.coords["d"].values), list(vals), "coordinates")
        ch.close(arr.sel(d=lst[0]).item(), w[0], "selected weight")
        zero = Node("z", [Alternative("p", 0), Alternative("q", 0.5)])
        ch.close(zero.to_xarray("d").values, [0, 0.5], "array with zero weights")
    # default collections are not shared
    a, b = Alternative("u"), Alternative("v")
    a.params["k"] = 1
    a.requires["m"] = "x"
    a.excludes["m"] = "y"
    ch.check(not b.params and not b.requires and not b.excludes, "defaults are not shared")
    ch.op(3)
    ch.state(list(vals), w)


def miller_rice(ch):
    n = ch.all("branches", list(range(2, 11)))
    node = Node.from_miller_rice("x", n)
    v = np.array(node.options)
    w = np.array([a.weight for a in node.alts])
    ch.same((node.name, len(node)), ("x", n), "name and number")
    ch.check(np.all(np.diff(v) > 0) and 0 < v[0] and v[-1] < 1, "percentiles ascend")
    ch.close(w.sum(), 1.0, "weights", rtol=3e-6)
    ch.close(v + v[::-1], np.ones(n), "symmetric percentiles", rtol=2e-6)
    ch.close(w, w[::-1], "symmetric weights", rtol=1e-9)
    # each percentile represents its share of the probability
    edge = np.cumsum(w)
    ch.check(np.all(v < edge) and np.all(v[1:] > edge[:-1]), "percentiles lie within their shares")
    ch.op(n)
    ch.state(v, w)


def interleaved(ch):
    """Several iterations of one tree under way, in every order of their steps, with edits of the tree between complete iterations."""
    kind = ch.all("tree", ["conditional", "duplicates", "plain"])
    if kind == "plain":
        nodes = [[("a", 0.5, {}, {}, {}), ("b", 0.5, {}, {}, {})], [(1, 0.25, {}, {}, {}), (2, 0.75, {}, {}, {})]]
    elif kind == "duplicates":
        nodes = [[("a", 0.4, {}, {}, {"p": 1}), ("b", 0.2, {}, {}, {}), ("a", 0.4, {}, {}, {"p": 2})]]
    else:
        nodes = [[("a", 0.5, {}, {}, {}), ("b", 0.5, {}, {}, {})],
                 [(1, 0.25, {"foo": "a"}, {}, {}), (1, 0.75, {"foo": "b"}, {}, {}), (2, 0.75, {}, {"foo": "b"}, {})]]
    names = NAMES[: len(nodes)]
    tree = build("objects", names, nodes, None)
    exp = expected(names, nodes)
    its, done = [], []
    for step in range(9 if ch.thorough else 7):
        can = ["new"] if len(its) < (3 if ch.thorough else 2) else []
        can += [i for i in range(len(its)) if done[i] <= len(exp)] + ["list", "edit"]
        op = ch.all(f"op{step}", ["end"] + can)
        if op == "end":
            break
        if op == "new":
            its.append(iter(tree))
            done.append(0)
        elif op == "list":
            ch.same([b.as_dict() for b in tree], [e[0] for e in exp], f"step {step}: a complete iteration")
        elif op == "edit":
            if its:
                ch.prune()  # not while an iteration is under way
            tree.nodes[0].alts.append(Alternative(f"new{step}", 0.5))
            nodes = [nodes[0] + [(f"new{step}", 0.5, {}, {}, {})]] + nodes[1:]
            exp = expected(names, nodes)
        else:
            try:
                b = next(its[op])
            except StopIteration:
                ch.check(done[op] == len(exp), f"step {step}: iteration {op} ends after {done[op]} of {len(exp)} branches")
                done[op] += 1
                continue
            ch.check(done[op] < len(exp), f"step {step}: iteration {op} yields more than {len(exp)} branches: {b.as_dict()}")
            vals, w, params = exp[done[op]]
            ch.same((b.as_dict(), [r.params for r in b]), (vals, params), f"step {step}: branch {done[op]} of iteration {op}")
            ch.close(b.weight, w, f"step {step}: weight", rtol=1e-12)
            done[op] += 1
        ch.op()
        ch.state(kind, done, len(exp))


SECTIONS = [("interleaved", interleaved, 0), ("trees", trees, {"quick": 2, "thorough": 3}), ("weights", weights, 0), ("plain", plain, 0), ("miller_rice", miller_rice, 0)]
