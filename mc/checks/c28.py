"""C28: travel times, time-averaged velocities and the simplified Rayleigh velocity of a profile."""

import numpy as np

from mc.common import lin_soil, nl_soil
from pystrata import site

ASSUMPTIONS = ["velocities and thicknesses are positive; the last layer is infinite for averages over depth", "depths are positive"]

H = [5.0, 12.0, 7.5, 20.0, 30.0]
V = [200.0, 350.0, 280.0, 500.0, 420.0]


def column(ch, nmax):
    n = ch.all("layers", list(range(0, nmax + 1)))
    rows, layers = [], []
    for i in range(n):
        h = ch.choose(f"h{i}", [H[i], 30, 0.4, 100.0])
        v = ch.choose(f"v{i}", [V[i], 150, 1500.0])
        k = ch.choose(f"soil{i}", ["nl", "lin"])
        layers.append(site.Layer(nl_soil() if k == "nl" else lin_soil(), h, v))
        rows.append((h, v))
    h, v = ch.choose("half-space", [(0.0, 760.0), (0, 2000), (15.0, 900.0), (50, 180.0)])
    k = ch.choose("half-space soil", ["nl", "lin"])
    layers.append(site.Layer(nl_soil("r") if k == "nl" else lin_soil(), h, v))
    rows.append((h, v))
    p = site.Profile(layers)
    s = ch.choose("strain", [None, 5e-4, "first"])
    for i, l in enumerate(p):
        if s == "first" and i == 0:
            l.strain = 1e-3
        elif s == 5e-4:
            l.strain = s
    return p, rows


def average(depth, rows):
    t = z = 0.0
    for i, (h, v) in enumerate(rows):
        step = depth - z if i == len(rows) - 1 else min(h, depth - z)
        t += step / v
        z += step
        if z >= depth:
            break
    return depth / t


def averages(ch):
    p, rows = column(ch, 5 if ch.thorough else 4)
    now = [(h, float(l.shear_vel)) for (h, _), l in zip(rows, p)]
    ch.close(p.travel_time, [h / v for h, v in now], "travel times", rtol=1e-12)
    ch.close(p.slowness, [1 / v for _, v in rows], "slowness (of small strains)", rtol=1e-12)
    base = np.cumsum([h for h, _ in rows[:-1]]).tolist()
    queries = sorted({0.5, 5.0, 30, 30.0, 100.0, 11.3, 250} | set(base) | {b + 1.0 for b in base} | {b - 0.1 for b in base})
    for d in queries:
        e = average(d, now)
        got = p.time_average_vel(d)
        ch.close(got, e, f"average over {d} m", rtol=1e-9)
        ch.check(min(v for _, v in now) * (1 - 1e-9) <= got <= max(v for _, v in now) * (1 + 1e-9), "within the velocities")
        ch.op()
    ch.close(p.vs30(), average(30.0, rows), "Vs30", rtol=1e-9)
    ch.op(2)
    ch.state(rows, now)


def rayleigh(ch):
    p, rows = column(ch, 5 if ch.thorough else 4)
    if sum(h for h, _ in rows) == 0:
        ch.prune()
    vel = rayleigh_of(rows)
    ch.close(p.simplified_rayliegh_vel(), vel, "simplified Rayleigh velocity", rtol=1e-9)
    ch.op()
    ch.state(vel)


def rayleigh_of(rows):
    thick = [h for h, _ in rows]
    z = 0.0
    mids = []
    for h in thick:
        mids.append(z + h / 2)
        z += h
    x = [0.0] * (len(rows) + 1)
    for i in range(len(rows) - 1, -1, -1):
        x[i] = x[i + 1] + mids[i] * thick[i] / rows[i][1] ** 2
    num = sum(h * m * m / v**2 for (h, v), m in zip(rows, mids))
    den = sum(h * (x[i] + x[i + 1]) ** 2 for i, h in enumerate(thick))
    omega = (4 * num / den) ** 0.5
    return 4 * sum(thick) / (2 * np.pi / omega)


def refine(ch):
    """Neither splitting a layer, nor the order of edits, nor a copy changes the averages."""
    n = ch.all("layers", [1, 2, 3])
    k = ch.all("split", list(range(n)))
    frac = ch.all("at", [0.5, 0.1, 0.9])
    how = ch.all("how", ["new", "insert", "append", "resize"])
    rows = list(zip(H, V))[:n] + [(0.0, 900.0)]
    st = lin_soil()
    fine = rows[:k] + [(rows[k][0] * frac, rows[k][1]), (rows[k][0] * (1 - frac), rows[k][1])] + rows[k + 1:]
    if how == "new":
        p = site.Profile([site.Layer(st, h, v) for h, v in fine])
    elif how == "insert":
        p = site.Profile([site.Layer(st, h, v) for h, v in rows])
        p[k].thickness = fine[k][0]
        p.insert(k + 1, site.Layer(st, *fine[k + 1]))
    elif how == "append":
        p = site.Profile()
        for h, v in fine:
            p.append(site.Layer(st, h, v))
    else:
        p = site.Profile([site.Layer(st, 1.0, v + 1) for h, v in fine])
        p.vs30()
        for l, (h, v) in zip(p, fine):
            l.thickness = h
            l.initial_shear_vel = v
    for q in (p, p.copy()):
        for d in (1.0, 4.5, 5.0, 17.0, 20.0, 30, 77.0):
            ch.close(q.time_average_vel(d), average(d, rows), f"average over {d} m", rtol=1e-9)
        ch.close(q.vs30(), average(30.0, rows), "Vs30", rtol=1e-9)
        ch.op(8)
    ch.state(n, k, frac, how)


def edits(ch):
    """The averages and velocities are those of the profile as it is now, whatever was asked before."""
    hs = [20.0, 30.0] if ch.all("whole", [True, False]) else [5.0, 8.0]
    st = nl_soil()
    p = site.Profile([site.Layer(st, hs[0], 200.0), site.Layer(lin_soil(), hs[1], 350.0), site.Layer(lin_soil(), 0.0, 900.0)])
    same = p
    for step in range(5 if ch.thorough else 4):
        op = ch.all(f"op{step}", ["none", ("v", 0), ("v", 1), ("v", 2), ("h", 0), ("h", 1), "strain", "reset", "reverse", "copy", "append"])
        if op == "none":
            break
        if op[0] == "v":
            p[op[1]].initial_shear_vel = p[op[1]].initial_shear_vel * 1.25
        elif op[0] == "h":
            p[op[1]].thickness = p[op[1]].thickness + 2.5
        elif op == "strain":
            p[0].strain = 10 * (p[0].strain or 1e-5)
        elif op == "reset":
            p.reset_layers()
        elif op == "reverse":
            p.layers[:-1] = p.layers[:-1][::-1]
            p.update_layers()
        elif op == "copy":
            p = p.copy()
        else:
            p.insert(len(p) - 1, site.Layer(lin_soil(), 4.0, 500.0))
        rows = [(float(l.thickness), float(l.initial_shear_vel)) for l in p]
        now = [(float(l.thickness), float(l.shear_vel)) for l in p]
        for d in (4.0, 30.0, 60.0):
            ch.close(p.time_average_vel(d), average(d, now), f"average over {d} m", rtol=1e-9)
        ch.close(p.vs30(), average(30.0, rows), "Vs30", rtol=1e-9)
        ch.close(p.travel_time, [h / v for h, v in now], "travel times", rtol=1e-12)
        ch.close(p.simplified_rayliegh_vel(), rayleigh_of(rows), "simplified Rayleigh velocity", rtol=1e-9)
        ch.op(7)
        ch.state(op, rows, now, p is same)


SECTIONS = [("edits", edits, 0), ("averages", averages, {"quick": 3, "thorough": 4}), ("rayleigh", rayleigh, {"quick": 3, "thorough": 4}), ("refine", refine, 0)]
