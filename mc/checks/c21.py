"""C21: the dynamic properties of a layer under every sequence of strains, redefinitions and resets."""

import math

import numpy as np

from mc.common import D_STRAINS, D_VALUES, G, MR_STRAINS, MR_VALUES
from mc.ref.soil import interp_curve
from pystrata import site

ASSUMPTIONS = ["strains are positive", "curves as in the alphabet"]
KINDS = ["nl", "lin", "mod", "damp", "clipped", "int", "zero", "weak"]


def mk(kind):
    """Soil type and its model: modulus curve, damping curve or number, small-strain damping."""
    mr = (MR_STRAINS, MR_VALUES, (0.001, 1))
    dr = (D_STRAINS, D_VALUES, (0, 0.49))
    if kind == "clipped":
        mr = (MR_STRAINS, MR_VALUES, (0.3, 0.9))
        dr = (D_STRAINS, [0.02, 0.03, 0.2, 0.5, 0.9], (0, 0.49))
    if kind == "zero":
        dr = (D_STRAINS, [0.0, 0.0, 0.02, 0.1, 0.2], (0, 0.49))
    if kind == "weak":
        mr = (MR_STRAINS, [0.9, 0.5, 0.05, 0.004, 0.0003], (1e-5, 1))
        dr = (D_STRAINS, [1e-5, 2e-4, 0.02, 0.3, 0.47], (0, 0.49))
    if kind in ("lin", "damp", "int"):
        mr = None
    if kind in ("lin", "mod"):
        dr = 0.02
    if kind == "int":
        dr = 0
    g = None if mr is None else site.ModulusReductionCurve("g", mr[0], mr[1], limits=mr[2])
    d = dr if isinstance(dr, (int, float)) else site.DampingCurve("d", dr[0], dr[1], limits=dr[2])
    return site.SoilType(kind, 18.0, g, d), mr, dr


class Model:
    def __init__(self, h, v, uw, mr, dr, dmin):
        self.h, self.rho, self.mr, self.dr = h, uw / G, mr, dr
        self.soil_min = dr if isinstance(dr, (int, float)) else dr[1][0]
        self.v, self.dmin = v, self.soil_min if dmin is None else dmin
        self.reset()

    def reset(self):
        self.g, self.d, self.e, self.e_max = self.rho * self.v**2, self.dmin, 1e-6, None
        self.prev = None

    def damping(self, e):
        if isinstance(self.dr, (int, float)):
            return self.dmin
        return interp_curve(*self.dr[:2], e, self.dr[2]) - self.soil_min + self.dmin

    def strain(self, e):
        self.prev = (self.g, self.d)
        self.e = e
        self.g = self.rho * self.v**2 * (1.0 if self.mr is None else interp_curve(*self.mr[:2], e, self.mr[2]))
        self.d = self.damping(e)


def rel(new, old):
    new, old = np.broadcast_arrays(np.asarray(new, float), np.asarray(old, float))
    if np.all(new > 0):
        return 100 * float(np.max(np.abs(new - old) / new))
    return 0.0 if np.allclose(new, old) else math.inf


def verify(ch, l, m, where):
    r = dict(rtol=1e-10)
    ch.close(l.shear_mod, m.g, f"{where}: shear modulus", **r)
    ch.close(l.damping, m.d, f"{where}: damping", atol=1e-14, **r)
    ch.close(l.strain, m.e, f"{where}: strain", **r)
    ch.close(l.shear_vel, np.sqrt(m.g / m.rho), f"{where}: velocity", **r)
    ch.close(l.shear_mod_reduc, m.g / (m.rho * m.v**2), f"{where}: modulus reduction", **r)
    ch.close(l.travel_time, m.h / np.sqrt(m.g / m.rho), f"{where}: travel time", **r)
    ch.close(l.initial_shear_vel, m.v, f"{where}: initial velocity", **r)
    ch.close(l.initial_shear_mod, m.rho * m.v**2, f"{where}: initial modulus", **r)
    ch.close(l.damping_min, m.dmin, f"{where}: minimum damping", **r)
    ch.close(l.stress_shear_eff, m.g * np.asarray(m.e), f"{where}: effective stress", **r)
    if m.e_max is None:
        ch.check(l.strain_max is None, f"{where}: no maximum strain")
    else:
        ch.close(l.strain_max, m.e_max, f"{where}: maximum strain", **r)
        ch.close(l.stress_shear_max, m.g * m.e_max, f"{where}: maximum stress", **r)
    beta = np.clip(m.d, 0, 0.49)
    ch.close(l.comp_shear_mod, m.g * (np.sqrt(1 - 4 * beta**2) + 2j * beta), f"{where}: complex modulus", **r)
    if m.prev is not None:
        e = max(rel(m.g, m.prev[0]), rel(m.d, m.prev[1]))
        ch.close(l.max_error, e, f"{where}: relative change", rtol=1e-8, atol=1e-9)
    c = l.adjusted_damping_curve
    if isinstance(m.dr, (int, float)):
        ch.check(np.isnan(c.strain).all(), f"{where}: no strains of a constant damping")
        ch.close(c.damping, [m.dmin], f"{where}: constant damping", **r)
    else:
        ch.close(c.strain, m.dr[0], f"{where}: strains of the damping curve", **r)
        ch.close(c.damping, [m.damping(s) for s in m.dr[0]], f"{where}: adjusted damping curve", atol=1e-14, **r)
    ch.op()
    ch.state(m.g, m.d, m.e, m.v, m.dmin, m.e_max, m.prev)


STRAINS = [1e-4, 1e-9, 3.3e-3, 0.5, np.array([1e-5, 1e-3, 2e-2]), 1e-6]


def walk(ch):
    kind = ch.all("soil", KINDS)
    dmin = ch.all("damping_min", [None, 0.07, 0.0])
    st, mr, dr = mk(kind)
    h, v = 7.0, 250.0
    l = site.Layer(st, h, v) if dmin is None else site.Layer(st, h, v, dmin)
    other = site.Layer(st, 3.0, 400.0, 0.01)
    m, mo = Model(h, v, 18.0, mr, dr, dmin), Model(3.0, 400.0, 18.0, mr, dr, 0.01)
    p = site.Profile([l, other])
    verify(ch, l, m, "new")
    depth = 4 if ch.thorough else 3
    for k in range(depth):
        op = ch.all(f"op{k}", ["end", "strain", "velocity", "damping_min", "reset", "reset profile", "strain_max", "other strain", "copy"])
        if op == "end":
            break
        if op == "strain":
            e = ch.all("to", STRAINS if k < 1 else STRAINS[:5:2])
            l.strain = e.copy() if isinstance(e, np.ndarray) else e
            m.strain(e)
        elif op == "velocity":
            l.initial_shear_vel = m.v = ch.choose("to", [180.0, 700])
            m.reset()
        elif op == "damping_min":
            l.damping_min = m.dmin = ch.choose("to", [0.033, 0.0])
            m.reset()
        elif op == "reset":
            l.reset()
            m.reset()
        elif op == "reset profile":
            p.reset_layers()
            m.reset()
            mo.reset()
        elif op == "strain_max":
            l.strain_max = m.e_max = 2e-3
        elif op == "other strain":
            other.strain = 2e-4
            mo.strain(2e-4)
        elif op == "copy":
            c = l.copy()
            mc = Model(h, m.v, 18.0, mr, dr, m.dmin)
            verify(ch, c, mc, "copy")
            c.strain = 5e-3
            mc.strain(5e-3)
            verify(ch, c, mc, "strained copy")
        verify(ch, l, m, f"{k}: {op}")
        verify(ch, other, mo, f"{k}: {op}: other layer")


def iterative(ch):
    """Relative change between two iterations: percent of the new value, never negative."""
    vals = [1.0, 0.0, 5, 1e-3, np.array([1.0, 2.0]), np.array([0.0, 1.0]), np.array([2.0, 1.0])]
    a = ch.all("first", vals)
    b = ch.all("second", vals)
    v = site.IterativeValue(a)
    v.value = b
    ch.op()
    ch.close(v.value, b, "value")
    ch.close(v.previous, a, "previous")
    ch.close(v.relative_error, rel(b, a), "relative error", rtol=1e-12)
    ch.state(a, b)


SECTIONS = [("walk", walk, dict(quick=1, thorough=1)), ("iterative", iterative, 0)]
