"""Builders shared by the drivers: motions, soil types, profiles and their model specs."""

import numpy as np

import pystrata
from pystrata import motion, output, propagation, site

G = 9.80665

FREQS = np.array([0.01, 0.1, 0.37, 1.0, 2.5, 7.3, 15.0, 50.0])


def rvt_motion(freqs=FREQS, fas=None, duration=8.0, **kw):
    freqs = np.asarray(freqs, float)
    if fas is None:
        fas = 0.05 * freqs / (1 + (freqs / 3.0) ** 2) ** 1.2
    return motion.RvtMotion(freqs, fas, duration=duration, calc_kwds=kw.get("calc_kwds"))


def pulse(n=32, dt=0.02, amp=0.2):
    """A short deterministic record: two decaying wavelets, mean not removed."""
    t = np.arange(n) * dt
    return amp * (np.sin(2 * np.pi * 3.1 * t) * np.exp(-3 * t) + 0.3 * np.cos(2 * np.pi * 0.9 * t + 0.4)
                  * np.exp(-1.5 * t))


def ts_motion(n=32, dt=0.02, amp=0.2, fa_length=None):
    return motion.TimeSeriesMotion("mem", "pulse", dt, pulse(n, dt, amp), fa_length=fa_length)


MR_STRAINS = [1e-6, 1e-5, 1e-4, 1e-3, 1e-2]
MR_VALUES = [1.0, 0.98, 0.80, 0.35, 0.08]
D_STRAINS = [1e-6, 1e-5, 1e-4, 1e-3, 1e-2]
D_VALUES = [0.01, 0.012, 0.03, 0.11, 0.22]


def nl_soil(name="nl", unit_wt=18.0, dscale=1.0):
    return site.SoilType(
        name, unit_wt,
        mod_reduc=site.ModulusReductionCurve("g", MR_STRAINS, MR_VALUES),
        damping=site.DampingCurve("d", D_STRAINS, np.array(D_VALUES) * dscale),
    )


def lin_soil(name="lin", unit_wt=18.0, damping=0.02):
    return site.SoilType(name, unit_wt, None, damping)


def col_layers(profile):
    """What the SH reference needs, from the public observable layer properties."""
    return [dict(thick=l.thickness, rho=l.density, mod=l.shear_mod, damp=l.damping) for l in profile]
