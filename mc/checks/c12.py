"""C12: oscillator response of time series and random vibration motions."""

import numpy as np
import pyrvt

from mc.common import FREQS, pulse
from mc.ref.eql import TsPeak
from pystrata import motion

ASSUMPTIONS = ["random vibration peaks are those of pyrvt (third party), called with the same inputs",
               "the oscillator response to a record is the one to its periodic continuation over the transform length"]

OSC = [0.2, 0.5, 1.0, 1.5625, 3.3, 10.0, 24.9, 80.0, 0.05, 7, 310.0, 0.002]


def sdof(freqs, f0, d):
    """Pseudo-acceleration response of an oscillator to unit base acceleration."""
    w, w0 = 2 * np.pi * np.asarray(freqs), 2 * np.pi * f0
    # u'' + 2 d w0 u' + w0^2 u = -a ; psa = w0^2 |u|
    return w0**2 * (-1 / (w0**2 - w**2 + 2j * d * w0 * w))


def time_series(ch):
    n = ch.choose("n", [32, 27, 64, 1, 2, 45])
    fal = ch.choose("fa_length", [None, 90, 128, 33])
    dt = ch.choose("dt", [0.02, 0.005])
    rec = ch.choose("record", ["pulse", "harmonic", "integers", "constant"])
    t = np.arange(n) * dt
    a = {"pulse": lambda: pulse(n, dt), "harmonic": lambda: np.sin(2 * np.pi * 2 / (n * dt) * t),
         "integers": lambda: np.arange(n) % 3 - 1, "constant": lambda: np.full(n, 0.3)}[rec]()
    m = motion.TimeSeriesMotion("", "", dt, a, fa_length=fal)
    ref = TsPeak(a, dt, fal)
    s = max(ref.peak(np.ones(ref.freqs.size)), 1e-30)
    osc = ch.choose("osc_freqs", ["all", "one", "descending", "empty", "list", "exact bins"])
    f0 = {"all": np.array(OSC), "one": [2.0], "descending": np.array(OSC)[::-1], "empty": [],
          "list": list(OSC), "exact bins": ref.freqs[1:]}[osc]
    d = ch.choose("osc_damping", [None, 0.05, 0.02, 0.20, 0.001])
    tfk = ch.choose("tf", [None, "scale", "filter", "list", "int ones"])
    nf = ref.freqs.size
    tf = {None: None, "scale": np.full(nf, 1.7), "filter": 1 / (1 + 0.1j * np.arange(nf)),
          "list": [1.0 / (1 + k) for k in range(nf)], "int ones": np.ones(nf, int)}[tfk]
    args = (f0,) if d is None else (f0, d)
    got = m.calc_osc_accels(*args) if tf is None else m.calc_osc_accels(*args, tf=tf)
    dd = 0.05 if d is None else d
    tfa = np.ones(nf) if tf is None else np.asarray(tf)
    exp = [ref.peak(tfa * sdof(ref.freqs, f, dd)) for f in f0]
    ch.op(max(len(f0), 1))
    ch.close(got, np.array(exp), "spectral accelerations", rtol=1e-8, scale=s * 1e-2)
    if len(f0) and tf is None:
        # a stiff oscillator follows the ground
        ch.close(m.calc_osc_accels([1e8], dd), [s], "stiff oscillator", rtol=1e-5, atol=1e-20)
        # proportional to the motion; one frequency at a time gives the same
        m2 = motion.TimeSeriesMotion("", "", dt, np.asarray(a) * -3.0, fa_length=fal)
        ch.close(m2.calc_osc_accels(f0, dd), 3 * np.array(exp), "scaled motion", rtol=1e-8, scale=s * 1e-2)
        ch.close([m.calc_osc_accels([f], dd)[0] for f in f0], np.array(exp), "one at a time", rtol=1e-8, scale=s * 1e-2)
        ch.op(2)
    ch.state(got)


def sequence(ch):
    """Several spectra of one motion object: each is that of the motion, whatever was asked before."""
    kind = ch.all("motion", ["ts", "rvt"])
    if kind == "ts":
        a = pulse(32, 0.02, 0.3)
        m, ref = motion.TimeSeriesMotion("", "", 0.02, a), TsPeak(a, 0.02)
    else:
        fas = 0.03 * FREQS / (1 + FREQS**2 / 9)
        m = motion.RvtMotion(FREQS, fas, 8.0)
        ref = pyrvt.motions.RvtMotion(FREQS, fas, 8.0)
    nf = len(ref.freqs)
    tfs = [None, np.full(nf, 1.7), 1 / (1 + 0.1j * np.arange(nf))]
    asks = [("sa", f, d, t) for f in ([1.0], [1.004, 7.0], [1.0, 7.0, 30.0]) for d in (0.05, 0.0513, 0.049, 0.2)
            for t in (0, 1, 2) if t != 1 or d == 0.05]
    asks += [("pga", t) for t in (0, 2)] + [("pgv", t) for t in (0, 2)] + [("peak", t) for t in (1, 2)]
    asks += [("props",)]

    def peak(tf, **kw):
        return ref.peak(tf) if kind == "ts" else ref.calc_peak(tf, **kw)

    av = np.zeros(nf, complex)
    nz = np.abs(np.asarray(ref.freqs)) > 1e-9
    av[nz] = 1 / (2j * np.pi * np.asarray(ref.freqs)[nz])
    for s in range(3 if ch.thorough else 2):
        ask = ch.all(f"ask{s}", asks)
        ch.op()
        if ask[0] == "props":
            ch.close(m.pga, peak(np.ones(nf)), f"step {s} pga of the motion", rtol=1e-8)
            ch.close(m.pgv, 980.665 * peak(av), f"step {s} pgv of the motion", rtol=1e-8)
            continue
        tf = tfs[ask[-1]]
        t1 = np.ones(nf) if tf is None else tf
        if ask[0] == "sa":
            got = m.calc_osc_accels(ask[1], ask[2], tf)
            exp = [peak(t1 * sdof(ref.freqs, f, ask[2]), osc_freq=f, osc_damping=ask[2], site_tf=tf) for f in ask[1]]
        elif ask[0] == "pga":
            got, exp = m.calc_pga(tf), peak(t1)
        elif ask[0] == "pgv":
            got, exp = m.calc_pgv(tf), 980.665 * peak(av * t1)
        else:
            got, exp = m.calc_peak(tf), peak(t1)
        ch.close(got, np.array(exp), f"step {s} {ask}", rtol=1e-8)
        ch.state(got)


def resonance(ch):
    """A harmonic record that fits the transform length: the closed-form amplification."""
    n = ch.all("n", [64, 128])
    cyc = ch.all("cycles", [2, 4, 8])
    d = ch.all("damping", [0.02, 0.05, 0.1, 0.3])
    r = ch.all("frequency ratio", [1.0, 0.5, 2.0, 3.0, 0.9])
    dt = 0.01
    f = cyc / (n * dt)
    a = np.cos(2 * np.pi * cyc * np.arange(n) / n)
    m = motion.TimeSeriesMotion("", "", dt, a)
    fo = f * r
    b = 1 / r  # forcing / natural
    amp = 1 / np.sqrt((1 - b * b) ** 2 + (2 * d * b) ** 2)
    got = m.calc_osc_accels([fo], d)[0]
    ph = np.angle(1 / ((1 - b * b) + 2j * d * b))
    exp = np.max(np.abs(amp * np.cos(2 * np.pi * cyc * np.arange(n) / n + ph)))
    ch.op()
    ch.close(got, exp, "steady state of the oscillator", rtol=1e-8)
    ch.check(got <= amp * (1 + 1e-9), "no more than the steady-state amplitude")
    ch.state(got)


PEAK_CALCS = [None, "BJ84", "BT12", "LP99", "DK85", "V75", "WR18"]


def rvt(ch):
    """The motions of pystrata are the motions of pyrvt with the same arguments."""
    kind = ch.all("motion", ["rvt", "source", "compatible"])
    pc = ch.choose("peak_calculator", ["default", "V75", "LP99", "DK85", "CLH56"])
    kw = {} if pc == "default" else dict(peak_calculator=pc)
    if kind == "rvt":
        f = {"grid": FREQS, "descending": FREQS[::-1], "list": FREQS.tolist(), "dense": np.geomspace(0.1, 60, 40)}[
            ch.choose("freqs", ["grid", "descending", "list", "dense"])]
        fas = 0.03 * np.asarray(f) / (1 + np.asarray(f) ** 2 / 9)
        if isinstance(f, list):
            fas = fas.tolist()
        dur = ch.choose("duration", [8.0, 1, 45.0])
        mk = lambda c: c(f, fas, dur, **kw)
        a, b = mk(motion.RvtMotion), pyrvt.motions.RvtMotion(np.asarray(f), np.asarray(fas), dur, **kw)
        o = np.argsort(f)
        ch.close(a.freqs, np.asarray(f)[o], "frequencies", rtol=1e-14)
        ch.close(a.fourier_amps, np.asarray(fas)[o], "Fourier amplitudes", rtol=1e-14)
        ch.close(a.duration, dur, "duration", rtol=0)
    elif kind == "source":
        mag, dist = ch.choose("magnitude", [6.5, 5.0, 7.8]), ch.choose("distance", [20.0, 5, 150.0])
        reg = ch.choose("region", ["wna", "cena"])
        sd = ch.choose("stress_drop", [None, 100.0, 250.0])
        dep = ch.choose("depth", ["default", 8, 12.5])
        if sd is not None:
            kw["stress_drop"] = sd
        if dep != "default":
            kw["depth"] = dep
        a = motion.SourceTheoryRvtMotion(mag, dist, reg, **kw)
        kw.setdefault("depth", 8)
        b = pyrvt.motions.SourceTheoryMotion(mag, dist, reg, **kw)
        for m in (a, b):
            m.calc_fourier_amps(np.geomspace(0.05, 50, 60))
    else:
        osc = np.geomspace(0.2, 50, 20)
        target = 0.2 * osc / (1 + osc**2 / 16) + 0.1
        kws = ch.choose("how", [dict(duration=10.0), dict(duration=4.0, window_len=5), dict(duration=10.0, osc_damping=0.02),
                                dict(event_kwds=dict(magnitude=6.5, distance=20.0, region="wna"))])
        a = motion.CompatibleRvtMotion(osc.copy(), target.copy(), **kws, **kw)
        b = pyrvt.motions.CompatibleRvtMotion(osc.copy(), target.copy(), **kws, **kw)
    ch.op()
    ch.close(a.freqs, b.freqs, "frequencies", rtol=1e-12)
    ch.close(a.angular_freqs, 2 * np.pi * b.freqs, "angular frequencies", rtol=1e-12)
    ch.close(a.fourier_amps, b.fourier_amps, "Fourier amplitudes", rtol=1e-10)
    ch.close(a.duration, b.duration, "duration", rtol=1e-12)
    tfk = ch.choose("tf", [None, "scale", "filter"])
    nf = len(b.freqs)
    tf = {None: None, "scale": np.full(nf, 2.0), "filter": 1 / (1 + 0.1j * np.arange(nf))}[tfk]
    ch.close(a.calc_peak(tf), b.calc_peak(tf), "peak", rtol=1e-9)
    d = ch.choose("osc_damping", [0.05, 0.01, 0.2])
    got = a.calc_osc_accels(OSC, d, tf)
    exp = [b.calc_peak((1 if tf is None else tf) * sdof(b.freqs, f, d), osc_freq=f, osc_damping=d, site_tf=tf)
           for f in OSC]
    ch.op(len(OSC))
    ch.close(got, np.array(exp), "spectral accelerations", rtol=1e-9)
    # velocity and acceleration peaks
    av = np.zeros(nf, complex)
    nz = np.abs(b.freqs) > 1e-9
    av[nz] = 1 / (2j * np.pi * np.asarray(b.freqs)[nz])
    t1 = 1 if tf is None else tf
    ch.close(a.calc_pgv(tf), 980.665 * b.calc_peak(av * t1), "peak velocity in cm/s", rtol=1e-9)
    ch.close(a.calc_pga(tf), b.calc_peak(tf), "peak acceleration in g", rtol=1e-9)
    ch.close(a.pgv, 980.665 * b.calc_peak(av), "pgv of the motion", rtol=1e-9)
    ch.close(a.pga, b.calc_peak(), "pga of the motion", rtol=1e-9)
    ch.state(got)


SECTIONS = [("time_series", time_series, dict(quick=4, thorough=6)), ("resonance", resonance, 0), ("sequence", sequence, 0),
            ("rvt", rvt, dict(quick=3, thorough=4))]
