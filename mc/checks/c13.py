"""C13: peak values, Arias intensity and CAV of recorded motions."""

import numpy as np

from mc.common import pulse
from mc.ref import sh
from mc.ref.eql import TsPeak
from pystrata import motion

ASSUMPTIONS = ["integrals are trapezoidal over the transform length, as the record is zero padded to it"]


def measures(ch):
    n = ch.choose("n", [32, 27, 1, 2, 64, 45, 3])
    fal = ch.choose("fa_length", [None, 90, 33, 128])
    dt = ch.choose("dt", [0.02, 0.005, 1])
    rec = ch.choose("record", ["pulse", "integers", "offset", "negative", "impulse", "zeros", "one-sided"])
    a = {"pulse": lambda: pulse(n, dt), "integers": lambda: np.arange(n) % 5 - 2, "offset": lambda: pulse(n, dt) + 0.4,
         "negative": lambda: -np.abs(pulse(n, dt)), "impulse": lambda: np.eye(n)[-1] * 0.7, "zeros": lambda: np.zeros(n),
         "one-sided": lambda: np.abs(pulse(n, dt)) - 0.9}[rec]()
    m = motion.TimeSeriesMotion("", "", dt, a, fa_length=fal)
    ref = TsPeak(a, dt, fal)
    nf = ref.freqs.size
    w = 2 * np.pi * ref.freqs
    inv = np.zeros(nf, complex)
    inv[1:] = 1 / (1j * w[1:])
    tfs = {None: None, "scalar": 2.0, "scale": np.full(nf, -1.5), "filter": 1 / (1 + 0.1j * np.arange(nf)),
           "list": [1.0 / (1 + k) for k in range(nf)]}

    def tz(y):
        return float(np.sum((y[1:] + y[:-1]) / 2) * dt)

    def expect(what, tf):
        t = np.ones(nf) if tf is None else np.asarray(tf) * np.ones(nf)
        x = ref.series(t)
        return {"pga": lambda: np.max(np.abs(x)), "peak": lambda: np.max(np.abs(x)),
                "pgv": lambda: 100 * sh.G * np.max(np.abs(ref.series(t * inv))),
                "arias": lambda: np.pi * sh.G / 2 * tz(x**2), "cav": lambda: sh.G * tz(np.abs(x))}[what]()

    calls = {"pga": (lambda: m.pga, m.calc_pga), "pgv": (lambda: m.pgv, m.calc_pgv),
             "arias": (lambda: m.arias_intensity, m.calc_arias_intensity), "cav": (lambda: m.cav, m.calc_cav),
             "peak": (m.calc_peak, m.calc_peak)}
    # any sequence of questions gets the same answers
    for s in range(3):
        what = ch.all(f"q{s}", sorted(calls))
        k = ch.choose(f"tf{s}", ["property", None, "scalar", "scale", "filter", "list"])
        if k == "property":
            got, exp = calls[what][0](), expect(what, None)
        else:
            tf = tfs[k]
            if what == "peak" and k == "list":
                tf = np.asarray(tf)
            got, exp = calls[what][1](tf), expect(what, tf)
        ch.op()
        scale = float(np.max(np.abs(a))) if n else 1.0
        if what == "pgv":
            scale *= 1000 * dt * n
        elif what in ("arias", "cav"):
            scale *= 10 * dt * n * max(1, scale)
        ch.close(got, exp, f"{what} ({k}) as question {s}", rtol=1e-9, scale=scale)
    ch.state(n, fal, dt, rec, m.pga, m.pgv, m.arias_intensity, m.cav)


SECTIONS = [("measures", measures, dict(quick=2, thorough=3))]
