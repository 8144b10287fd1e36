"""C11: time series and their Fourier transforms."""

import itertools

import numpy as np

from mc.common import pulse
from mc.ref.eql import TsPeak
from pystrata import motion

ASSUMPTIONS = ["records of up to 65 samples (thorough: 130); every length in between"]


def padded(a, n):
    x = np.zeros(n)
    m = min(n, len(a))
    x[:m] = np.asarray(a, float)[:m]
    return x


def check_motion(ch, m, a, dt, fal):
    a = np.asarray(a, float)
    n = fal
    if n is None:
        n = 1
        while n < a.size:
            n *= 2
    ref = TsPeak(a, dt, n)
    ch.same(int(np.size(m.accels)), a.size, "number of samples kept")
    ch.close(m.accels, a, "accelerations", rtol=1e-14)
    ch.close(m.times, np.arange(a.size) * dt, "times", rtol=1e-12)
    ch.close(m.time_step, dt, "time step", rtol=0)
    ch.close(m.freqs, ref.freqs, "frequencies", rtol=1e-12)
    ch.close(m.angular_freqs, 2 * np.pi * ref.freqs, "angular frequencies", rtol=1e-12)
    ch.close(m.fourier_amps, dt * ref.spec, "Fourier amplitudes", rtol=1e-9, scale=dt * max(np.sum(np.abs(a)), 1e-30))
    x = padded(a, n)
    s = max(np.max(np.abs(x)), 1e-30)
    ch.close(m.calc_time_series(), x, "round trip through the spectrum", rtol=1e-9, scale=s)
    ch.close(m.calc_peak(), np.max(np.abs(x)), "peak", rtol=1e-9, scale=s)
    ch.op(4)
    return ref, x, s


def fourier(ch):
    n = ch.all("n", list(range(1, 131 if ch.thorough else 66)) + [127, 128, 129, 300])
    fal = ch.choose("fa_length", [None, "n", "n+1", "2n+1", "n-1", "64", "next even"])
    fal = {None: None, "n": n, "n+1": n + 1, "2n+1": 2 * n + 1, "n-1": max(n - 1, 1), "64": 64,
           "next even": n + n % 2 + 2}[fal]
    dt = ch.choose("dt", [0.01, 0.005, 1, 0.02])
    kind = ch.choose("record", ["pulse", "impulse first", "impulse last", "constant", "integers", "list", "zeros",
                                "alternating", "tuple", "reversed view"])
    a = {"pulse": lambda: pulse(n), "impulse first": lambda: np.eye(n)[0], "impulse last": lambda: np.eye(n)[-1],
         "constant": lambda: np.full(n, 0.25), "integers": lambda: np.arange(n) % 5 - 2, "list": lambda: pulse(n).tolist(),
         "zeros": lambda: np.zeros(n), "alternating": lambda: (-1.0) ** np.arange(n),
         "tuple": lambda: tuple(pulse(n)), "reversed view": lambda: pulse(n)[::-1]}[kind]()
    orig = np.array(a, float)
    m = motion.TimeSeriesMotion("file", "some text", dt, a, fa_length=fal)
    ch.check(m.filename == "file" and m.description == "some text", "labels")
    ref, x, s = check_motion(ch, m, orig, dt, fal)
    tfk = ch.choose("tf", ["scalar", "delay", "half integer array", "complex", "negative", "zero"])
    nf = ref.freqs.size
    w = 2 * np.pi * ref.freqs
    if tfk == "scalar":
        tf, exp = 2.5, 2.5 * x
    elif tfk == "delay":  # by three samples: a circular shift
        tf, exp = np.exp(-1j * w * 3 * dt), np.roll(x, 3)
    elif tfk == "negative":
        tf, exp = -np.ones(nf), -x
    elif tfk == "zero":
        tf, exp = np.zeros(nf), 0 * x
    else:
        tf = np.linspace(1, 0.2, nf) if tfk == "half integer array" else 1 / (1 + 0.3j * w * dt)
        exp = ref.series(tf)
    ch.close(m.calc_time_series(tf), exp, f"time series with transfer function ({tfk})", rtol=1e-9, scale=3 * s)
    ch.close(m.calc_peak(tf), np.max(np.abs(exp)), f"peak with transfer function ({tfk})", rtol=1e-9, scale=3 * s)
    ch.op(2)
    # what was given out belongs to the caller
    for got in (m.calc_time_series(), m.calc_time_series(tf)):
        got *= 0
    # the same questions again
    check_motion(ch, m, orig, dt, fal)
    ch.check(np.array_equal(np.array(a, float), orig), "caller's record is unchanged")
    ch.state(n, fal, dt, m.calc_peak(tf))


def small_scope(ch):
    """Every record over a three-letter alphabet."""
    n = ch.all("n", [1, 2, 3, 4, 5] + ([6, 7] if ch.thorough else []))
    a = [ch.all(f"a{i}", [0.0, 1.0, -2.0]) for i in range(n)]
    fal = ch.all("fa_length", [None, n, n + 1])
    m = motion.TimeSeriesMotion("", "", 0.5, a, fa_length=fal)
    check_motion(ch, m, a, 0.5, fal)
    ch.state(a, fal)


def bare(ch):
    """A motion given by frequencies only, as used for transfer functions."""
    freqs = ch.all("freqs", [None, [0.5, 1.0, 20.0], (3.0, 1.0), np.linspace(50, 200, 7), [2], [1, 2, 4]])
    m = motion.Motion() if freqs is None else motion.Motion(freqs=freqs)
    exp = np.array([] if freqs is None else freqs, float)
    for _ in range(2):
        ch.check(isinstance(m.freqs, np.ndarray), "frequencies are an array")
        ch.close(np.array(m.freqs, float), exp, "frequencies of a bare motion", rtol=0)
        ch.close(np.array(m.angular_freqs, float), 2 * np.pi * exp, "angular frequencies of a bare motion", rtol=1e-14)
    ch.op(2)
    ch.state(exp)


SECTIONS = [("bare", bare, 0), ("fourier", fourier, dict(quick=2, thorough=3)), ("small_scope", small_scope, 0)]
