"""Reference equivalent-linear iteration (scalar and frequency dependent).

Independent of pystrata: exact SH solution (ref.sh), own curve interpolation
(ref.soil), own inverse Fourier transform for time series.  Peaks of random vibration
motions come from pyrvt, Konno-Ohmachi smoothing from pykooh (both third party).
"""

import numpy as np
import pykooh

from mc.ref import sh
from mc.ref.soil import interp_curve


class StrainLimitExceeded(Exception):
    pass


class Undecided(Exception):
    """A threshold decision of the iteration is within rounding of the threshold."""


class TsPeak:
    """A recorded motion: accelerations in g."""

    def __init__(self, accels, dt, n=None):
        a = np.asarray(accels, float)
        if n is None:
            n = 1
            while n < a.size:
                n *= 2
        self.n, self.dt = n, dt
        x = np.zeros(n)
        m = min(n, a.size)
        x[:m] = a[:m]
        self.spec = np.array([np.sum(x * np.exp(-2j * np.pi * k * np.arange(n) / n)) for k in range(n // 2 + 1)])
        self.freqs = np.arange(n // 2 + 1) / (n * dt)

    @property
    def fas(self):
        return self.dt * np.abs(self.spec)

    def series(self, tf):
        s = self.spec * tf
        n = self.n
        t = np.arange(n)
        out = np.full(n, s[0].real)
        last = (n // 2) if n % 2 == 0 else None
        for k in range(1, n // 2 + 1):
            ph = 2 * np.pi * k * t / n
            if k == last:
                out = out + s[k].real * np.cos(ph)
            else:
                out = out + 2 * (s[k].real * np.cos(ph) - s[k].imag * np.sin(ph))
        return out / n

    def peak(self, tf):
        return float(np.max(np.abs(self.series(tf))))

    def pgv(self):
        w = 2 * np.pi * self.freqs
        tf = np.zeros(w.size, complex)
        tf[1:] = 1 / (1j * w[1:])
        return sh.G * 100 * self.peak(tf)


class RvtPeak:
    def __init__(self, freqs, fas, duration):
        import pyrvt

        self.freqs = np.asarray(freqs, float)
        self.fas = np.asarray(fas, float)
        self._m = pyrvt.motions.RvtMotion(self.freqs.copy(), self.fas.copy(), duration=duration)

    def peak(self, tf):
        return float(self._m.calc_peak(np.asarray(tf)))

    def pgv(self):
        w = 2 * np.pi * self.freqs
        tf = np.zeros(w.size, complex)
        m = np.abs(w) > 1e-8
        tf[m] = 1 / (1j * w[m])
        return sh.G * 100 * self.peak(tf)


MR_LIM = (0.001, 1.0)
D_LIM = (0.0, 0.49)


def properties(layer, strain):
    """Modulus and damping of a layer at the strain."""
    g = layer["g0"]
    if layer["mr"] is not None:
        g = g * interp_curve(*layer["mr"], strain, MR_LIM)
    d = layer["dmin"]
    if layer["dc"] is not None:
        d = interp_curve(*layer["dc"], strain, D_LIM) - layer["dc"][1][0] + layer["dmin"]
    return g, d


def rel_err(prev, new):
    prev, new = np.asarray(prev, float), np.asarray(new, float)
    if np.all(new > 0):
        return 100.0 * float(np.max(np.abs(prev - new) / new))
    if np.allclose(new, prev):
        return 0.0
    return np.inf


def _near(a, b):
    return np.isfinite(a) and abs(a - b) <= 1e-7 * max(abs(b), 1e-300)


class Eql:
    perturb = 0.0

    """layers: dict(thick, rho, g0, v0, dmin, mr, dc); the last is the half-space."""

    def __init__(self, layers, lin, ratio=0.65, tol=0.01, max_iter=15, limit=0.05, method=None,
                 model="dormieux"):
        self.layers, self.lin = layers, lin
        self.ratio, self.tol, self.max_iter, self.limit = ratio, tol, max_iter, limit
        self.method, self.model = method, model
        self.mod = [l["g0"] for l in layers]
        self.damp = [l["dmin"] for l in layers]
        self.strain = [None] * len(layers)
        self.strain_max = [None] * len(layers)
        self.iterations = 0
        self.limited = []

    def estimate(self, mot):
        if self.method is None:
            pgv = mot.pgv()
            for i, l in enumerate(self.layers):
                self.strain[i] = pgv / 100 / l["v0"]
                self.mod[i], self.damp[i] = properties(l, self.strain[i])
        else:
            inner = Eql(self.layers, self.lin, self.ratio, limit=self.limit, model=self.model)
            inner.run(mot)
            self.mod, self.damp = list(inner.mod), list(inner.damp)
            self.strain = list(inner.strain)

    def column(self, mot):
        return sh.Column([dict(thick=l["thick"], rho=l["rho"], mod=m, damp=d)
                          for l, m, d in zip(self.layers, self.mod, self.damp)],
                         2 * np.pi * np.asarray(mot.freqs), self.model)

    def run(self, mot, reset=True):
        if reset:
            self.estimate(mot)
        if self.perturb:
            self.mod = [g * (1 + self.perturb) for g in self.mod]
        last_limited = None
        self.iterations = 0
        self.limited = []
        for it in range(self.max_iter):
            self.iterations += 1
            self.col = self.column(mot)
            err = 0.0
            lim = False
            for i, l in enumerate(self.layers[:-1]):
                tf = self.col.strain_tf(self.lin, (i, l["thick"] / 2, "within"))
                if not np.all(np.isfinite(tf)):
                    raise Undecided  # overflow
                e = self._strains(mot, tf)
                if not np.all(np.isfinite(e)):
                    raise Undecided
                if self.limit:
                    if np.any(np.abs(np.asarray(e) - self.limit) <= 1e-7 * self.limit):
                        raise Undecided
                    if np.any(e > self.limit):
                        lim = True
                        e = np.minimum(e, self.limit)
                self.strain[i] = e
                g, d = properties(l, e)
                err = max(err, rel_err(self.mod[i], g), rel_err(self.damp[i], d))
                self.mod[i], self.damp[i] = g, d
            self.limited.append(lim)
            self.error = err
            if _near(err, self.tol):
                raise Undecided
            if err < self.tol:
                break
            if lim:
                if last_limited == it - 1:
                    raise StrainLimitExceeded
                last_limited = it
        for i, l in enumerate(self.layers[:-1]):
            tf = self.col.strain_tf(self.lin, (i, l["thick"] / 2, "within"))
            self.strain_max[i] = mot.peak(tf)
        return self

    # ---- strain measures -------------------------------------------------------
    def _strains(self, mot, tf):
        eff = self.ratio * mot.peak(tf)
        if self.method is None:
            return eff
        f = np.array(mot.freqs, float)
        fas = np.abs(tf) * np.abs(mot.fas)
        if self.method == "ka02":
            f_avg = _trapz(f * fas, f) / _trapz(fas, f)
            if np.any(np.abs(f - f_avg) <= 1e-7 * f_avg):
                raise Undecided
            lo = f < f_avg
            s_avg = _trapz(fas[lo], f[lo]) / f_avg
            x = f / f_avg
            y = np.log(fas[~lo] / s_avg)
            a = np.stack([-x[~lo], -np.log(x[~lo])], axis=1)
            # minimum-norm least squares
            coef = np.linalg.pinv(a) @ y
            with np.errstate(all="ignore"):
                shape = np.exp(-coef[0] * x) / np.maximum(np.finfo(float).eps, x ** coef[1])
            return eff * np.minimum(1, shape)
        if self.method.startswith("ko:"):
            sm = pykooh.CachedSmoother(f, f, bandwidth=float(self.method[3:]), normalize=True)(fas)
            s = eff * sm / np.max(sm)
            out = s.copy()
            for j in range(len(s) - 2, -1, -1):
                out[j] = max(out[j], out[j + 1])
            return out
        if self.method == "zr15":
            return eff * fas / np.max(fas)
        raise ValueError(self.method)


def _trapz(y, x):
    y, x = np.asarray(y), np.asarray(x)
    return float(np.sum((y[1:] + y[:-1]) / 2 * (x[1:] - x[:-1]))) if y.size else 0.0
