"""Exact one-dimensional SH solution by displacement/stress propagation (Haskell).

Independent of the wave-amplitude recursion in pystrata: the state (u, tau) at the
top of each layer is propagated from the free surface.  Time dependence exp(+i w t),
depth positive downward.  Everything is in the strain-compatible complex modulus.
"""

import numpy as np

G = 9.80665  # standard gravity, m/s^2


def comp_mod(shear_mod, damping, model="dormieux"):
    d = np.minimum(np.maximum(np.asarray(damping, float), 0.0), 0.49)
    if model == "seed":
        f = 1 + 2j * d
    elif model == "kramer":
        f = (1 - d * d) + 2j * d
    elif model == "dormieux":
        f = np.sqrt(1 - 4 * d * d) + 2j * d
    else:
        raise ValueError(model)
    return shear_mod * f


class Column:
    """layers: list of dict(thick, rho, mod (real), damp); the last is the half-space.

    mod and damp can be arrays over frequency.
    """

    def __init__(self, layers, ang, model="dormieux"):
        self.ang = np.asarray(ang, float)
        self.n = len(layers)
        n_f = self.ang.size
        self.thick = [float(l["thick"]) for l in layers]
        self.gc = []
        self.k = []
        for l in layers:
            gc = np.broadcast_to(comp_mod(l["mod"], l["damp"], model), (n_f,)).astype(complex)
            vc = np.sqrt(gc / l["rho"])
            self.gc.append(gc)
            self.k.append(self.ang / vc)
        self.u = [np.ones(n_f, complex)]
        self.t = [np.zeros(n_f, complex)]
        for i in range(self.n - 1):
            u, t = self._inside(i, self.thick[i])
            self.u.append(u)
            self.t.append(t)

    def _inside(self, i, z):
        k, gc, u0, t0 = self.k[i], self.gc[i], self.u[i], self.t[i]
        kz = k * z
        c, s = np.cos(kz), np.sin(kz)
        # sin(kz)/k with the k -> 0 limit
        with np.errstate(all="ignore"):
            sk = np.where(np.abs(k) > 0, s / np.where(k == 0, 1, k), z)
        return u0 * c + t0 / gc * sk, -u0 * k * gc * s + t0 * c

    def disp(self, i, z, field):
        """Displacement (or acceleration) amplitude of one wave field."""
        u, t = self._inside(i, z)
        if field == "within":
            return u
        k, gc = self.k[i], self.gc[i]
        with np.errstate(all="ignore"):
            corr = np.where(np.abs(k) > 0, t / (1j * np.where(k == 0, 1, k) * gc), 0)
        up = 0.5 * (u + corr)
        if field == "outcrop":
            return 2 * up
        if field == "incoming_only":
            return up
        raise ValueError(field)

    def strain(self, i, z):
        u, t = self._inside(i, z)
        return t / self.gc[i]

    def accel_tf(self, lin, lout):
        """lin, lout: (index, depth_within, field)."""
        with np.errstate(all="ignore"):
            return self.disp(*lout) / self.disp(*lin)

    def strain_tf(self, lin, lout):
        with np.errstate(all="ignore"):
            tf = G * self.strain(lout[0], lout[1]) / (-(self.ang**2) * self.disp(*lin))
        return np.where(np.abs(self.ang) <= 1e-8, 0, tf)
