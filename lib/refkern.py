"""Reference smoothing kernels, written from their definitions (cardinal B-splines M4 and M6 as sums of
truncated powers, and the Gaussian), not from the code."""
import numpy as np
from math import comb, pi, factorial, exp, sqrt
from numpy.polynomial import Polynomial as P

_cache = {}


class Kern:
    def __init__(self, name, ndim):
        self.name, self.ndim = name, ndim
        self.R = {"m4": 2.0, "quintic": 3.0, "gaussian": 3.0}[name]
        if name == "gaussian":
            self.norm = pi ** (-ndim / 2.0)
            return
        n = {"m4": 4, "quintic": 6}[name]
        # 1D cardinal B-spline of order n on |s| < n/2: (1/(n-1)!) sum_k (-1)^k C(n,k) (n/2-k-s)_+^(n-1)
        self.pieces = []
        for lo in range(int(self.R)):
            p = P([0.0])
            for k in range(n + 1):
                c = n / 2.0 - k
                if c >= lo + 1 - 1e-12:
                    p = p + (-1) ** k * comb(n, k) * P([c, -1.0]) ** (n - 1)
            self.pieces.append(p / factorial(n - 1))
        surf = {1: 2.0, 2: 2 * pi, 3: 4 * pi}[ndim]
        I = 0.0
        for lo, p in enumerate(self.pieces):
            q = (p * P([0, 1]) ** (ndim - 1)).integ()
            I += q(lo + 1) - q(lo)
        self.pieces = [p / (surf * I) for p in self.pieces]
        self.norm = float(self.pieces[0](0.0))
        # enclosed mass in 3D sense (gravity uses the 3D kernel whatever ndim is)
        if ndim == 3:
            k3 = self
        else:
            k3 = kern(name, 3)
        if ndim == 3:
            self.mpieces = []
            acc = 0.0
            for lo, p in enumerate(self.pieces):
                q = (p * P([0, 0, 4 * pi])).integ()
                q = q - q(lo) + acc
                acc = q(lo + 1)
                self.mpieces.append(q)
        self.k3 = k3

    def _eval(self, pieces, s):
        s = np.asarray(s, float)
        out = np.zeros_like(s)
        for lo, p in enumerate(pieces):
            m = (s >= lo) & (s < lo + 1)
            out[m] = p(s[m])
        return out

    def w0(self, s):
        s = np.asarray(s, float)
        if self.name == "gaussian":
            return np.where(s < self.R, self.norm * np.exp(-s * s), 0.0)
        return self._eval(self.pieces, s)

    def w1(self, s):
        s = np.asarray(s, float)
        if self.name == "gaussian":
            return np.where(s < self.R, -2 * s * self.norm * np.exp(-s * s), 0.0)
        return self._eval([p.deriv() for p in self.pieces], s)

    def womega(self, s):       # dW/dh * h^(n+1)
        return -(self.ndim * self.w0(s) + s * self.w1(s))

    def wgrav(self, s):        # enclosed mass fraction / s^2
        s = np.asarray(s, float)
        m = np.where(s < self.R, self._eval(self.k3.mpieces, s), 1.0)
        return np.where(s > 0, m / np.maximum(s, 1e-100) ** 2, 0.0)

    def wpot(self, s):         # -phi h / (G m)
        s = np.asarray(s, float)
        out = np.where(s >= self.R, 1.0 / np.maximum(s, 1e-100), 0.0)
        ins = s < self.R
        m = self.k3._eval(self.k3.mpieces, s)
        outer = np.zeros_like(s)
        for lo in range(int(self.R) - 1, -1, -1):
            pass
        # 4 pi int_s^R s' w ds'
        Q = []
        acc = 0.0
        for lo in range(int(self.R) - 1, -1, -1):
            q = (self.k3.pieces[lo] * P([0, 4 * pi])).integ()
            Q.insert(0, (q, acc))
            acc += q(lo + 1) - q(lo)
        for lo in range(int(self.R)):
            k = (s >= lo) & (s < lo + 1)
            q, a = Q[lo]
            outer[k] = q(lo + 1) - q(s[k]) + a
        ms = np.where(s > 0, m / np.maximum(s, 1e-100), 0.0)
        out[ins] = (ms + outer)[ins]
        return out

    def wzeta(self, s):        # wpot + s dwpot/ds inside, 0 outside
        s = np.asarray(s, float)
        return np.where(s < self.R, self.wpot(s) - s * self.wgrav(s), 0.0)

    def wlos(self, b):
        """Line-of-sight integral at impact parameter b (arrays)."""
        x, wt = np.polynomial.legendre.leggauss(60)
        out = np.zeros_like(b)
        for i, bb in enumerate(b):
            if bb >= self.R:
                continue
            # split at kernel knots
            zs = [0.0] + [sqrt(k * k - bb * bb) for k in range(1, int(self.R) + 1) if k > bb]
            for z0, z1 in zip(zs[:-1], zs[1:]):
                z = 0.5 * (z1 - z0) * (x + 1) + z0
                out[i] += 2 * np.sum(wt * self.w0(np.sqrt(z * z + bb * bb))) * 0.5 * (z1 - z0)
        return out

    def dragnorm(self):
        x, wt = np.polynomial.legendre.leggauss(60)
        surf = {1: 2.0, 2: 2 * pi, 3: 4 * pi}[self.ndim]
        I = 0.0
        for lo in range(int(self.R)):
            s = lo + 0.5 * (x + 1)
            I += np.sum(wt * 0.5 * surf * s ** (self.ndim - 1) * s * s * self.w0(s))
        return 1.0 / I


def kern(name, ndim):
    if (name, ndim) not in _cache:
        _cache[(name, ndim)] = Kern(name, ndim)
    return _cache[(name, ndim)]
