"""Reference lattice sums: psi(d) = (regularised sum over images of 1/|d+nL|) - 1/|d| for boxes periodic in one, two or three
directions (independent formulas with their own splitting parameter; potentials are defined up to a constant)."""
import itertools
import numpy as np
from scipy.special import erf, erfc


def central(a, r):
    """(erfc(a r) - 1)/r with its limit"""
    return np.where(r * a > 1e-6, -erf(a * r) / np.where(r > 0, r, 1), -2 * a / np.sqrt(np.pi))


def psi(d, L, per):
    """d (n,3); L box sizes; per = 3 booleans"""
    P = [k for k in range(3) if per[k]]
    I = [k for k in range(3) if not per[k]]
    r = np.sqrt((d ** 2).sum(1))
    if len(P) == 1:
        x, rho2, l, N = d[:, P[0]], d[:, I[0]] ** 2 + d[:, I[1]] ** 2, L[P[0]], 400
        k = np.concatenate([np.arange(-N, 0), np.arange(1, N + 1)]) * l
        # sum over the images minus the slowly varying reference of each (keeps the round-off small)
        s = (1 / np.sqrt(rho2[:, None] + (x[:, None] + k) ** 2)).sum(1)
        for sg in (1, -1):
            t = (N + .5) * l + sg * x
            s -= np.log((t + np.sqrt(t * t + rho2)) / (2 * N * l)) / l
        return s
    lmin = min(L[k] for k in P)
    al = 2.3 / lmin
    M = 3
    rng = [np.arange(-M, M + 1) if k in P else np.array([0]) for k in range(3)]
    s = central(al, r)
    for n in itertools.product(*rng):
        if n == (0, 0, 0):
            continue
        sh = d + np.array([n[k] * L[k] if k in P else 0. for k in range(3)])
        q = np.sqrt((sh ** 2).sum(1))
        s = s + erfc(al * q) / q
    kmax = 2 * al * 5.5
    K = [2 * np.pi * np.arange(-int(kmax * L[k] / 2 / np.pi) - 1, int(kmax * L[k] / 2 / np.pi) + 2) / L[k] for k in P]
    if len(P) == 3:
        V = np.prod(L)
        g = np.array([k for k in itertools.product(*K) if 0 < sum(q * q for q in k) <= kmax ** 2])
        k2 = (g ** 2).sum(1)
        return s + 4 * np.pi / V * (np.cos(d @ g.T) @ (np.exp(-k2 / 4 / al ** 2) / k2))
    A = L[P[0]] * L[P[1]]
    z = np.abs(d[:, I[0]])
    g = np.array([k for k in itertools.product(*K) if 0 < sum(q * q for q in k) <= kmax ** 2])
    kk = np.sqrt((g ** 2).sum(1))
    ph = np.cos(d[:, P] @ g.T)
    zz, q = z[:, None], kk[None, :]
    from scipy.special import erfcx
    u1 = q / 2 / al + al * zz
    e1 = np.exp(-(q / 2 / al) ** 2 - (al * zz) ** 2) * erfcx(u1)          # e^{kz} erfc(k/2a + a z)
    e2 = np.exp(-q * zz) * erfc(q / 2 / al - al * zz)
    s = s + np.pi / A * (ph * (e1 + e2) / q).sum(1)
    return s - 2 * np.pi / A * (z * erf(al * z) + np.exp(-(al * z) ** 2) / al / np.sqrt(np.pi))


def grad(d, L, per, h=2e-3):
    """-gradient of psi (acceleration towards the images)"""
    st = h * min(L[k] for k in range(3) if per[k])
    o, w = [], []
    for k in range(3):
        for c, x in ((8, 1), (-8, -1), (-1, 2), (1, -2)):
            e = np.zeros(3); e[k] = x * st
            o.append(d + e); w.append(c / 12 / st)
    v = psi(np.concatenate(o), L, per).reshape(12, len(d))
    g = np.zeros_like(d)
    for i in range(12):
        g[:, i // 4] += w[i] * v[i]
    return -g
