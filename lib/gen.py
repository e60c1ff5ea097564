"""Generators: compact, JSON-able descriptions of particle systems (drawn and shrunk by Hypothesis) that are
expanded deterministically into arrays."""
import numpy as np
from hypothesis import strategies as st
from pbt import lin, logf

KINDS = ["uniform", "jitter", "lattice", "cluster", "gradient", "pairs", "aniso", "edges"]


def particles(nmin=4, nmax=200, kinds=KINDS, masses=("equal", "spread", "wide"), ndims=(1, 2, 3), vels=("random", "converge", "cold", "shear")):
    return st.fixed_dictionaries(dict(
        ndim=st.sampled_from(list(ndims)), n=st.integers(nmin, nmax), seed=st.integers(0, 2 ** 20), kind=st.sampled_from(list(kinds)),
        mass=st.sampled_from(list(masses)), vel=st.sampled_from(list(vels))))


def positions(rs, kind, n, nd):
    """n points in the open unit box."""
    eps = 1e-3
    if kind == "uniform":
        r = rs.random((n, nd))
    elif kind in ("jitter", "lattice"):
        k = int(np.ceil(n ** (1.0 / nd) - 1e-9))
        g = (np.stack(np.meshgrid(*[np.arange(k)] * nd, indexing="ij"), -1).reshape(-1, nd) + 0.5) / k
        r = g[rs.permutation(len(g))[:n]]
        # exact lattices are perturbed slightly so that no separation is exactly on a kernel edge
        r = r + (0.4 if kind == "jitter" else 1e-4) / k * (rs.random(r.shape) - 0.5)
    elif kind == "cluster":
        c = rs.random((1 + int(rs.integers(3)), nd)) * 0.7 + 0.15
        s = 10 ** rs.uniform(-2.3, -0.7, len(c))
        j = rs.integers(len(c), size=n)
        r = c[j] + s[j, None] * rs.standard_normal((n, nd))
        bad = ((r <= eps) | (r >= 1 - eps)).any(1)
        r[bad] = rs.random((int(bad.sum()), nd))
    elif kind == "gradient":
        r = rs.random((n, nd))
        r[:, 0] = r[:, 0] ** 2.5
    elif kind == "pairs":
        r = rs.random((n, nd))
        h = n // 2
        r[h:2 * h] = r[:h] + 10 ** rs.uniform(-4, -2) * rs.standard_normal((h, nd))
    elif kind == "aniso":
        r = rs.random((n, nd))
        r[:, -1] = 0.5 + 0.1 * (r[:, -1] - 0.5)
    elif kind == "edges":
        r = rs.random((n, nd))
        m = rs.random((n, nd)) < 0.4
        s = rs.random((n, nd)) * 0.02 + eps
        r = np.where(m, np.where(rs.random((n, nd)) < 0.5, s, 1 - s), r)
    bad = (r < eps) | (r > 1 - eps)
    # keep away from the walls without making particles coincide
    return np.where(bad, np.where(r < 0.5, eps, 1 - 2 * eps) + eps * rs.random(r.shape), r)


def system(d, nd=None):
    """-> dict(r in the unit box, v, m, u, rs)"""
    nd = nd or d["ndim"]
    rs = np.random.default_rng([d["seed"], d["n"], nd])
    n = d["n"]
    r = positions(rs, d["kind"], n, nd)
    if d["mass"] == "equal":
        m = np.full(n, 1.0 / n)
    elif d["mass"] == "spread":
        m = rs.uniform(0.5, 1.5, n) / n
    else:
        m = 10 ** rs.uniform(-1, 1, n) / n
    if d["vel"] == "random":
        v = rs.standard_normal((n, nd))
    elif d["vel"] == "converge":
        v = -2 * (r - 0.5) + 0.1 * rs.standard_normal((n, nd))
    elif d["vel"] == "cold":
        v = np.zeros((n, nd))
    else:
        v = np.zeros((n, nd))
        v[:, -1] = np.sin(2 * np.pi * r[:, 0])
        v[:, 0] += 0.3
    u = 10 ** rs.uniform(-0.5, 0.5, n)
    return dict(r=r, v=v, m=m, u=u, rs=rs)


BC = {"o": ("open", "open"), "p": ("periodic", "periodic"), "m": ("mirror", "mirror"), "l": ("mirror", "open"), "r": ("open", "mirror"), "w": ("wall", "wall")}


def bc_params(bc, nd, lo=0.0, size=1.0):
    """bc: one letter per axis; box [lo, lo+size] per axis (scalars or sequences)."""
    P = {}
    for k in range(nd):
        a, b = BC[bc[k]]
        l = lo[k] if np.ndim(lo) else lo
        s = size[k] if np.ndim(size) else size
        P["boundary_lhs[%d]" % k], P["boundary_rhs[%d]" % k] = a, b
        P["boxmin[%d]" % k], P["boxmax[%d]" % k] = float(l), float(l + s)
    return P


def images(r, v, bc, lo, size, reach):
    """All images of the particles that come within `reach` of the box (including the particles themselves).
    -> index, positions, velocities."""
    n, nd = r.shape
    idx, R, V = np.arange(n), r.copy(), v.copy()
    for k in range(nd):
        l = lo[k] if np.ndim(lo) else lo
        s = size[k] if np.ndim(size) else size
        I, RR, VV = [idx], [R], [V]
        b = bc[k]
        if b == "p":
            for q in (-1, 1):
                x = R.copy()
                x[:, k] += q * s
                I.append(idx), RR.append(x), VV.append(V)
        if b in "ml":
            x, w = R.copy(), V.copy()
            x[:, k] = 2 * l - x[:, k]
            w[:, k] *= -1
            I.append(idx), RR.append(x), VV.append(w)
        if b in "mr":
            x, w = R.copy(), V.copy()
            x[:, k] = 2 * (l + s) - x[:, k]
            w[:, k] *= -1
            I.append(idx), RR.append(x), VV.append(w)
        idx, R, V = np.concatenate(I), np.concatenate(RR), np.concatenate(VV)
        if b != "o":
            keep = (R[:, k] > l - reach) & (R[:, k] < l + s + reach)
            idx, R, V = idx[keep], R[keep], V[keep]
    return idx, R, V


def solvable_mass(m, h_fac, K, margin=1.3):
    """Reduce the largest masses until h = h_fac (m/rho)^(1/n) has a solution for every particle (the density at
    very large h, M w0(0)/h^n, must exceed the density the particle asks for, h_fac^n m/h^n)."""
    m = m.copy()
    w = K.w0(np.array([0.0]))[0]
    for _ in range(200):
        if m.sum() * w >= margin * h_fac ** K.ndim * m.max():
            break
        m = np.minimum(m, 0.8 * m.max())
    return m
