"""Direct pairwise reference of the grad-h SPH equations (hydrodynamics) on a dumped state."""
import numpy as np


def hydro(S, K, idx, R, V, opt):
    """S: state; images: idx, R, V (first N entries are the particles themselves).
    opt: avisc ('none','mon97','alpha'), acond, alpha, beta.  Only gas (type 0) interacts.
    Returns dict of a, dudt, div_v and scales a_sc, dudt_sc, div_sc (sums of absolute values)."""
    n, nd = S.r.shape
    gas = S.ptype == 0
    out = {k: np.zeros(n) for k in ("dudt", "div_v", "dudt_sc", "div_sc", "a_sc", "nn")}
    out["a"] = np.zeros((n, nd))
    P = S.pressure * S.invomega / S.rho ** 2
    g = gas[idx]
    idx, R, V = idx[g], R[g], V[g]
    # a tabulated kernel is piecewise constant: its error is absolute, so the scale uses the largest gradient
    wmax = np.abs(K.w1(np.linspace(0, K.R, 400))).max() if opt.get("tab") else 0
    for i in np.nonzero(gas)[0]:
        d = R - S.r[i]
        r = np.sqrt((d ** 2).sum(1))
        sel = (r > 0) & (r < K.R * np.maximum(S.h[i], S.h[idx]))
        j, d, r, dv = idx[sel], d[sel], r[sel], V[sel] - S.v[i]
        e = d / r[:, None]
        wi = K.w1(r / S.h[i]) / S.h[i] ** (nd + 1)
        wj = K.w1(r / S.h[j]) / S.h[j] ** (nd + 1)
        dvdr = (dv * e).sum(1)
        m = S.m[j]
        app = dvdr < 0
        al = opt["alpha"] if opt["avisc"] == "mon97" else 0.5 * (S.alpha[i] + S.alpha[j])
        c = S.pressure[i] * S.invomega[i] / S.rho[i]

        def terms(wi, wj):       # every term is linear in the two kernel gradients
            wr = 0.25 * (wi + wj) * (1 / S.rho[i] + 1 / S.rho[j])
            pi, pj = m * P[i] * wi, m * P[j] * wj
            pv = du = cd = np.zeros(len(j))
            if opt["avisc"] != "none":
                vs = S.sound[i] + S.sound[j] - opt["beta"] * al * dvdr
                pv = np.where(app, al * vs * dvdr * wr, 0)
                du = -0.5 * m * pv * dvdr
            if opt.get("acond") == "wadsley2008":
                cd = np.where(app, m * dvdr * (S.u[j] - S.u[i]) * (wi / S.rho[i] + wj / S.rho[j]), 0)
            elif opt.get("acond") == "price2008":
                cd = np.where(app, m * (S.u[i] - S.u[j]) * wr * np.sqrt(0.5 * (1 / S.rho[i] + 1 / S.rho[j]) * np.abs(S.pressure[i] - S.pressure[j])), 0)
            return pi, pj, -m * pv, du, cd, m * dvdr * wi / S.rho[i]
        pi, pj, pv, du, cd, dvt = terms(wi, wj)
        out["div_v"][i] = -dvt.sum()
        out["dudt"][i] = du.sum() + cd.sum() - c * out["div_v"][i]
        out["a"][i] = ((pi + pj + pv)[:, None] * e).sum(0)
        if wmax:
            pi, pj, pv, du, cd, dvt = terms(np.full(len(j), wmax / S.h[i] ** (nd + 1)), wmax / S.h[j] ** (nd + 1))
        A = lambda x: np.abs(x).sum()
        q = opt.get("vround", 0) * A(m * wi) / S.rho[i]       # rounding of the velocities themselves
        out["div_sc"][i] = A(dvt) + q
        out["dudt_sc"][i] = A(du) + A(cd) + abs(c) * (A(dvt) + q)
        out["a_sc"][i] = A(pi) + A(pj) + A(pv)
        out["nn"][i] = len(j)
    return out


def gravity(S, K, gm, theta0=True):
    """Direct grad-h softened gravity between all particles with gm[type] true (open boundaries).
    -> acceleration, potential (positive, gpot convention), scale"""
    n, nd = S.r.shape
    on = gm[S.ptype.astype(int)]
    a, pot, sc = np.zeros((n, nd)), np.zeros(n), np.zeros(n)
    J = np.nonzero(on)[0]
    for i in range(n):
        d = S.r[J] - S.r[i]
        r = np.sqrt((d ** 2).sum(1) + 1e-40)
        o = J != i
        j, d, r = J[o], d[o], r[o]
        e = d / r[:, None]
        si, sj = r / S.h[i], r / S.h[j]
        wi = K.w1(si) / S.h[i] ** (nd + 1)
        wj = K.w1(sj) / S.h[j] ** (nd + 1)
        f = 0.5 * S.m[j] * (K.wgrav(si) / S.h[i] ** 2 + S.zeta[i] * wi + K.wgrav(sj) / S.h[j] ** 2 + S.zeta[j] * wj)
        p = 0.5 * S.m[j] * (K.wpot(si) / S.h[i] + K.wpot(sj) / S.h[j])
        a[i] = (f[:, None] * e).sum(0)
        pot[i] = p.sum()
        sc[i] = np.abs(f).sum()
    return a, pot, sc
