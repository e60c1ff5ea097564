import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import *
import gen, refkern, c11

TECH = "property-based testing (Hypothesis): gradients, slope-limiter factors and one step of interface fluxes of generated systems against brute-force reference models over all neighbours, linear-field exactness, and limiter bounds as invariants"
NOTE = "MUSCL MFV/MFM/static, 1-3 dimensions, all six limiters, M4 and quintic kernels, all tree types, open, periodic and mirror boundaries (gradients) or open/periodic (fluxes with HLLC); up to 250 particles"
SKIP = ("Smoothing length too large", "Error : Particles more than")
ABORT = ("isnormal(W", "part.u > ", "part.pressure > ", "part.m > ", "isnormal(part", "Negative pstar", "Wleft[", "Wright[")
BAD = 1 << 5


def make(c):
    d = dict(c["p"])
    nd = d["ndim"]
    bc = c["bc"][:nd]
    if nd > 1 and "p" in bc:
        d["n"] += (0, 0, 100, 700)[nd]
        if d["kind"] in ("cluster", "gradient", "pairs", "aniso"):
            d["kind"] = "uniform" if nd == 2 else "jitter"
    S = gen.system(d)
    rs, n = S["rs"], d["n"]
    A = v0 = None
    v = S["v"] * c["mach"]
    if c["field"] == "linear":
        A = rs.standard_normal((nd, nd)) * c["mach"]
        v0 = rs.standard_normal(nd) * c["mach"]
        v = v0 + S["r"] @ A.T
    elif c["field"] == "uniform":
        v = np.tile(rs.standard_normal(nd), (n, 1))
    u = np.ones(n) * 1.5 if c["uni"] else 1.5 * S["u"] / S["u"].mean()
    P = dict(ndim=nd, sim="mfvmuscl", run_id="A", riemann_solver="hllc", slope_limiter=c["limiter"], zero_mass_flux=int(c["move"] == "mfm"), static_particles=int(c["move"] == "static"), Nlevels=1, gas_eos=c["eos"], gamma_eos=c["gamma"], temp0=1.0, mu_bar=1.0, hydro_forces=1, self_gravity=0,
             courant_mult=c["courant"], neib_search=c["tree"], kernel=c["kernel"], Nleafmax=c["leaf"], tend=1e30, noutputstep=10 ** 6, dt_snap=1e30, tsnapfirst=1e30, h_fac=1.2 if nd == 1 else 1.0 if nd == 2 else 1.1, h_converge=1e-6)
    P.update(gen.bc_params(bc, nd))
    return P, dict(coords(S["r"], v), m=S["m"], u=u), d, A, bc


def start(c, ctx, steps):
    P, arr, d, A, bc = make(c)
    nd = d["ndim"]
    ctx.label("%dd" % nd, c["limiter"], c["field"], "bc_" + bc, c["move"], c["kernel"])
    with Workdir() as w:
        L, F = sim_lines(P, arr, None)
        res = run_script(exe("gdrv"), L + ["setup", "dump S0"] + (["steptrace 1 S"] if steps else []), w, F, cpu=25)
        if res.rc or res.hang:
            t = res.tail()
            for s in SKIP + (ABORT if steps else ()):
                if s in t:
                    ctx.label("skip:" + s.strip())
                    return
            if res.hang:
                raise Inconclusive("slow")
            raise Violation("crash", "run fails (exit %s): %s" % (res.rc, t[-300:]))
        S0 = res.dump("S0")
        if "p" in bc and 2 * refkern.kern(c["kernel"], nd).R * S0.h.max() > .5:  # refused by the first step
            ctx.label("skip:hmax")
            return
        return S0, (res.dump("S.0") if steps else None), P, d, A, bc


def neighbours(S, bc, nd, K):
    n = len(S.m)
    r, W = S.r.reshape(n, nd), S.Wprim.reshape(n, nd + 2)
    idx, R, V = gen.images(r, W[:, :nd], bc, 0.0, 1.0, K.R * S.h.max() * 1.01)
    Wj = W[idx].copy()
    Wj[:, :nd] = V
    return r, W, idx, R, Wj


def limit(lim, grad, dr, dW, W, h, nd, hmaxdist):
    """limiter factors of one particle from the definitions; dr, dW: neighbour separations and differences"""
    nv = nd + 2
    al = np.ones(nv)
    for q in range(nv):
        g, e = grad[q], dW[:, q]
        p = .51 * (dr @ g)
        if lim == "tvdscalar":
            with np.errstate(all="ignore"):
                x = np.where(p != 0, np.clip(e / np.where(p == 0, 1, p), 0, 1), 1)
            al[q] = min(1, x.min())
        elif lim in ("scalar", "gizmo"):
            up, dn = max(0, e.max()), max(0, -e.min())
            s = .51 * max(np.sqrt((dr ** 2).sum(1)).max(), 2 * h) * np.sqrt((g ** 2).sum())
            al[q] = 1 if s == 0 else max(0, min(1, up / s, dn / s))
        elif lim == "springel2009":
            up, dn = max(0, e.max()), min(0, e.min())
            a = 1.0
            if (p > 0).any():
                a = min(a, up / p.max())
            if (p < 0).any():
                a = min(a, dn / p.min())
            al[q] = a
    return al


def gradients(c, ctx):
    q = start(c, ctx, 0)
    if not q:
        return
    S, _, P, d, A, bc = q
    nd = d["ndim"]
    nv = nd + 2
    n = len(S.m)
    K = refkern.kern(c["kernel"], nd)
    r, W, idx, R, Wj = neighbours(S, bc, nd, K)
    G, AL, B = S.grad.reshape(n, nv, nd), S.alpha_slope.reshape(n, nv), S.B.reshape(n, nd, nd)
    bad = (S.flags.astype(int) & BAD) != 0
    if not np.allclose(W[:, nd], S.rho, 1e-12, 0) or not np.array_equal(W[:, :nd], S.v.reshape(n, nd)):
        raise Violation("primitive", "primitive variables differ from density and velocity")
    nt = 0
    for i in range(n):
        dr = R - r[i]
        s2 = (dr ** 2).sum(1)
        hj = S.h[idx]
        near = s2 <= (K.R * np.maximum(S.h[i], hj) * (1 + 1e-9)) ** 2
        own = near & (idx == i) & (s2 == 0)
        near &= ~own
        dr, s2, j = dr[near], s2[near], idx[near]
        s = np.sqrt(s2)
        w = K.w0(s / S.h[i])
        E = np.einsum("n,na,nb->ab", w, dr, dr) * S.h[i] ** -nd / S.ndens[i]
        dW = Wj[near] - W[i]
        # signal velocity
        vr = ((Wj[near][:, :nd] - W[i, :nd]) * dr).sum(1) / np.maximum(s, 1e-300)
        vs = max((S.sound[i] + S.sound[j] - np.minimum(0, vr)).max() if len(j) else 0, 2 * S.sound[i])
        if not close1(S.vsig_max[i], vs, 1e-6):
            raise Violation("signal", "particle %d: signal velocity %.12g, the neighbours give %.12g" % (i, S.vsig_max[i], vs))
        try:
            inv = np.linalg.inv(E)
            cond2 = (E ** 2).sum() * (inv ** 2).sum() / nd ** 2
        except np.linalg.LinAlgError:
            continue
        if not np.isfinite(cond2) or cond2 > .9e4 and cond2 < 1.1e4:
            continue
        if bad[i] != (cond2 > 1e4):
            raise Violation("conditioning", "particle %d: squared condition number %.6g but the gradients are marked %s" % (i, cond2, "bad" if bad[i] else "good"))
        if bad[i]:
            ctx.label("bad_gradient")
            with np.errstate(all="ignore"):
                e = np.where(s > 0, -K.w1(s / S.h[i]) / s, 0)[:, None] * dr * S.h[i] ** -(nd + 1) / S.ndens[i]
            g = np.einsum("nv,na->va", dW, e)
            mag = np.einsum("nv,na->va", np.abs(dW), np.abs(e)).max(1)
        else:
            psi = (w[:, None] * dr) @ inv.T * S.h[i] ** -nd / S.ndens[i]
            g = np.einsum("nv,na->va", dW, psi)
            mag = np.einsum("nv,na->va", np.abs(dW), np.abs(psi)).max(1)
            if A is not None:
                nt += 1
                # a linear velocity field (images across periodic boundaries are not linear)
                if bc == "o" * nd:
                    err = np.abs(G[i, :nd] - A).max()
                    if err > 1e-11 * (cond2 + 10) * (np.abs(A).max() + np.abs(W[:, :nd]).max() / S.h[i] * 1e-2):
                        raise Violation("linear", "particle %d: the gradient of a linear velocity field is off by %.3g (gradient %s, expected %s, squared condition number %.3g)" % (i, err, G[i, :nd].tolist(), A.tolist(), cond2))
        tol = 1e-9 * (1 + cond2 * 1e-2)
        if (np.abs(G[i] - g).max(1) > tol * mag + 1e-12 * np.abs(W).max(0) / S.h[i]).any():
            v = int(np.argmax(np.abs(G[i] - g).max(1) / (mag + 1e-300)))
            raise Violation("gradient", "particle %d: gradient of variable %d is %s, the neighbours give %s" % (i, v, G[i, v].tolist(), g[v].tolist()))
        if not len(j):
            continue
        al = limit(c["limiter"], G[i], dr, dW, W[i], S.h[i], nd, None)
        # tiny gradients (rounding) leave the factor undefined
        sig = np.sqrt((G[i] ** 2).sum(1)) * S.h[i] > 1e-9 * np.abs(W).max(0)
        if (AL[i] > 1 + 1e-12).any() or (AL[i] < -1e-12).any():
            raise Violation("alpha_range", "particle %d: limiter factors %s outside 0..1" % (i, AL[i].tolist()))
        if c["limiter"] not in ("null", "zeroslope"):
            up, dn = dW.max(0), dW.min(0)
            ext = sig & ((up < -1e-9 * np.abs(W).max(0)) | (dn > 1e-9 * np.abs(W).max(0)))
            if c["limiter"] in ("scalar", "gizmo") and (np.abs(AL[i][ext]) > 1e-12).any():
                raise Violation("extremum", "particle %d is a local extremum but the limiter leaves factors %s" % (i, AL[i].tolist()))
            if ext.any():
                ctx.label("extremum")
            x = .5 * (dr @ (AL[i][:, None] * G[i]).T)  # half-way states minus the particle's own
            slack = 1e-9 * np.abs(W).max(0)
            if c["limiter"] == "tvdscalar":
                badx = ((x * dW < -slack * np.abs(dW)) | (np.abs(x) > np.abs(dW) + slack)) & sig
            else:
                badx = ((x > np.maximum(up, 0) + slack) | (x < np.minimum(dn, 0) - slack)) & sig
            if badx.any():
                k, v = [int(y) for y in np.argwhere(badx)[0]]
                raise Violation("interface_range", "particle %d: state reconstructed half-way to neighbour %d changes variable %d by %.9g; neighbours range over %.9g..%.9g (this one %.9g)" % (i, j[k], v, x[k, v], dn[v], up[v], dW[k, v]))
        # a factor is a ratio of differences: its rounding error grows as the gradient vanishes
        rel = np.abs(W).max(0) * 1e-12 / (np.sqrt((G[i] ** 2).sum(1)) * S.h[i] + 1e-300)
        if c["limiter"] != "tvdscalar":
            if (sig & (np.abs(AL[i] - al) > 1e-7 + rel)).any():
                raise Violation("alpha", "particle %d: limiter factors %s, definition gives %s" % (i, AL[i].tolist(), al.tolist()))
        elif (sig & (AL[i] > al + 1e-7 + rel)).any() or (c["field"] == "random" and (sig & (np.abs(AL[i] - al) > 1e-5)).mean() > .5):
            raise Violation("alpha", "particle %d: limiter factors %s, definition gives %s" % (i, AL[i].tolist(), al.tolist()))
        nt += 1
    ctx.nontrivial(nt >= 5)


def close1(a, b, rt):
    return abs(a - b) <= rt * max(abs(a), abs(b))


def gizmo_pair(wi, wj, dw, frac):
    """pairwise limiter: keep the face value between the two states with the tolerances psi1, psi2"""
    if wi == wj:
        return 0.0
    d1, d2 = .5 * abs(wi - wj), .375 * abs(wi - wj)
    lo, hi = min(wi, wj), max(wi, wj)
    bar = wi + (wj - wi) * frac
    x = wi + dw
    if wi < wj:
        m = lo - d1 if np.sign(lo - d1) == np.sign(lo) else lo / (1 + d1 / abs(lo))
        f = max(m, min(bar + d2, x))
    else:
        p = hi + d1 if np.sign(hi + d1) == np.sign(hi) else hi / (1 + d1 / abs(hi))
        f = min(p, max(bar - d2, x))
    return f - wi


def flux(c, ctx):
    q = start(c, ctx, 1)
    if not q:
        return
    S, S1, P, d, A, bc = q
    nd, n = d["ndim"], len(S.m)
    nv = nd + 2
    K = refkern.kern(c["kernel"], nd)
    r, W, idx, R, Wj = neighbours(S, bc, nd, K)
    G, AL, B = S.grad.reshape(n, nv, nd), S.alpha_slope.reshape(n, nv), S.B.reshape(n, nd, nd)
    bad = (S.flags.astype(int) & BAD) != 0
    dt = float(np.ravel(S1.t)[0] - np.ravel(S.t)[0])
    iso = c["eos"] == "isothermal"
    g = 1.0 if iso else c["gamma"]
    tgt = np.random.default_rng(c["p"]["seed"]).choice(n, min(n, 10), replace=False)
    vol = 1 / S.ndens
    o1 = {int(x): k for k, x in enumerate(S1.iorig)}
    Q0, Q1 = S.Qcons0.reshape(n, nv), S1.Qcons0.reshape(n, nv)

    def psi(i, dr):
        s = np.sqrt((dr ** 2).sum())
        if bad[i]:
            return -dr / (s + 1e-20) * K.w1(np.array([s / S.h[i]]))[0] * S.h[i] ** -(nd + 1) * vol[i]
        return B[i] @ dr * K.w0(np.array([s / S.h[i]]))[0] * S.h[i] ** -(nd + 1) * vol[i]

    def face(i, j, wi, wj, dr, vf, si):
        gr = G[i] * (0 if c["limiter"] == "zeroslope" else 1 if c["limiter"] == "null" else AL[i][:, None])
        dw = gr @ (.5 * dr)
        if c["limiter"] == "gizmo":
            dw = np.array([gizmo_pair(wi[q], wj[q], dw[q], .5) for q in range(nv)])
        x = wi + dw
        x[:nd] -= vf
        div = np.trace(gr[:nd])
        dot = np.empty(nv)
        for q in range(nv):
            dot[q] = -x[:nd] @ gr[q]
        dot[nd] -= x[nd] * div
        dot[nd + 1] -= x[nd] * S.sound[i] ** 2 * div
        dot[:nd] -= gr[nd + 1] / x[nd]
        x = x + .5 * dt * dot
        x[nd:] = np.maximum(x[nd:], 1e-20)
        return x
    cnt = 0
    for i in tgt:
        floor = 0
        dr = R - r[i]
        s = np.sqrt((dr ** 2).sum(1))
        near = np.flatnonzero((s < K.R * np.maximum(S.h[i], S.h[idx])) & ~((idx == i) & (s == 0)))
        dq = np.zeros(nv)
        mag = np.zeros(nv)
        for k in near:
            j = idx[k]
            e = dr[k]
            Aij = vol[i] * psi(i, e) - vol[j] * psi(j, -e)
            am = np.sqrt(Aij @ Aij)
            if am == 0:
                continue
            vf = np.zeros(nd) if c["move"] == "static" else .5 * (W[i, :nd] + W[j, :nd])
            a, b = face(i, j, W[i], W[j], e, vf, None), face(j, i, W[j], W[i], -e, vf, None)
            if min(a[nd], b[nd], a[nd + 1], b[nd + 1]) <= 1e-15:
                floor += 1
            f, _, _ = c11.hllc(g, a, b, Aij / am, vf, c["move"] == "mfm", iso)
            dq -= f * am * dt
            mag += np.abs(f) * am * dt
            cnt += 1
        if floor:
            ctx.label("floored")
            continue
        got = Q1[o1[int(S.iorig[i])]] - Q0[i]
        if iso:
            got[nd + 1] = dq[nd + 1] = 0  # not evolved
        tol = 1e-8 * mag + 1e-13 * np.abs(Q0[i]).max() + 1e-13 * np.abs(Q0[i])
        if (np.abs(got - dq) > tol).any():
            v = int(np.argmax(np.abs(got - dq) / (tol + 1e-300)))
            raise Violation("flux", "particle %d: conserved variable %d changes by %.12g in a step of %.6g; the fluxes through its %d faces sum to %.12g (magnitude %.6g)" % (i, v, got[v], dt, len(near), dq[v], mag[v]))
    ctx.nontrivial(cnt >= 10)


def strat(flux):
    return st.fixed_dictionaries(dict(p=gen.particles(20, 80 if flux else 150, kinds=["jitter", "uniform", "uniform", "cluster", "gradient", "pairs", "aniso", "edges"] if not flux else ["jitter", "jitter", "lattice", "uniform", "gradient", "edges"], masses=("equal", "spread"), vels=("shear", "random", "converge", "cold") if not flux else ("shear", "random")), field=st.sampled_from(["random", "random", "linear", "uniform"]),
                                      mach=st.sampled_from([.1, 1.0, 3.0] if not flux else [.1, .5]), uni=st.booleans(), limiter=st.sampled_from(["gizmo", "gizmo", "springel2009", "scalar", "tvdscalar", "zeroslope", "null"]), move=st.sampled_from(["mfv", "mfm", "static"]), eos=st.sampled_from(["energy_eqn", "energy_eqn", "energy_eqn"] + ["isothermal"] * (not flux)),
                                      gamma=st.sampled_from([1.4, 5. / 3]), courant=st.sampled_from([.05, .2]), tree=st.sampled_from(["kdtree", "octtree", "bruteforce"]), kernel=st.sampled_from(["m4", "m4", "quintic"]), leaf=st.sampled_from([1, 6, 20]), bc=st.one_of(st.just("ooo"), st.text("op" if flux else "opm", min_size=3, max_size=3))))


SUBS_ = [Sub("gradients", strat(False), gradients, quick=500, thorough=8000), Sub("flux", strat(True), flux, quick=500, thorough=5000)]
if __name__ == "__main__":
    main("C12", SUBS_, builds=[("gdrv", "std")],
         rule="a case is one generated system; non-trivial if at least five particles with usable gradients, or ten interfaces, were compared",
         assumptions=["fluxes compared for the HLLC solver with the energy equation; the exact solver is covered by C11", "particles with squared condition numbers within 10% of the switching threshold are not judged"])
