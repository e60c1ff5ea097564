import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from scipy.optimize import brentq

TECH = "property-based testing (Hypothesis): independent exact Riemann solution, HLLC reference, and symmetry, Galilean, contact, supersonic and small-jump relations"
NOTE = "batches of generated Riemann problems: random, equal, contact, strong, supersonic, near-vacuum and vacuum states, rotated in 1-3D, moving faces, zero mass flux"
KINDS = ["random", "mild", "equal", "contact", "strong", "supersonic", "vacuum", "nearvac", "tiny", "shear"]


def gen(c):
    """-> list of (Wl, Wr, n, vface, speeds)"""
    nd, g = c["nd"], c["gamma"]
    rs = np.random.default_rng(c["seed"])
    out = []
    for i in range(c["n"]):
        k = c["kind"]
        n = rs.standard_normal(nd)
        if rs.random() < 0.3:
            n = np.zeros(nd)
            n[rs.integers(nd)] = rs.choice([-1, 1])
        n /= np.sqrt((n * n).sum())
        span = {"strong": 4, "mild": 0.3}.get(k, 1.2)
        d = 10 ** rs.uniform(-span, span, 2)
        p = 10 ** rs.uniform(-span, span, 2)
        if k in ("equal",):
            d[1], p[1] = d[0], p[0]
        if k in ("contact", "shear"):
            p[1] = p[0]
        if k == "tiny":
            e = 10 ** rs.uniform(-6, -3)
            d[1], p[1] = d[0] * (1 + e * rs.uniform(-1, 1)), p[0] * (1 + e * rs.uniform(-1, 1))
        cs = np.sqrt(g * p / d)
        u = rs.uniform(-2, 2, 2) * cs.mean() * (0.5 if k == "mild" else 1)
        if k in ("equal", "contact", "shear"):
            u[1] = u[0]
            if rs.random() < 0.3:
                u[:] = 0
        if k == "tiny":
            u[1] = u[0] + e * cs[0] * rs.uniform(-1, 1)
        if k == "supersonic":
            u = rs.choice([-1, 1]) * (cs.max() * rs.uniform(6, 9) * np.ones(2) + rs.uniform(-1, 1, 2) * cs.min())
            p[1] = p[0] * rs.uniform(0.5, 2)
            d[1] = d[0] * rs.uniform(0.5, 2)
        lim = 2 / (g - 1) * cs.sum()
        if k == "vacuum":
            x = rs.uniform(-1.5, 1.5) * lim
            u = np.array([x, x + lim * rs.uniform(1.01, 2)])
        if k == "nearvac":
            x = rs.uniform(-1, 0) * lim
            u = np.array([x, x + lim * rs.uniform(0.6, 0.97)])
        t = rs.standard_normal((2, nd)) * cs.mean()
        if k in ("equal",) or (k == "contact" and rs.random() < 0.5):
            t[1] = t[0]
        if k == "tiny":
            t[1] = t[0] + e * rs.standard_normal(nd) * cs[0]
        t -= (t @ n)[:, None] * n
        W = [np.array([*(u[s] * n + t[s]), d[s], p[s]]) for s in (0, 1)]
        vf = rs.standard_normal(nd) * cs.mean() * (0 if rs.random() < 0.3 else 1)
        out.append([W[0], W[1], n, vf, rs.uniform(-3, 3, 5) * (cs.sum() + np.abs(u).max())])
    return out


def solve(c, probs, solver=None, zmf=None):
    nd = c["nd"]
    inp = [nd, c["solver"] if solver is None else solver, c["zmf"] if zmf is None else zmf, c["gamma"], len(probs)]
    for p in probs:
        for x in p:
            inp += list(x)
    with Workdir() as w:
        np.array(inp, float).tofile(os.path.join(w, "in"))
        expect_ok(run_exe(exe("riem"), ["in", "out"], w, cpu=20))
        o = np.fromfile(os.path.join(w, "out")).reshape(len(probs), -1)
    return o[:, :nd + 2], o[:, nd + 2:2 * nd + 2], o[:, 2 * nd + 2], o[:, 2 * nd + 3], o[:, 2 * nd + 4:].reshape(len(probs), 5, 3)


# -- independent exact solution
def star(g, l, r):
    (dl, ul, pl), (dr, ur, pr) = l, r
    cl, cr = np.sqrt(g * pl / dl), np.sqrt(g * pr / dr)
    if ur - ul >= 2 / (g - 1) * (cl + cr):
        return None

    def f(p, d, pk, ck):
        if p > pk:
            return (p - pk) * np.sqrt(2 / ((g + 1) * d) / (p + (g - 1) / (g + 1) * pk))
        return 2 * ck / (g - 1) * ((p / pk) ** ((g - 1) / (2 * g)) - 1)

    F = lambda y: f(np.exp(y), dl, pl, cl) + f(np.exp(y), dr, pr, cr) + ur - ul
    lo = hi = np.log(min(pl, pr))
    while F(lo) > 0:
        lo -= 5
    while F(hi) < 0:
        hi += 5
    y = brentq(F, lo - 1e-9, hi + 1e-9, xtol=1e-13, rtol=1e-14)
    p = np.exp(y)
    return p, 0.5 * (ul + ur) + 0.5 * (f(p, dr, pr, cr) - f(p, dl, pl, cl))


def sample(g, l, r, st_, s):
    """-> (d, u, p), list of wave speeds where the state jumps"""
    (dl, ul, pl), (dr, ur, pr) = l, r
    cl, cr = np.sqrt(g * pl / dl), np.sqrt(g * pr / dr)
    jumps = []

    def fan(d, u, p, c, sg):      # sg=-1 left
        uu = 2 / (g + 1) * (-sg * c + (g - 1) / 2 * u + s)
        cc = 2 / (g + 1) * (c - sg * (g - 1) / 2 * (u - s))
        cc = max(cc, 0.0)
        return d * (cc / c) ** (2 / (g - 1)), uu, p * (cc / c) ** (2 * g / (g - 1))

    if st_ is None:
        a, b = ul + 2 * cl / (g - 1), ur - 2 * cr / (g - 1)
        if s <= ul - cl:
            return l, jumps
        if s < a:
            return fan(dl, ul, pl, cl, -1), jumps
        if s <= b:
            return (0.0, 0.0, 0.0), jumps
        if s < ur + cr:
            return fan(dr, ur, pr, cr, 1), jumps
        return r, jumps
    p, u = st_
    jumps.append(u)
    side = (l, cl, -1) if s <= u else (r, cr, 1)
    for (w, c, sg) in ((l, cl, -1), (r, cr, 1)):
        if p > w[2]:
            jumps.append(w[1] + sg * c * np.sqrt((g + 1) / (2 * g) * p / w[2] + (g - 1) / (2 * g)))
    (w, c, sg) = side
    d0, u0, p0 = w
    q = (g - 1) / (g + 1)
    if p > p0:
        S = u0 + sg * c * np.sqrt((g + 1) / (2 * g) * p / p0 + (g - 1) / (2 * g))
        if (s - S) * sg >= 0:
            return w, jumps
        return (d0 * (p / p0 + q) / (q * p / p0 + 1), u, p), jumps
    if (s - (u0 + sg * c)) * sg >= 0:
        return w, jumps
    cm = c * (p / p0) ** ((g - 1) / (2 * g))
    if (s - (u + sg * cm)) * sg <= 0:
        return (d0 * (p / p0) ** (1 / g), u, p), jumps
    return fan(d0, u0, p0, c, sg), jumps


def split(W, n):
    nd = len(n)
    return (W[nd], W[:nd] @ n, W[nd + 1])


def physflux(g, d, v, p, n, vf, iso=False):
    """lab-frame flux through a face moving at vf of the state (d, v relative to the face, p)"""
    u = v @ n
    L = v + vf
    e = (p / (g - 1) if not iso else p) + 0.5 * d * (L @ L)
    return np.array([*(d * u * L + p * n), d * u, u * e + p * (L @ n)])


def hllc(g, Wl, Wr, n, vf, zmf, iso):
    nd = len(n)
    S = []
    for W in (Wl, Wr):
        d, u, p = split(W, n)
        S.append(dict(d=d, u=u, p=p, v=W[:nd].copy(), c=np.sqrt((1 if iso else g) * p / d), e=(p if iso else p / (g - 1)) + 0.5 * d * (W[:nd] @ W[:nd])))
    l, r = S
    f = 1 / (1 + np.sqrt(r["d"] / l["d"]))
    G = max((l["d"] * l["c"] ** 2 + r["d"] * r["c"] ** 2) / (l["p"] + r["p"]), 1)
    va = f * l["u"] + (1 - f) * r["u"]
    ca = np.sqrt(f * l["c"] ** 2 + (1 - f) * r["c"] ** 2 + 0.5 * f * (1 - f) * (G - 1) * ((l["v"] - r["v"]) ** 2).sum())
    a, b = min(l["u"] - l["c"], va - ca), max(r["u"] + r["c"], va + ca)
    ml, mr = l["d"] * (l["u"] - a), r["d"] * (r["u"] - b)
    if iso:
        vm = (b * ml - a * mr) / (ml - mr)
    else:
        vm = (r["u"] * mr + r["p"] - l["u"] * ml - l["p"]) / (mr - ml)
    vf = vf.copy()
    if zmf:
        a, b = a - vm, b - vm
        for s in S:
            s["u"] -= vm
            s["v"] = s["v"] - vm * n
            s["e"] = (s["p"] if iso else s["p"] / (g - 1)) + 0.5 * s["d"] * (s["v"] @ s["v"])
        vf += vm * n
        vm = 0.0
    F = lambda s: np.array([*(s["d"] * s["u"] * s["v"] + s["p"] * n), s["d"] * s["u"], (s["e"] + s["p"]) * s["u"]])
    U = lambda s: np.array([*(s["d"] * s["v"]), s["d"], s["e"]])
    if b <= 0:
        x = F(r)
    elif a >= 0:
        x = F(l)
    elif iso:
        x = (b * F(l) - a * F(r) + a * b * (U(r) - U(l))) / (b - a)
    else:
        s, w = (l, a) if vm > 0 else (r, b)
        ds = s["d"] * (w - s["u"]) / (w - vm)
        Us = ds * np.array([*(s["v"] + (vm - s["u"]) * n), 1, s["e"] / s["d"] + (vm - s["u"]) * (vm + s["p"] / (s["d"] * (w - s["u"])))])
        x = F(s) + w * (Us - U(s))
    if zmf:
        x[nd] = 0
    y = x.copy()
    y[:nd] += x[nd] * vf
    y[nd + 1] += x[:nd] @ vf + 0.5 * x[nd] * (vf @ vf)
    return y, vf, (a, b, vm)


def riemann(c, ctx):
    nd, g, iso, zmf = c["nd"], c["gamma"], c["solver"] == 2, c["zmf"]
    probs = gen(c)
    ctx.label(["exact", "hllc", "hllc-isothermal"][c["solver"]], "ndim%d" % nd, c["kind"], "zmf" if zmf else "free")
    ctx.nontrivial(c["kind"] != "equal")
    F, vf, ps, us, sm = solve(c, probs)
    rs = np.random.default_rng(c["seed"] + 1)
    Q = np.linalg.qr(rs.standard_normal((nd, nd)))[0]
    rot = lambda W: np.concatenate([Q @ W[:nd], W[nd:]])
    Fm, vm_, *_ = solve(c, [[p[1], p[0], -p[2], p[3], -p[4]] for p in probs])
    Fr, vr_, *_ = solve(c, [[rot(p[0]), rot(p[1]), Q @ p[2], Q @ p[3], p[4]] for p in probs])
    F0, v0_, *_ = solve(c, [[p[0], p[1], p[2], 0 * p[3], p[4]] for p in probs])
    for i, (Wl, Wr, n, face, sp) in enumerate(probs):
        l, r = split(Wl, n), split(Wr, n)
        cl, cr = np.sqrt(g * l[2] / l[0]), np.sqrt(g * r[2] / r[0])
        vsc = max(np.abs(Wl[:nd]).max() + cl, np.abs(Wr[:nd]).max() + cr) + np.abs(face).max()
        dsc, psc = max(l[0], r[0]), max(l[2], r[2])
        psc = psc + dsc * vsc ** 2
        sc = np.array([psc] * nd + [dsc * vsc, psc * vsc * (1 / (g - 1) + 1)])
        desc = "problem %d: L=%s R=%s n=%s vface=%s gamma=%g" % (i, list(Wl), list(Wr), list(n), list(face), g)

        def eq(a, b, tol, key, what):
            if not (np.abs(a - b) <= tol * sc).all():
                raise Violation(key, "%s: %s, expected %s (%s)" % (what, a, b, desc))

        if not np.isfinite(F[i]).all():
            raise Violation("finite", "non-finite flux (%s)" % desc)
        sol = star(g, l, r) if not iso else None
        # is s=0 next to a jump (contact, shock, or edge of the near-vacuum where 1e-6 matters)?
        near = False
        if sol is not None and sol[0] < 1e-12:     # below the code's floor on the star pressure: only finiteness
            ctx.label("starfloor")
            continue
        if c["solver"] == 0:
            (d, u, p), jumps = sample(g, l, r, sol, 0.0)
            near = any(abs(j) < 1e-4 * (cl + cr + abs(l[1]) + abs(r[1])) for j in jumps)
            if sol is None:
                if not ps[i] <= 0:
                    raise Violation("vacuum", "vacuum not recognised: pstar=%g (%s)" % (ps[i], desc))
            else:
                pt = 1e-4 if c["kind"] in ("nearvac", "strong", "random", "supersonic") and sol[0] < 1e-3 * min(l[2], r[2]) else 4e-6
                if not abs(ps[i] - sol[0]) <= pt * sol[0]:
                    raise Violation("pstar", "pstar=%.12g, exact %.12g (%s)" % (ps[i], sol[0], desc))
                if not abs(us[i] - sol[1]) <= 1e-5 * (cl + cr + abs(l[1] - r[1])):
                    raise Violation("ustar", "ustar=%.12g, exact %.12g (%s)" % (us[i], sol[1], desc))
            for k, s in enumerate(sp):
                (d_, u_, p_), jj = sample(g, l, r, sol, s)
                if any(abs(j - s) < 1e-4 * (cl + cr + abs(l[1]) + abs(r[1])) for j in jj):
                    continue
                P, D, U = sm[i][k]
                if not (abs(P - p_) <= 1e-4 * p_ + 1e-9 * psc and abs(D - d_) <= 1e-4 * d_ + 1e-9 * dsc and (d_ < 1e-8 * dsc or abs(U - u_) <= 1e-4 * (cl + cr + abs(l[1]) + abs(r[1])))):
                    raise Violation("sample", "state at x/t=%g: (rho,u,p)=(%g,%g,%g), exact (%g,%g,%g) (%s)" % (s, D, U, P, d_, u_, p_, desc))
            if not near:
                if not zmf:
                    tv = Wl[:nd] - l[1] * n if u > 0 else Wr[:nd] - r[1] * n
                    eq(F[i], physflux(g, d, u * n + tv, p, n, face) if d > 0 else np.zeros(nd + 2), 2e-5, "flux", "flux of the exact solver")
                elif sol is not None and p == sol[0]:
                    vn = face + u * n
                    if np.abs(vf[i] - vn).max() > 2e-5 * vsc:
                        raise Violation("zmf-face", "face velocity %s, expected %s (%s)" % (vf[i], vn, desc))
                    eq(F[i], np.array([*(p * n), 0, p * (vn @ n)]), 2e-5, "zmf-flux", "zero-mass-flux flux of the exact solver")
        else:
            y, vn, (a, b, vm) = hllc(g, Wl, Wr, n, face, zmf, iso)
            near = min(abs(a), abs(b)) < 1e-9 * vsc or (not iso and not zmf and abs(vm) < 1e-9 * vsc)
            if not near:
                eq(F[i], y, 1e-9, "hllc", "HLLC flux")
                if np.abs(vf[i] - vn).max() > 1e-10 * vsc:
                    raise Violation("zmf-face", "face velocity %s, expected %s (%s)" % (vf[i], vn, desc))
        if zmf:
            if F[i][nd] != 0:
                raise Violation("zmf", "mass flux %g with zero mass flux (%s)" % (F[i][nd], desc))
        if not near and not (c["kind"] in ("vacuum", "nearvac")):
            tol = 1e-5 if c["solver"] == 0 else 1e-9
            eq(-Fm[i], F[i], tol, "mirror", "mirrored problem")
            eq(np.concatenate([Q.T @ Fr[i][:nd], Fr[i][nd:]]), F[i], tol, "rotation", "rotated problem")
            V = face
            G = F0[i].copy()
            G[:nd] += F0[i][nd] * V
            G[nd + 1] += F0[i][:nd] @ V + 0.5 * F0[i][nd] * (V @ V)
            eq(F[i], G, tol, "galilean", "boosted problem")
        # state-level relations
        if not zmf:
            if c["kind"] == "equal":
                eq(F[i], physflux(g, l[0], Wl[:nd], l[2], n, face, iso), 1e-6, "consistency", "flux of equal states")
            if c["kind"] in ("contact", "shear") and not iso and abs(l[1]) > 1e-6 * vsc:
                W = Wl if l[1] > 0 else Wr
                eq(F[i], physflux(g, W[nd], W[:nd], W[nd + 1], n, face), 1e-6, "contact", "flux of an isolated contact")
            if c["kind"] == "supersonic":
                c6 = max(cl, cr)
                if min(abs(l[1]), abs(r[1])) > 3.5 * c6 and (sol is not None or iso):
                    W = Wl if l[1] > 0 else Wr
                    eq(F[i], physflux(g, W[nd], W[:nd], W[nd + 1], n, face, iso), 1e-6, "upwind", "flux of a supersonic flow")
            if c["kind"] == "tiny" and not iso and not near and abs(sol[1]) > 1e-2 * vsc and abs(abs(l[1]) - cl) > 1e-2 * vsc:
                (d, u, p), _ = sample(g, l, r, sol, 0.0)
                tv = Wl[:nd] - l[1] * n if u > 0 else Wr[:nd] - r[1] * n
                j = max(np.abs(Wl - Wr).max() / min(1, dsc), np.abs(Wl[:nd] - Wr[:nd]).max() / cl, abs(l[2] - r[2]) / l[2], abs(l[0] - r[0]) / l[0])
                jj = max(np.abs(Wl[:nd] - Wr[:nd]).max() / cl, abs(l[2] - r[2]) / l[2], abs(l[0] - r[0]) / l[0])
                eq(F[i], physflux(g, d, u * n + tv, p, n, face), 20 * jj * jj + 4e-6 * jj + 1e-9, "accuracy", "flux of a small jump")


STRAT = st.fixed_dictionaries(dict(nd=st.integers(1, 3), solver=st.sampled_from([0, 0, 1, 1, 2]), zmf=st.sampled_from([0, 0, 1]), gamma=st.one_of(st.sampled_from([1.4, 5 / 3.0, 2.0]), lin(1.05, 3)), n=st.integers(1, 20), kind=st.sampled_from(KINDS), seed=st.integers(0, 2 ** 31)))
if __name__ == "__main__":
    main("C11", [Sub("riemann", STRAT, riemann, quick=1200, thorough=40000)], builds=[("riem", "std")],
         rule="a case is a batch of up to 20 Riemann problems of one kind, each solved as given, mirrored, rotated and unboosted; non-trivial if left and right differ",
         assumptions=["the star pressure is iterated to 1e-6 by the code", "states within 1e-4 of a jump of the solution are not compared"])
