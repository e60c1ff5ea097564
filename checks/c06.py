#!/usr/bin/env python3
"""C06: N-body forces, potentials and their time derivatives against the direct pairwise sum."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, refkern
from hypothesis import strategies as st

TECH = "property-based testing: generated star systems against direct extended-precision pair sums of force, jerk, snap and potential, momentum balance, and states met during integration"
NOTE = "stars only (star-gas forces: C04); Hermite derivatives beyond the jerk in unsoftened and softened isolation; no Gaussian-kernel softening"
NB = ["lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"]


def system(c):
    nd, n = c["nd"], c["n"]
    rs = np.random.default_rng(c["seed"])
    r = rs.uniform(0.0, 1.0, (n, nd))
    if c["kind"] == "cluster":
        r = 0.5 + 0.05 * rs.standard_normal((n, nd))
    elif c["kind"] == "pairs":          # close pairs, down to 1e-6 of the box
        for i in range(1, n, 2):
            d = rs.standard_normal(nd)
            r[i] = r[i - 1] + d / np.sqrt(d @ d) * 10 ** rs.uniform(-6, -1)
    elif c["kind"] == "line":
        r[:, 1:] = 0.5
    v = rs.standard_normal((n, nd)) * c["vs"]
    m = 10 ** rs.uniform(-c["mr"], 0, n)
    if c["zero"] and n > 2:
        m[0] = 1e-12
    h = c["h"] * (10 ** rs.uniform(-1, 0, n) if c["hvar"] else np.ones(n))
    return r, v, m, h


def pair_sums(r, v, m, h, soft, kern, L):
    """direct sums in extended precision: (a, jerk, pot, scale of each)"""
    n, nd = r.shape
    ld = np.longdouble
    r, v = r.astype(ld), v.astype(ld)
    dr, dv = r[None] - r[:, None], v[None] - v[:, None]
    if L is not None:
        for k in range(nd):
            if L[k]:
                dr[..., k] -= L[k] * np.rint(dr[..., k] / L[k])
    x = np.sqrt((dr * dr).sum(-1))
    np.fill_diagonal(x, 1)
    rv = (dr * dv).sum(-1)
    if soft:
        k3 = refkern.kern(kern, 3)
        ih = 2 / (h[:, None] + h[None])
        s = np.asarray(x * ih, float)
        g = k3.wgrav(s) * ih ** 2 / x        # force per unit mass = g * dr
        p = k3.wpot(s) * ih
        w = 4 * np.pi * k3.w0(s) * ih ** 3
    else:
        g, p, w = 1 / x ** 3, 1 / x, 0 * x
    M = np.repeat(m[None], n, 0).astype(ld)
    np.fill_diagonal(M, 0)
    A = (M * g)[..., None] * dr
    J = (M * g)[..., None] * dv + (M * (w - 3 * g) * rv / x ** 2)[..., None] * dr
    Pp = M * p
    jsc = ((M * (3 * np.abs(g) + w))[..., None] * np.sqrt((dv * dv).sum(-1))[..., None]).sum(1)
    return A.sum(1), J.sum(1), Pp.sum(1), np.sqrt((A * A).sum(-1)).sum(1), jsc[:, 0], Pp.sum(1)


def compare(c, d, h, what, jerk):
    nd = c["nd"]
    L = [1.0 if b == "p" else 0.0 for b in c["bc"][:nd]] if "p" in c["bc"][:nd] else None
    r, v, m = d["s_r"], d["s_v"], d["s_m"]
    if L is not None:       # pairs half a box apart: either image is right
        x = np.abs(np.abs(r[:, None] - r[None]) - 0.5)[..., [k for k in range(nd) if L[k]]]
        if (x < 1e-9).any():
            raise Inconclusive("half box")
    A, J, P, sa, sj, sp = pair_sums(r, v, m, h, c["soft"], c["kern"], L)
    # separations of close pairs lose digits when positions are subtracted
    # nearest-entry kernel table: absolute errors of about one table step in units of m/h^2
    ih = 2 / (h[:, None] + h[None])
    tab = c["tab"] and c["soft"]
    tol, ta, tp = (3e-3, ((m[None] * ih ** 2).sum(1)) * 0.01, (m[None] * ih).sum(1) * 0.01) if tab else (2e-12, 0, 0)
    bad = ~(np.abs(d["s_a"] - A).max(1) <= tol * sa + ta)
    if bad.any():
        i = np.argwhere(bad)[0][0]
        raise Violation("acc", "%s: acceleration of star %d is %s, pair sum %s (scale %g)" % (what, i, d["s_a"][i], A[i].astype(float), sa[i]))
    bad = ~(np.abs(d["s_gpot"] - P) <= tol * sp + tp)
    if bad.any():
        i = np.argwhere(bad)[0][0]
        raise Violation("pot", "%s: potential of star %d is %.15g, pair sum %.15g" % (what, i, d["s_gpot"][i], P[i]))
    if jerk and not tab:
        bad = ~(np.abs(d["s_adot"] - J).max(1) <= tol * 10 * sj)
        if bad.any():
            i = np.argwhere(bad)[0][0]
            raise Violation("jerk", "%s: jerk of star %d is %s, pair sum %s (scale %g)" % (what, i, d["s_adot"][i], J[i].astype(float), sj[i]))
    F = (m[:, None] * d["s_a"]).sum(0)
    if not (np.abs(F) <= 1e-12 * (m * sa).sum() + (0 if not c["tab"] else 1e-9 * (m * sa).sum())).all():
        raise Violation("momentum", "%s: pair forces are not equal and opposite, sum %s of scale %g" % (what, F, (m * sa).sum()))


def params(c):
    nd = c["nd"]
    p = dict(ndim=nd, sim="nbody", nbody=c["nb"], nbody_softening=c["soft"], kernel=c["kern"], tabulated_kernel=c["tab"], nbody_mult=0.03, Nlevels=c["lev"], Npec=c["npec"])
    for k in range(nd):
        b = "periodic" if c["bc"][k] == "p" else "open"
        p["boundary_lhs[%d]" % k] = p["boundary_rhs[%d]" % k] = b
        p["boxmin[%d]" % k], p["boxmax[%d]" % k] = 0.0, 1.0
    return p


def gas(c, p):
    """hybrid runs: a patch of gas, without self-gravity, that must not influence the stars"""
    if c["sim"] == "nbody":
        return None
    nd = c["nd"]
    rs = np.random.default_rng(c["seed"] + 1)
    n = 30
    p.update(sim=c["sim"], hydro_forces=1, self_gravity=0, gas_eos="energy_eqn", kernel=c["kern"])
    return dict(coords(gen.positions(rs, "jitter", n, nd) * 0.6 + 0.2, 0.01 * rs.standard_normal((n, nd))), m=np.full(n, 1 / n), u=np.ones(n))


def label(c, ctx):
    ctx.label(c["sim"])
    ctx.label(c["nb"], "ndim%d" % c["nd"], "softened" if c["soft"] else "newtonian", c["kern"], c["kind"], "periodic" if "p" in c["bc"][:c["nd"]] else "open", *(["tabulated"] if c["tab"] else []))


def static(c, ctx):
    r, v, m, h = system(c)
    with Workdir() as w:
        p = params(c)
        g = gas(c, p)
        L, f = sim_lines(p, g, star=dict(coords(r, v), m=m, h=h))
        res = run_script(exe("gdrv"), L + ["setup", "dump d"], w, f, cpu=10)
        expect_ok(res)
        d = res.dump("d")
    label(c, ctx)
    ctx.nontrivial(True)
    compare(c, d, h, "after set-up", c["nb"].startswith("hermite"))
    if c["nb"] == "hermite6ts" and not c["tab"] and "p" not in c["bc"][:c["nd"]] and c["kind"] != "pairs":
        # second derivative of the acceleration along the trajectory, by differencing the exact jerk
        r, v, m = d["s_r"], d["s_v"], d["s_m"]
        S = lambda q, u: pair_sums(q, u, m, h, c["soft"], c["kern"], None)
        a = S(r, v)[0]
        x = np.sqrt(((r[:, None] - r[None]) ** 2).sum(-1)) + 9 * np.eye(len(m))
        if c["soft"]:
            x = np.minimum(x, (h[:, None] + h[None]) / 2)
        tau = 1e-4 * min(x.min() / (np.abs(v).max() + 1e-3), np.sqrt(x.min() / (np.abs(a).max() + 1e-3)))
        J = [S(r + q * v * tau + a * tau ** 2 / 2, v + q * a * tau)[1] for q in (1, -1)]
        ref = ((J[0] - J[1]) / (2 * tau)).astype(float)
        sc = np.abs(J[0]).max() * 1e-4 / tau * 3e-3 + np.abs(ref).max() * 1e-3
        bad = ~(np.abs(d["s_a2dot"] - ref).max(1) <= sc)
        if bad.any():
            i = np.argwhere(bad)[0][0]
            raise Violation("snap", "second derivative of the acceleration of star %d is %s, differencing the jerk gives %s" % (i, d["s_a2dot"][i], ref[i]))
        ctx.label("snap")


def moving(c, ctx):
    """forces met during the integration are those at the stars' positions (schemes that do not move them afterwards)"""
    c = dict(c, nb="lfkdk", kind="uniform" if c["kind"] == "pairs" else c["kind"], zero=False)
    r, v, m, h = system(c)
    with Workdir() as w:
        p = params(c)
        g = gas(c, p)
        L, f = sim_lines(p, g, star=dict(coords(r, v), m=m, h=h))
        res = run_script(exe("gdrv"), L + ["setup", "steptrace 12 s"], w, f, cpu=10)
        if c["sim"].startswith("mfv") and ("part.u > (FLOAT) 0.0" in res.err or "[ipress] > 0.0" in res.err or "[irho] > 0.0" in res.err):
            raise Inconclusive("gas expanding into vacuum")
        expect_ok(res)
        D = [res.dump("s.%d" % i) for i in range(12)]
    label(c, ctx)
    n = 0
    for i, d in enumerate(D):
        if d is None:
            break
        q = d["s_nlast"] == d["n"] % d["nresync"]
        q |= d["s_nlast"] == d["n"]
        if not q.all():
            continue
        n += 1
        # velocities are corrected after the forces: only the jerk would notice, and this scheme does not use it
        compare(c, d, h, "after step %d" % (i + 1), False)
        if "p" in c["bc"][:c["nd"]]:
            for k in range(c["nd"]):
                if c["bc"][k] == "p" and not ((d["s_r"][:, k] >= 0) & (d["s_r"][:, k] <= 1)).all():
                    raise Violation("outside", "star left the periodic box: %s" % d["s_r"])
    ctx.nontrivial(n > 0)


COM = dict(nd=st.integers(1, 3), n=st.sampled_from([2, 2, 3, 5, 12, 40]), seed=st.integers(0, 10 ** 6), kind=st.sampled_from(["uniform", "cluster", "pairs", "line"]), vs=logf(1e-2, 3.0), mr=st.sampled_from([0, 1, 4]), zero=st.booleans(),
           h=logf(1e-3, 1.0), hvar=st.booleans(), soft=st.integers(0, 1), kern=st.sampled_from(["m4", "quintic"]), tab=st.sampled_from([0, 0, 0, 1]), nb=st.sampled_from(NB), lev=st.sampled_from([1, 1, 4]), npec=st.sampled_from([1, 1, 3]), bc=st.just("ooo"), sim=st.sampled_from(["nbody", "nbody", "nbody", "gradhsph", "mfvmuscl", "mfvrk"]))
S = st.fixed_dictionaries(COM)

if __name__ == "__main__":
    main("C06", [Sub("static", S, static, 1600, 30000), Sub("moving", S, moving, 800, 10000)], builds=[("gdrv", "std")], rule="at least two stars (moving: at least one instant at which all stars completed a step)",
         assumptions=["the Gaussian kernel has no gravity functions in this code and is not used for softening", "periodic boxes use the Ewald correction (C05)"])
