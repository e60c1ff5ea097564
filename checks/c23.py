import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen
from scipy.integrate import solve_ivp

TECH = "property-based testing (Hypothesis): closed forms and gradient/jerk relations of the potentials, additivity of the field in whole runs (with against without), and trajectories and energy against an independent ODE integration"
NOTE = "generated positions, velocities and potential parameters in 1-3 dimensions; SPH gas, stars of every N-body integrator and gas-star mixtures"


def zero(c):
    """height of the lower (mirror) edge of the box, the zero of the vertical potential; 0 stands for an open box"""
    return 0.0 if c.get("part") is None or c.get("sim") == "nbody" or c.get("grav") else min(-3.0, -abs(c["rzero"]) - 3) if c["rzero"] < 0 else 0.0


def pot_params(c):
    if c["pot"] == "none":
        return dict(external_potential="none")
    if c["pot"] == "vertical":
        return dict({"external_potential": "vertical", "kgrav": c["kg"] % c["nd"], "avert": c["avert"]},
                    **({"boundary_lhs[%d]" % (c["kg"] % c["nd"]): "mirror", "boundary_rhs[%d]" % (c["kg"] % c["nd"]): "open", "boxmin[%d]" % (c["kg"] % c["nd"]): zero(c), "boxmax[%d]" % (c["kg"] % c["nd"]): 100.0} if zero(c) else {}))
    return dict(external_potential="plummer", mplummer_extpot=c["mp"], rplummer_extpot=c["rp"])


def field(c, r, v):
    """acceleration, jerk and gpot contribution (twice minus the potential)"""
    nd = r.shape[1]
    a, j, g = np.zeros_like(r), np.zeros_like(r), np.zeros(len(r))
    if c["pot"] == "vertical":
        k = c["kg"] % nd
        a[:, k] = c["avert"]
        g = 2 * (r[:, k] - zero(c)) * c["avert"]
    elif c["pot"] == "plummer":
        s2 = (r * r).sum(1) + c["rp"] ** 2
        a = -c["mp"] * r * s2[:, None] ** -1.5
        j = -c["mp"] * (v * s2[:, None] ** -1.5 - 3 * (r * v).sum(1)[:, None] * r * s2[:, None] ** -2.5)
        g = 2 * c["mp"] / np.sqrt(s2)
    return a, j, g


def form(c, ctx):
    nd = c["nd"]
    rs = np.random.default_rng(c["seed"])
    n = 40
    r = rs.standard_normal((n, nd)) * 10 ** rs.uniform(-3, 3, (n, 1))
    v = rs.standard_normal((n, nd)) * 10 ** rs.uniform(-3, 3, (n, 1))
    eps = 1e-5 * (np.sqrt((r * r).sum(1)) + c["rp"])
    rows = [(r, v)]
    for k in range(nd):
        e = np.zeros((n, nd))
        e[:, k] = eps
        rows += [(r + e, v), (r - e, v)]
    tau = eps / np.sqrt((v * v).sum(1) + 1e-300)
    rows += [(r + v * tau[:, None], v), (r - v * tau[:, None], v)]
    X = np.concatenate([np.concatenate(x, 1) for x in rows])
    a0 = c["a0"]
    with Workdir() as w:
        L, f = sim_lines(dict(ndim=nd, sim="sph", **pot_params(c)), arrays=dict(coords(np.zeros((1, nd)), np.zeros((1, nd))), m=np.ones(1), u=np.ones(1)))
        f["in"] = X.ravel()
        expect_ok(run_script(exe("gdrv"), L + ["extpot in out %r" % a0], w, f, cpu=10))
        o = np.fromfile(os.path.join(w, "out")).reshape(len(rows), n, 2 * nd + 1)
    ctx.label(c["pot"], "ndim%d" % nd)
    ctx.nontrivial(c["pot"] != "none")
    A, J, P = o[:, :, :nd] - a0, o[:, :, nd:2 * nd] - a0, o[:, :, 2 * nd] - a0
    ea, ej, ep = field(c, r, v)
    tol = 1e-12

    def cmp(x, y, key, what):
        sc = np.abs(y).max(-1, keepdims=True) if y.ndim > 1 else np.abs(y)
        bad = ~(np.abs(x - y) <= tol * sc + 4e-16 * abs(a0))
        if bad.any():
            i = np.argwhere(bad)[0][0]
            raise Violation(key, "%s of %s at r=%s v=%s is %s, expected %s (start value %g)" % (what, c["pot"], r[i], v[i], x[i], y[i], a0))
    cmp(A[0], ea, "acc", "acceleration")
    cmp(J[0], ej, "jerk", "jerk")
    cmp(P[0], ep, "pot", "potential")
    if a0 == 0:
        for k in range(nd):     # force is minus the gradient of the potential energy (gpot = -2 phi)
            g = (P[1 + 2 * k] - P[2 + 2 * k]) / (2 * eps) / 2
            sc = np.abs(P[0]) / (np.sqrt((r * r).sum(1)) + c["rp"]) + np.abs(A[0]).max(1)
            if not (np.abs(g - A[0][:, k]) <= 1e-4 * sc).all():
                raise Violation("gradient", "acceleration is not the gradient of the potential (%s)" % c["pot"])
        dj = (A[-2] - A[-1]) / (2 * tau[:, None])
        sc = np.abs(A[0]).max(1, keepdims=True) * np.sqrt((v * v).sum(1))[:, None] / (np.sqrt((r * r).sum(1)) + c["rp"])[:, None] + np.abs(J[0]).max(1, keepdims=True)
        if not (np.abs(dj - J[0]) <= 1e-4 * sc).all():
            raise Violation("jerkrel", "jerk is not the rate of change of the acceleration along the path (%s)" % c["pot"])


def additive(c, ctx):
    """the same system with and without the potential differs by exactly the potential's contribution"""
    nd = c["nd"]
    s = gen.system(dict(c["part"], ndim=nd))
    r, v = (s["r"] - 0.5) * 2, s["v"]
    m = s["m"] / s["m"].sum()
    ns = c["ns"]
    rs = np.random.default_rng(c["seed"])
    sr, sv = rs.uniform(-1, 1, (ns, nd)), rs.standard_normal((ns, nd))
    nbo = c["nbody"]
    grav = c["grav"] if nd == 3 else 0
    p = dict(ndim=nd, sim=c["sim"], nbody=nbo, hydro_forces=c["hyd"] if grav else 1, self_gravity=grav, gas_eos="energy_eqn", neib_search=c["tree"], h_converge=0.005, zero_mass_flux=1, riemann_solver="hllc", Nlevels=1, courant_mult=0.2, accel_mult=0.2, thetamaxsqd=0.0)
    if c["sim"] == "nbody":
        arr = None
        ns = max(ns, 2)
        sr, sv = rs.uniform(-1, 1, (ns, nd)), rs.standard_normal((ns, nd))
    else:
        arr = dict(coords(r, v), m=m, u=s["u"])
    star = dict(coords(sr, sv), m=rs.uniform(0.1, 1, ns), h=np.full(ns, 0.05)) if ns else None
    p.pop("thetamaxsqd")
    D = []
    for q in (dict(external_potential="none"), pot_params(c)):
        with Workdir() as w:
            L, f = sim_lines(dict(p, **q), arrays=arr, star=star)
            res = run_script(exe("gdrv"), L + ["setup", "diag", "dump d0"], w, f, cpu=20)
            if "DONE" not in res.err:
                D.append(None)
                continue
            expect_ok(res)
            D.append(res.dump("d0"))
    if D[0] is None or D[1] is None:
        if (D[0] is None) != (D[1] is None):
            raise Violation("outcome", "set-up succeeds only with or without the potential")
        raise Inconclusive("setup")
    ctx.label(c["sim"], c["pot"], "gravity" if grav else "no gravity", "stars" if ns else "no stars", nbo)
    ctx.nontrivial(c["pot"] != "none")
    A, B = D
    if arr and c["sim"] == "sph":
        o = np.argsort(A["iorig"])
        ea, ej, eg = field(c, A["r"], A["v"])
        da, dg = B["a"] - A["a"], B["gpot"] - A["gpot"]
        sc = np.abs(A["a"]).max() + np.abs(ea).max()
        if not np.array_equal(A["iorig"], B["iorig"]):
            raise Inconclusive("order")
        if not (np.abs(da - ea) <= 1e-9 * sc).all():
            i = np.argmax(np.abs(da - ea).max(1))
            raise Violation("gas", "potential adds %s to the acceleration of a gas particle at %s, expected %s" % (da[i], A["r"][i], ea[i]))
        scg = np.abs(A["gpot"]).max() + np.abs(eg).max()
        if not (np.abs(dg - eg) <= 1e-9 * scg).all():
            i = np.argmax(np.abs(dg - eg))
            raise Violation("gaspot", "potential adds %g to gpot of a gas particle, expected %g" % (dg[i], eg[i]))
    if ns:
        ea, ej, eg = field(c, A["s_r"], A["s_v"])
        for q, e in (("s_a", ea), ("s_adot", ej if nbo.startswith("hermite") else None), ("s_gpot", eg)):
            if e is None:
                continue
            d = B[q] - A[q]
            sc = np.abs(A[q]).max() + np.abs(e).max() + 1e-300
            # the tree gives the gas the same forces in both runs, but MFV gas moves its own way
            if not (np.abs(d - e) <= 1e-9 * sc).all():
                i = np.argmax(np.abs(d - e).reshape(len(d), -1).max(1))
                raise Violation("star " + q, "potential adds %s to %s of a star at %s, expected %s (%s)" % (d[i], q, A["s_r"][i], e[i], nbo))
    # energy bookkeeping: the potential energy in the diagnostics is that of the field
    if c["sim"] == "sph" and not ns or c["sim"] == "nbody":
        mm, rr = (A["m"], A["r"]) if c["sim"] == "sph" else (A["s_m"], A["s_r"])
        g = field(c, rr, rr)[2]
        dE = B["diag"].ravel()[4] - A["diag"].ravel()[4]
        ex = -0.5 * (mm * g).sum()
        sc = np.abs(mm * g).sum() + abs(A["diag"].ravel()[4]) + abs(B["diag"].ravel()[4])
        if not abs(dE - ex) <= 1e-9 * sc:
            raise Violation("energy", "potential changes the reported total energy by %g, its energy is %g" % (dE, ex))


def orbit(c, ctx):
    """stars (a pair with its mutual attraction) or free gas moving in the field follow the true trajectory; a doubtful
    error must shrink with the timestep at second order"""
    e, tol, t = orbit_error(c, 1.0)
    ctx.label(c["sim"], c["pot"], c["nbody"] if c["sim"] == "nbody" else "gas", "levels%d" % c["lev"])
    ctx.nontrivial(c["pot"] != "none" and t > 0.05)
    if e <= tol + 1e-9:
        return
    f = [e] + [orbit_error(c, q, t)[0] for q in (0.5, 0.25)]
    ctx.label("convergence")
    if not f[2] <= 0.15 * f[0] + 1e-9:
        raise Violation("trajectory", "at t=%g the state differs from the true trajectory by %s at timestep multipliers 1, 1/2, 1/4 (%s %s)" % (t, f, c["sim"], c["pot"]))


def orbit_error(c, q, tend=None):
    nd = c["nd"]
    rs = np.random.default_rng(c["seed"])
    n = 1 if c["sim"] == "nbody" else 30
    r = rs.uniform(-1, 1, (n, nd))
    v = rs.standard_normal((n, nd)) * 0.5
    c = dict(c, mp=1.0, rp=0.4 + c["rp"] % 1, avert=np.clip(c["avert"], -2, 2))
    p = dict(ndim=nd, sim=c["sim"], nbody=c["nbody"], hydro_forces=1, avisc="none", acond="none", self_gravity=0, Nlevels=c["lev"], level_diff_max=100, gas_eos="isothermal", temp0=1e-14, courant_mult=0.05, accel_mult=0.02 * q, nbody_mult=0.02 * q, h_converge=0.005, **pot_params(c))
    if c["sim"] == "nbody":
        d = np.eye(nd)[0] * 1.3
        r, v = np.vstack([r, r + d]), np.vstack([v, v + 0.3 * np.eye(nd)[-1]])
        arr, star = None, dict(coords(r, v), m=np.array([0.2, 0.1]), h=np.full(2, 1e-3))
    else:
        arr, star = dict(coords(r, v), m=np.full(n, 1.0 / n), u=np.full(n, 1.0)), None
    N = int(60 / q) if tend is None else int(400 / q)
    with Workdir() as w:
        L, f = sim_lines(dict(p, **({"tend": tend} if tend else {})), arrays=arr, star=star)
        res = run_script(exe("gdrv"), L + ["setup", "steptrace %d s" % N], w, f, cpu=30)
        expect_ok(res)
        k = max([i for i in range(N) if os.path.exists(os.path.join(w, "s.%d" % i))], default=-1)
        if k < 0:
            raise Inconclusive("no steps")
        d = res.dump("s.%d" % k)
        while k > 0 and not (d["nlast" if c["sim"] == "sph" else "s_nlast"] == d["n"]).all():   # the last synchronised state
            k -= 1
            d = res.dump("s.%d" % k)
    if not (d["nlast" if c["sim"] == "sph" else "s_nlast"] == d["n"]).all():
        raise Inconclusive("never synchronised")
    t = d["t"]
    if c["sim"] == "sph":
        o = d["iorig"].astype(int)
        x, u, x0, u0 = d["r"], d["v"], r[o], v[o]
    else:
        x, u, x0, u0 = d["s_r"], d["s_v"], r, v

    def rhs(_, y):
        q = y.reshape(2, -1, nd)
        a = field(c, q[0], q[1])[0]
        if c["sim"] == "nbody":
            x = q[0][1] - q[0][0]
            x = x / (x @ x) ** 1.5
            a = a + np.array([0.1 * x, -0.2 * x])
        return np.concatenate([q[1].ravel(), a.ravel()])
    sol = solve_ivp(rhs, (0, t), np.concatenate([x0.ravel(), u0.ravel()]), rtol=1e-11, atol=1e-12, method="DOP853")
    y = sol.y[:, -1].reshape(2, -1, nd)
    step = t / (k + 1) * 2 ** c["lev"]
    acc = np.abs(field(c, x0, u0)[0]).max() + 1
    tol = 3 * step ** 2 * acc * (1 + t) ** 2 * max(t, step)
    return max(np.abs(y[0] - x).max(), np.abs(y[1] - u).max()), tol, t


COM = {"pot": st.sampled_from(["vertical", "plummer", "plummer"]), "nd": st.integers(1, 3), "kg": st.integers(0, 2), "avert": lin(-3, 3), "rzero": lin(-2, 2), "mp": logf(1e-3, 1e3), "rp": logf(1e-3, 1e2), "seed": st.integers(0, 10 ** 6)}
F = st.fixed_dictionaries(dict(COM, pot=st.sampled_from(["vertical", "plummer", "plummer", "none"]), a0=st.sampled_from([0.0, 0.0, 1.0, -3.5])))
NB = ["lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"]
A = st.fixed_dictionaries(dict(COM, sim=st.sampled_from(["sph", "sph", "nbody", "mfvmuscl"]), part=gen.particles(20, 60, masses=("equal",)), ns=st.integers(0, 3), hyd=st.integers(0, 1), grav=st.integers(0, 1), tree=st.sampled_from(["kdtree", "octtree", "bruteforce"]), nbody=st.sampled_from(NB)))
O = st.fixed_dictionaries(dict(COM, sim=st.sampled_from(["sph", "nbody"]), nbody=st.sampled_from(NB), lev=st.sampled_from([1, 1, 3])))

if __name__ == "__main__":
    main("C23", [Sub("form", F, form, 150, 5000), Sub("additive", A, additive, 200, 4000), Sub("orbit", O, orbit, 150, 3000)], builds=[("gdrv", "std")], rule="a potential other than none (orbit: over a time in which it acts)",
         assumptions=["gas of meshless runs is not subject to external potentials in this code and the SILCC potential is an empty stub: neither is claimed", "gpot stores twice minus the external potential, matching the half in the diagnostic sum"])
