import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen

TECH = "property-based testing (Hypothesis): metamorphic relations between whole runs of the same problem relabelled, shifted, boosted, reflected with permuted axes, rotated, and rescaled by powers of two"
NOTE = "grad-h SPH, MFV/MFM (MUSCL, RK), pure N-body, self-gravity with tree or direct summation, stars, artificial viscosity and conduction models, timestep levels, 1-3 dimensions, open, periodic and reflecting boxes; up to 12 steps, every step compared"
ABORT = ("isnormal(W", "part.u > ", "part.pressure > ", "part.m > ", "isnormal(part", "Negative pstar", "Wleft[", "Wright[", "Smoothing length too large", "Error : Particles more than")


def run(P, arr, star, steps, w, tag):
    L, F = sim_lines(P, arr, star)
    d = os.path.join(w, tag)
    os.makedirs(d)
    res = run_script(exe("gdrv"), L + ["setup", "dump S0", "steptrace %d S" % steps], d, F, cpu=25)
    if res.hang:
        raise Inconclusive("slow")
    if res.rc:
        t = res.tail()
        for s in ABORT:
            if s in t:
                return None, s
        return None, t[-300:]
    return [res.dump("S0")] + [res.dump("S.%d" % i) for i in range(steps) if os.path.exists(os.path.join(d, "S.%d" % i))], ""


def get(s, nd, perm=None):
    D = dict(t=float(np.ravel(s.t)[0]))
    if int(np.ravel(s.Nhydro)[0]):
        o = np.argsort(s.iorig)
        if perm is not None:
            o = o[np.argsort(perm)]
        for q in ("r", "v"):
            D[q] = getattr(s, q).reshape(-1, nd)[o]
        for q in ("m", "h", "rho", "u"):
            D[q] = getattr(s, q)[o]
        D["lev"] = np.stack([s.level[o], s.nstep[o]])
    if int(np.ravel(s.Nstar)[0]):
        for q in ("r", "v", "a"):
            D["s_" + q] = s["s_" + q].reshape(-1, nd)
        D["s_gpot"], D["s_lev"] = s["s_gpot"], np.stack([s["s_level"], s["s_nstep"]])
    return D


def metam(c, ctx):
    d = dict(c["p"])
    nd = d["ndim"]
    rel, sim, grav = c["rel"], c["sim"], c["grav"]
    nbody = sim == "nbody"
    bc = "ooo"
    if not grav and not nbody:
        bc = c["bc"]
    if sim.startswith("mfv") and grav and not sim.endswith("mfm"):
        sim = "mfvmuscl-mfm"
    if rel == "boost" and not set(bc[:nd]) <= set("po"):
        bc = "ooo"
    if rel == "boost" and c["limiter"] == "gizmo":
        c = dict(c, limiter="springel2009")     # the published gizmo limiter preserves the sign of velocities, which depends on the frame
    if rel == "rotate":
        c = dict(c, limiter="zeroslope")        # limiters act on each velocity component
        bc = "ooo"
        if nd == 1:
            rel = "axes"
    if nd > 1 and "p" in bc[:nd]:
        d["n"] += (0, 0, 120, 1100)[nd]
        if d["kind"] in ("cluster", "gradient", "pairs", "aniso"):
            d["kind"] = "jitter"
    if nbody:
        d["n"] = 20
    S = gen.system(d)
    n, rs = d["n"], rng(c["seed"])
    u = 1.5 * S["u"] ** c["uc"]
    v = S["v"] * c["mach"]
    lo, size = np.full(nd, -.5), np.ones(nd)
    r = S["r"] - .5
    tree = c["tree"]
    if (rel in ("rotate", "axes") or (rel == "permute" and tree == "octtree")) and grav:
        tree = "bruteforce"
    P = dict(ndim=nd, sim=sim.split("-")[0], run_id="A", Nlevels=1 if sim == "mfvrk" else c["levels"], gas_eos="energy_eqn", gamma_eos=c["gamma"], hydro_forces=1, self_gravity=int(grav), courant_mult=.15, accel_mult=.2, nbody_mult=.05, neib_search=tree, kernel=c["kernel"],
             Nleafmax=c["leaf"], ntreebuildstep=c["build"], tend=1e30, noutputstep=10 ** 6, dt_snap=1e30, tsnapfirst=1e30, h_fac=1.2, h_converge=1e-11, riemann_solver=c["riemann"], slope_limiter=c["limiter"], zero_mass_flux=int(sim.endswith("mfm")), level_diff_max=100,
             nbody=c["nb"], nbody_softening=1, gravity_mac=c["mac"], multipole=c["mpole"], thetamaxsqd=.2, time_step_limiter=c["tlim"])
    if "sph" in sim:
        P.update(avisc="none" if c["av"] == "none" else "mon97", acond=c["acond"], time_dependent_avisc={"mm97": "mm97", "cd2010": "cd2010"}.get(c["av"], "none"), energy_mult=.2)
        if grav and c["acond"] == "price2008":
            P["acond"] = "wadsley2008"
    P.update(gen.bc_params(bc[:nd], nd, lo, size))
    ns = c["ns"] if (grav or nbody) else 0
    if nbody:
        ns = max(2, ns)
    if "sph" not in sim and not nbody and ns:
        P["zero_mass_flux"] = 1
    star = None
    if ns:
        sr, sv, sm, sh = rs.uniform(-.8, .8, (ns, nd)), rs.normal(size=(ns, nd)) * .3, rs.uniform(.1, 1, ns), rs.uniform(.1, .3, ns)
    R2, V2, M2, U2, H2 = r, v, S["m"], u, None
    O, T, B = np.eye(nd), np.zeros(nd), np.zeros(nd)
    lam = mu = tau = 1.0
    perm = None
    P2 = dict(P)
    if rel == "permute":
        perm = rs.permutation(n)
    elif rel == "shift":
        T = rs.uniform(-2, 2, nd)
    elif rel == "boost":
        B = rs.uniform(-1, 1, nd) * c["mach"] * 3
        if sim.startswith("mfv") and not set(bc[:nd]) <= set("po"):
            B[:] = 0
    elif rel == "axes":
        O = np.eye(nd)[rs.permutation(nd)] * rs.choice([-1.0, 1.0], nd)[:, None]
    elif rel == "rotate":
        O = np.linalg.qr(rs.normal(size=(nd, nd)))[0]
    else:
        # upwards only: absolute guards (1e-20) must not become comparable with the physical quantities
        a = int(rs.integers(0, 7))
        b = a + int(rs.integers(0, 7))
        lam, mu, tau = 4.0 ** a, 4.0 ** b, 8.0 ** a / 2.0 ** b
    vu = lam / tau

    def fw(x):
        return x @ O.T
    if rel == "axes":
        ax = np.abs(O).argmax(1)      # new axis k is old axis ax[k]
        sg = O.sum(1)
        nb = []
        for k in range(nd):
            x = bc[ax[k]]
            nb.append({"l": "r", "r": "l"}.get(x, x) if sg[k] < 0 else x)
        P2.update(gen.bc_params("".join(nb), nd, lo, size))
    elif rel != "rotate":
        P2.update(gen.bc_params(bc[:nd], nd, lo * lam + T, size * lam))
    arr = None if nbody else dict(coords(r, v), m=S["m"], u=u)
    tr = lambda x: fw(x) * lam + T
    tv = lambda x: (fw(x) + B) * vu
    arr2 = None
    if not nbody:
        o = perm if perm is not None else np.arange(n)
        arr2 = dict(coords(tr(r)[o], tv(v)[o]), m=S["m"][o] * mu, u=u[o] * vu ** 2)
    if ns:
        star = dict(coords(sr, sv), m=sm, h=sh)
        star2 = dict(coords(tr(sr), tv(sv)), m=sm * mu, h=sh * lam)
    else:
        star2 = None
    ctx.label(rel, sim, "%dd" % nd, "grav%d" % grav, "stars%d" % min(ns, 2), "bc_" + "".join(sorted(set(bc[:nd]))))
    with Workdir() as w:
        D, err = run(P, arr, star, c["steps"], w, "a")
        if D is None:
            if err in ABORT:
                ctx.label("abort:" + err)
                return
            raise Violation("crash", "run fails: " + err)
        E, err = run(P2, arr2, star2, c["steps"], w, "b")
        if E is None:
            if err in ABORT:
                ctx.label("abort2:" + err)
                return
            raise Violation("crash_" + rel, "the transformed run fails: " + err)
    if len(D) != len(E):
        raise Violation(rel + "_steps", "%d and %d steps" % (len(D), len(E)))
    if nd > 1 and not nbody and bc[:nd] != "o" * nd and max(s.h.max() / s.h.min() for s in D) > 2.4:
        ctx.label("h_contrast")     # known finding K1 of C01
        return
    tol = c["tol"]
    for i in range(len(D)):
        A, Z = get(D[i], nd), get(E[i], nd, perm)
        where = "after %d steps" % i
        if abs(Z["t"] / tau - A["t"]) > tol * A["t"]:
            if ns and P["nbody"] != "lfkdk" and abs(Z["t"] / tau - A["t"]) < .05 * A["t"]:
                ctx.label("hermite_noise")      # higher derivatives from differences of accelerations amplify rounding
                return
            raise Violation(rel + "_time", "%s: time %.17g instead of %.17g (%s)" % (where, Z["t"] / tau, A["t"], rel))
        for q in ("lev", "s_lev"):
            if q in A and not np.array_equal(A[q], Z[q]):
                ctx.label("levels_flip")
                return
        t = A["t"]
        for pre in ("", "s_"):
            if pre + "r" not in A:
                continue
            e = tr(A[pre + "r"]) + B * vu * Z["t"]
            dr = np.abs(Z[pre + "r"] - e) / lam
            if not pre:
                for k in range(nd):
                    kk = np.abs(O[k]).argmax() if rel == "axes" else k
                    if rel != "rotate" and bc[kk] == "p":
                        dr[:, k] = np.abs(dr[:, k] - np.round(dr[:, k]))
            if not (dr <= tol).all():
                j = np.unravel_index(int(np.argmax(dr)), dr.shape)
                raise Violation(rel + "_" + pre + "r", "%s: %s %d differs by %.3g in position along %d (%s)" % (where, "star" if pre else "particle", j[0], dr[j], j[1], rel))
            dv = np.abs(Z[pre + "v"] - tv(A[pre + "v"])) / vu
            vs = 1 + np.abs(A[pre + "v"]).max() + (np.sqrt(A["u"].max()) if not pre else 0)
            if not (dv <= tol * vs * 10).all():
                j = np.unravel_index(int(np.argmax(dv)), dv.shape)
                raise Violation(rel + "_" + pre + "v", "%s: %s %d differs by %.3g in velocity along %d (%s)" % (where, "star" if pre else "particle", j[0], dv[j], j[1], rel))
        for q, f in (("m", mu), ("h", lam), ("rho", mu / lam ** nd), ("u", vu ** 2), ("s_gpot", mu / lam)):
            if q not in A:
                continue
            e = A[q] * f
            dd = np.abs(Z[q] - e) / np.abs(e).clip(1e-300)
            if q == "s_gpot":
                dd = np.abs(Z[q] - e) / np.abs(e).max()
            if not (dd <= tol * 30).all():
                if q == "h" and not (dd <= 1e-3).all():
                    ctx.label("several_h")
                    return
                j = int(np.argmax(dd))
                raise Violation(rel + "_" + q, "%s: %s of particle %d is %.12g instead of %.12g (%s)" % (where, q, j, Z[q][j], e[j], rel))
    ctx.nontrivial(len(D) >= 3)


strat = st.fixed_dictionaries(dict(p=gen.particles(20, 120, kinds=["jitter", "jitter", "uniform", "gradient", "cluster"], masses=("equal", "spread"), vels=("random", "converge", "shear", "cold")), rel=st.sampled_from(["permute", "shift", "boost", "axes", "rotate", "rescale", "rescale"]),
                                   sim=st.sampled_from(["gradhsph", "gradhsph", "gradhsph", "mfvmuscl", "mfvmuscl-mfm", "mfvrk", "nbody"]), grav=st.booleans(), bc=st.one_of(st.just("ooo"), st.text("pmlrwo", min_size=3, max_size=3)), ns=st.sampled_from([0, 0, 1, 3]), levels=st.sampled_from([1, 1, 4]),
                                   mach=st.sampled_from([.3, 1., 3.]), uc=st.sampled_from([0.0, .3, 1.0]), limiter=st.sampled_from(["gizmo", "springel2009", "zeroslope", "scalar", "tvdscalar"]), riemann=st.sampled_from(["exact", "hllc"]), tlim=st.sampled_from(["none", "conservative"]), av=st.sampled_from(["mon97", "mm97", "cd2010", "none"]),
                                   acond=st.sampled_from(["none", "wadsley2008", "price2008"]), nb=st.sampled_from(["lfkdk", "hermite4"]), mac=st.sampled_from(["geometric", "eigenmac", "gadget2"]), mpole=st.sampled_from(["monopole", "quadrupole", "fast_monopole"]), gamma=st.sampled_from([1.4, 5. / 3]),
                                   tree=st.sampled_from(["kdtree", "kdtree", "octtree", "bruteforce"]), kernel=st.sampled_from(["m4", "m4", "quintic"]), leaf=st.sampled_from([1, 6, 20]), build=st.sampled_from([1, 1, 4]), steps=st.sampled_from([3, 6, 12]), seed=st.integers(0, 10 ** 6), tol=st.just(1e-7)))
SUBS_ = [Sub("metam", strat, metam, quick=500, thorough=10000)]
if __name__ == "__main__":
    main("C26", SUBS_, builds=[("gdrv", "std")],
         rule="a case is a generated problem and its transformed equivalent; non-trivial if at least three states are compared",
         assumptions=["violent states which trip an internal positivity assertion are skipped and counted", "cases whose timestep levels differ by rounding, or whose smoothing lengths have several solutions, are skipped and counted (except for rescaling)", "boundaries with smoothing-length contrasts above 2.4 are left out (known finding K1)"])
