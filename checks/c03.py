import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen

TECH = "property-based testing (Hypothesis): stateful runs of generated meshless finite-volume systems; invariants over the history at every synchronised step (conservation, positivity, consistency of conserved and primitive variables); differential check of the two time-integration schemes in the limit of small timesteps"
NOTE = "MUSCL and Runge-Kutta schemes, moving/static/zero-mass-flux, both Riemann solvers, all limiters, 1-3 dimensions, 1-6 timestep levels, periodic/mirror/open boundaries and their mixtures, viscous fluxes; up to 150 particles and 48 steps"
SKIP = ("Smoothing length too large", "Error : Particles more than")
ABORT = ("isnormal(W", "part.u > ", "part.pressure > ", "part.m > ", "isnormal(part", "Negative pstar", "Wleft[", "Wright[")


def evolve(c, ctx):
    d = dict(c["p"])
    nd = d["ndim"]
    if nd > 1 and "p" in c["bc"][:nd]:  # periodic boxes must be at least four kernel ranges across
        d["n"] += (0, 0, 100, 600)[nd] + (d["n"] if nd == 2 else 2 * d["n"])
        if d["kind"] in ("cluster", "gradient"):
            d["kind"] = "uniform" if nd == 2 else "jitter"
    S = gen.system(d)
    n, rs = d["n"], S["rs"]
    bc = c["bc"][:nd]
    cs = c["mach"]
    v = S["v"] * (1.0 / cs if cs else 1.0)
    u = np.ones(n) * 1.5 if c["uni"] else S["u"]
    sim = c["sim"]
    P = dict(ndim=nd, sim=sim, run_id="A", riemann_solver=c["riemann"], slope_limiter=c["limiter"], zero_mass_flux=int(c["move"] == "mfm"), static_particles=int(c["move"] == "static"),
             Nlevels=1 if sim == "mfvrk" else c["levels"], gas_eos="energy_eqn", gamma_eos=c["gamma"], hydro_forces=1, self_gravity=0, time_step_limiter=c["tlim"], courant_mult=c["courant"], neib_search=c["tree"], kernel=c["kernel"],
             Nleafmax=c["leaf"], ntreebuildstep=c["build"], shear_visc=c["visc"], bulk_visc=c["visc"] * .5, tend=1e30, noutputstep=10 ** 6, dt_snap=1e30, tsnapfirst=1e30, h_fac=1.2 if nd == 1 else 1.0, h_converge=0.01 if c["kernel"] == "gaussian" else 1e-6)
    P.update(gen.bc_params(bc, nd))
    r = S["r"]
    arr = dict(coords(r, v), m=S["m"], u=u)
    ctx.label(sim, c["move"], c["limiter"], c["riemann"], "%dd" % nd, "bc_" + bc, "levels%d" % P["Nlevels"])
    with Workdir() as w:
        L, F = sim_lines(P, arr, None)
        res = run_script(exe("gdrv"), L + ["setup", "dump S0", "steptrace %d S" % c["steps"]], w, F, cpu=25)
        if res.rc or res.hang:
            t = res.tail()
            for s in SKIP:
                if s in t:
                    ctx.label("refused:" + s.strip())
                    return
            mild = d["kind"] in ("jitter", "lattice") and d["mass"] == "equal" and c["uni"] and c["mach"] >= 5 and c["limiter"] != "null" and set(bc) <= set("pmw") and c["courant"] < .3
            for s in ABORT:
                if s in t and not mild:
                    ctx.label("abort:" + s.strip())
                    return
            if res.hang:
                raise Inconclusive("slow")
            raise Violation("crash", "run fails (exit %s): %s" % (res.rc, t[-300:]))
        D = []
        for i in range(c["steps"]):
            if not os.path.exists(os.path.join(w, "S.%d" % i)):
                break
            D.append(res.dump("S.%d" % i))
        S0 = res.dump("S0")
    return S0, D, P, bc


def check(c, ctx):
    q = evolve(c, ctx)
    if not q:
        return
    S0, D, P, bc = q
    nd = c["p"]["ndim"]
    closed = set(bc) <= set("po") or P["Nlevels"] == 1  # fluxes into mirror images only cancel pairwise on a common timestep
    per = [k for k in range(nd) if bc[k] in "po"]

    def tot(s):
        m, v, u = s.m, s.v.reshape(len(s.m), nd), s.u
        e = m * (u + 0.5 * (v ** 2).sum(1))
        return m.sum(), (m[:, None] * v).sum(0), e.sum()
    M0, p0, E0 = tot(S0)
    pscale = (S0.m * np.sqrt((S0.v.reshape(-1, nd) ** 2).sum(1) + S0.u)).sum()
    nsync = lev = 0
    for i, s in enumerate(D):
        where = "step %d" % (i + 1)
        for q in ("m", "rho", "u", "h", "ndens"):
            x = getattr(s, q)
            if not (np.isfinite(x).all() and (x > 0).all()):
                raise Violation("positive_" + q, "%s: %s of particle %d is %r" % (where, q, int(np.argmin(np.where(np.isfinite(x), x, -1e300))), float(np.where(np.isfinite(x), x, -1e300).min())))
        if not (np.isfinite(s.r).all() and np.isfinite(s.v).all()):
            raise Violation("finite", "%s: positions or velocities are not finite" % where)
        if P["zero_mass_flux"] and not np.array_equal(np.sort(s.m), np.sort(S0.m)):
            j = np.argmax(np.abs(np.sort(s.m) - np.sort(S0.m)))
            if not np.allclose(np.sort(s.m), np.sort(S0.m), 1e-13, 0):
                raise Violation("mfm_mass", "%s: a particle mass changes from %.17g to %.17g with zero mass flux" % (where, np.sort(S0.m)[j], np.sort(s.m)[j]))
        if P["static_particles"] and not np.array_equal(s.r, D[0].r):
            o, o0 = np.argsort(s.iorig), np.argsort(D[0].iorig)
            if not np.array_equal(s.r.reshape(-1, nd)[o], D[0].r.reshape(-1, nd)[o0]):
                raise Violation("static_moved", "%s: static particles moved" % where)
        lev = max(lev, len(set(s.level.tolist())))
        if sim_sync(s) and closed:
            nsync += 1
            M, p, E = tot(s)
            tol = 1e-13 * (i + 2) * 10
            if abs(M - M0) > tol * M0:
                raise Violation("mass", "%s: total mass %.17g instead of %.17g" % (where, M, M0))
            if abs(E - E0) > tol * E0:
                raise Violation("energy", "%s: total energy %.17g instead of %.17g (relative change %.2g)" % (where, E, E0, E / E0 - 1))
            for k in per:
                if abs(p[k] - p0[k]) > tol * pscale:
                    raise Violation("momentum", "%s: total momentum along %d changes by %.3g of %.3g" % (where, k, p[k] - p0[k], pscale))
            # conserved variables agree with the primitive ones
            Q = s.Qcons0.reshape(len(s.m), nd + 2)
            e = s.m * (s.u + 0.5 * (s.v.reshape(-1, nd) ** 2).sum(1))
            if not (np.allclose(Q[:, nd], s.m, 1e-12, 0) and (np.abs(Q[:, :nd] - s.m[:, None] * s.v.reshape(-1, nd)) <= 1e-12 * pscale).all() and np.allclose(Q[:, nd + 1], e, 1e-11, 0)):
                raise Violation("conserved_vs_primitive", "%s: conserved variables disagree with mass, velocity and energy of the particles" % where)
    ctx.nontrivial(nsync >= 2 and len(D) >= 2)
    ctx.label("sync%d" % min(nsync, 5), "levels_used%d" % min(lev, 4))


def rates(c, ctx):
    """both time integration schemes must start from the same flux divergence"""
    d = dict(c["p"])
    nd = d["ndim"]
    S = gen.system(d)
    n = d["n"]
    Q = {}
    for sim in ("mfvmuscl", "mfvrk"):
        P = dict(ndim=nd, sim=sim, run_id="A", riemann_solver=c["riemann"], slope_limiter=c["limiter"], zero_mass_flux=int(c["move"] == "mfm"), static_particles=int(c["move"] == "static"),
                 gas_eos="energy_eqn", gamma_eos=c["gamma"], hydro_forces=1, self_gravity=0, time_step_limiter="none", courant_mult=c["courant"], neib_search=c["tree"], kernel=c["kernel"],
                 shear_visc=c["visc"], bulk_visc=c["visc"] * .5, tend=1e30, noutputstep=10 ** 6, dt_snap=1e30, tsnapfirst=1e30, h_fac=1.2 if nd == 1 else 1.0)
        P.update(gen.bc_params(c["bc"], nd))
        with Workdir() as w:
            L, F = sim_lines(P, dict(coords(S["r"], S["v"] * .2), m=S["m"], u=np.ones(n) * 1.5 if c["uni"] else 1 + .3 * S["u"] / S["u"].max()), None)
            res = run_script(exe("gdrv"), L + ["setup", "dump S0", "steptrace 1 S"], w, F, cpu=25)
            if res.rc or res.hang:
                t = res.tail()
                for x in SKIP + ABORT:
                    if x in t:
                        ctx.label("skip:" + x.strip())
                        return
                if res.hang:
                    raise Inconclusive("slow")
                raise Violation("crash", "%s fails (exit %s): %s" % (sim, res.rc, t[-300:]))
            s0, s1 = res.dump("S0"), res.dump("S.0")
        o0, o1 = np.argsort(s0.iorig), np.argsort(s1.iorig)
        Q[sim] = ((s1.Qcons0.reshape(n, -1)[o1] - s0.Qcons0.reshape(n, -1)[o0]) / float(np.ravel(s1.t)[0]))
    a, b = Q["mfvmuscl"], Q["mfvrk"]
    for k, name in enumerate(["momentum"] * nd + ["mass", "energy"]):
        sc = np.sqrt((a[:, k] ** 2).mean())
        ref = np.sqrt((a ** 2).mean())
        sc = max(sc, 1e-3 * ref)
        j = int(np.argmax(np.abs(a[:, k] - b[:, k])))
        # integration schemes differ at first order in the timestep
        if abs(a[j, k] - b[j, k]) > 60 * c["courant"] * (np.abs(a[:, k]).max() + sc) + 1e-9 * ref:
            raise Violation("rate", "particle %d: rate of change of %s is %.8g with MUSCL and %.8g with Runge-Kutta integration as the timestep goes to zero (rms %.3g)" % (j, name, a[j, k], b[j, k], sc))
    ctx.label("%dd" % nd, c["limiter"], c["riemann"], c["move"])
    ctx.nontrivial(ref > 0)


def sim_sync(s):
    return bool((s.nlast == np.ravel(s.n)[0]).all())


strat = st.fixed_dictionaries(dict(p=gen.particles(20, 150, kinds=["jitter", "jitter", "lattice", "uniform", "cluster", "gradient"], vels=("shear", "random", "random", "converge", "cold")), sim=st.sampled_from(["mfvmuscl", "mfvmuscl", "mfvmuscl", "mfvrk"]), bc=st.one_of(st.just("ppp"), st.text("pppmlrwo", min_size=3, max_size=3)),
                                   riemann=st.sampled_from(["exact", "hllc"]), limiter=st.sampled_from(["gizmo", "springel2009", "scalar", "tvdscalar", "zeroslope", "null"]), move=st.sampled_from(["mfv", "mfv", "mfm", "static"]), levels=st.sampled_from([1, 1, 3, 6]), tlim=st.sampled_from(["none", "conservative"]),
                                   gamma=st.sampled_from([1.4, 5. / 3, 1.1, 2.0]), courant=st.sampled_from([.1, .2, .4]), mach=st.sampled_from([20, 5, 1, 0]), uni=st.sampled_from([True, False]), tree=st.sampled_from(["kdtree", "kdtree", "octtree", "bruteforce"]), kernel=st.sampled_from(["m4", "m4", "quintic"]), leaf=st.sampled_from([1, 6, 20]), build=st.sampled_from([1, 4]),
                                   visc=st.sampled_from([0.0, 0.0, 0.0, .05]), steps=st.sampled_from([6, 16, 48])))
strat2 = st.fixed_dictionaries(dict(p=gen.particles(20, 100, kinds=["jitter", "uniform"], vels=("shear", "random", "cold")), bc=st.just("ooo"), riemann=st.sampled_from(["exact", "hllc"]), limiter=st.sampled_from(["gizmo", "springel2009", "scalar", "tvdscalar", "zeroslope"]),
                                    move=st.sampled_from(["mfv", "mfm", "static"]), gamma=st.sampled_from([1.4, 5. / 3]), courant=st.just(1e-4), uni=st.booleans(), tree=st.sampled_from(["kdtree", "octtree", "bruteforce"]), kernel=st.sampled_from(["m4", "quintic"]), visc=st.just(0.0)))
corners = []
SUBS_ = [Sub("evolve", strat, check, quick=400, thorough=6000, corners=corners), Sub("rates", strat2, rates, quick=80, thorough=1500)]
if __name__ == "__main__":
    main("C03", SUBS_, builds=[("gdrv", "std")],
         rule="a case is a run of a generated system; non-trivial if at least two synchronised steps were examined",
         assumptions=["violent states which trip an internal positivity assertion are skipped and counted"])
