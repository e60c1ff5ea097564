import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, sphref
from refkern import kern

TECH = "property-based testing (Hypothesis): direct O(N^2) numpy reference of the grad-h equations, conservation and search-algorithm differential"
NOTE = "generated gas states, boundaries, dissipation options, trees, global and block timesteps"


def params(c, tree=None, nleaf=None):
    nd = c["p"]["ndim"]
    av = c["av"]
    P = dict(sim="gradhsph", ndim=nd, kernel=c["kernel"], tabulated_kernel=c["tab"], h_fac=1.2, neib_search=tree or c["tree"],
             Nleafmax=nleaf or c["nleaf"], gas_eos=c["eos"], gamma_eos=c["gamma"], temp0=1.0, mu_bar=1.0, Nlevels=c["nlev"], ntreebuildstep=c["nbuild"], ntreestockstep=1,
             hydro_forces=1, sph_integration="lfkdk", level_diff_max=100, avisc="none" if av == "none" else "mon97", acond=c["acond"], alpha_visc=c["alpha"], alpha_visc_min=0.1, beta_visc=c["beta"])
    P.update({"time_dependent_avisc": {"mm97": "mm97", "cd2010": "cd2010"}.get(av, "none")})
    if c["grav"] and set(c["bc"][:nd]) == {"o"}:
        P["self_gravity"] = 1
    P.update(gen.bc_params(c["bc"], nd, c["lo"], c["size"]))
    return P


def fields(c):
    s = gen.system(c["p"])
    nd = c["p"]["ndim"]
    A = coords(c["lo"] + c["size"] * s["r"], s["v"] * c["vfac"])
    A.update(m=gen.solvable_mass(s["m"], 1.2, kern(c["kernel"], nd)), u=s["u"])
    return A


def verify(c, P, S, sel, ctx, what, exact_v):
    nd = c["p"]["ndim"]
    K = kern(c["kernel"], nd)
    reach = K.R * S.h.max() * 1.001
    per = [k for k in range(nd) if c["bc"][k] != "o"]
    if per and reach > 0.499 * c["size"]:
        return False
    idx, R, V = gen.images(S.r, S.v, c["bc"], c["lo"], c["size"], reach)
    av = {"none": "none", "mon97": "mon97"}.get(c["av"], "alpha")
    ref = sphref.hydro(S, K, idx, R, V, dict(avisc=av, acond=c["acond"], alpha=c["alpha"], beta=c["beta"], tab=c["tab"], vround=1e-6 * np.abs(S.v).max()))
    ctx.nontrivial((ref["nn"] > 0).sum() > 1)
    tol = 0.03 if c["tab"] else 1e-7 if what == "after set-up" else 3e-7
    grav = P.get("self_gravity", 0)
    usea = exact_v or av == "none"
    if usea and not grav:
        err = np.abs(S.a - ref["a"]).max(1) / (ref["a_sc"] + 1e-300)
        bad(err, tol, sel, "a", what, S, S.a, ref["a"])
    if exact_v:
        bad(np.abs(S.div_v - ref["div_v"]) / (ref["div_sc"] + 1e-300), tol, sel, "div_v", what, S, S.div_v, ref["div_v"])
        bad(np.abs(S.dudt - ref["dudt"]) / (ref["dudt_sc"] + 1e-300), tol, sel, "dudt", what, S, S.dudt, ref["dudt"])
        if c["av"] == "mm97":
            d = 0.1 * S.sound * (0.1 - S.alpha) / S.h + np.maximum(-ref["div_v"], 0) * (c["alpha"] - S.alpha)
            sc = 0.1 * S.sound * (0.1 + S.alpha) / S.h + ref["div_sc"] * (c["alpha"] + S.alpha) + 1e-300
            bad(np.abs(S.dalphadt - d) / sc, tol, sel, "dalphadt", what, S, S.dalphadt, d)
    if sel.all() and not (set(c["bc"][:nd]) - set("op")):
        if usea and not grav:
            f = (S.m[:, None] * S.a).sum(0)
            fs = (S.m * ref["a_sc"]).sum() + 1e-300
            if np.abs(f).max() > 1e-9 * fs:
                raise Violation("momentum", "%s: total force %s, sum of magnitudes %g" % (what, f, fs))
        if exact_v and not grav and c["eos"] == "energy_eqn":
            e = (S.m * ((S.v * S.a).sum(1) + S.dudt)).sum()
            es = (S.m * (np.abs(S.v).max(1) * ref["a_sc"] + ref["dudt_sc"])).sum() + 1e-300
            if abs(e) > 1e-8 * es:
                raise Violation("energy", "%s: rate of change of total energy %g, sum of magnitudes %g" % (what, e, es))
    return True


def bad(err, tol, sel, key, what, S, got, want):
    err = np.where(sel & (S.ptype == 0), err - 1e-19 / S.h ** 2, 0)      # separations carry an additive 1e-20 under the root
    if (~np.isfinite(err)).any() or err.max() > tol:
        i = int(np.nanargmax(np.where(np.isfinite(err), err, np.inf)))
        raise Violation(key, "%s: particle %d: %s, direct pairwise sum %s (h=%g, relative to the sum of magnitudes %.3g)" % (what, i, got[i], want[i], S.h[i], err[i]))


def predicted(c, prev, S):
    """The forces of a kick-drift-kick step are computed with the velocities and energies predicted to the end of
    the step; particles ending their step have been corrected since.  Undo that correction."""
    if set(c["bc"][:c["p"]["ndim"]]) & set("mlr"):
        return S, False
    S = State(S)
    end = S.nlast == S.n
    dt = S.t - prev.tlast
    S["v"] = np.where(end[:, None], S.v - 0.5 * (S.a - prev.a0) * dt[:, None], S.v)
    if c["eos"] == "energy_eqn":
        S["u"] = np.where(end, prev.u0 + prev.dudt0 * dt, S.u)      # (the correction is dropped where it would turn u negative)
    # rounding of the reconstruction
    return S, S.h.min() > 1e-4 * c["size"]


def check(c, ctx):
    nd = c["p"]["ndim"]
    P, A = params(c), fields(c)
    with Workdir() as d:
        L, F = sim_lines(P, A)
        L += ["setup", "dump s0"]
        if c["steps"]:
            L.append("steptrace %d s1" % c["steps"])
        r = run_script(exe("gdrv"), L, d, F, cpu=30)
        S = r.dump("s0")
        if "Smoothing length too large, self-interaction" in r.out and "p" in c["bc"][:nd]:
            if S is None or kern(c["kernel"], nd).R * S.h.max() > 0.2 * c["size"]:
                ctx.label("refused: kernel too wide")
                return
        if r.rc == -6 and any(x in r.err for x in ("isfinite(amag)", "parti.a[k]==parti.a[k]", "part.a[k] == part.a[k]", "part.nlast <= n")) and c["eos"] == "energy_eqn" and S is not None:
            # a violent state in which the explicit energy prediction turns negative (no valid continuation)
            last = [x for x in (r.dump("s1.%d" % k) for k in range(c["steps"])) if x is not None]
            last = last[-1] if last else S
            if c["acond"] == "price2008" or ((last.u0 + last.dudt0 * last.dt) <= 0.02 * last.u0).any():
                ctx.label("internal energy exhausted")
                return
        expect_ok(r)
        ctx.label("ndim%d" % nd, c["tree"], c["kernel"], "av_" + c["av"], c["acond"])
        one = np.ones(int(S.Nhydro), bool)
        if not verify(c, P, S, one, ctx, "after set-up", True):
            return
        for k in range(c["steps"]):
            prev, S = S, r.dump("s1.%d" % k)
            if S is None:
                break
            S, exact = predicted(c, prev, S)
            sel = S.nlast == S.n
            if sel.any():
                ctx.label("evolved", "partly active" if not sel.all() else "all active")
                if not verify(c, P, S, sel, ctx, "after step %d (%d of %d active)" % (k + 1, sel.sum(), len(sel)), exact):
                    return


BCS = ["ooo", "ooo", "ppp", "mmm", "lro", "pmo", "opm", "ppo"]
BASE = dict(
    p=gen.particles(nmin=24, nmax=150), kernel=st.sampled_from(["m4", "m4", "quintic", "gaussian"]), tab=st.sampled_from([0, 0, 0, 1]),
    tree=st.sampled_from(["kdtree", "kdtree", "octtree", "bruteforce"]), nleaf=st.integers(1, 12), eos=st.sampled_from(["energy_eqn", "energy_eqn", "isothermal"]),
    gamma=lin(1.1, 2.0), nlev=st.integers(1, 5), nbuild=st.integers(1, 4), bc=st.sampled_from(BCS), lo=lin(-2, 2), size=logf(0.3, 30), vfac=logf(0.1, 10),
    av=st.sampled_from(["none", "mon97", "mm97", "cd2010"]), acond=st.sampled_from(["none", "wadsley2008", "price2008"]), alpha=lin(0.5, 1.5), beta=lin(0.5, 3),
    grav=st.sampled_from([False, False, True]), steps=st.sampled_from([0, 0, 2, 6]))
CASE = st.fixed_dictionaries(BASE)


# the same state through two search algorithms, leaf sizes and particle orders must give the same result
def check_diff(c, ctx):
    nd = c["p"]["ndim"]
    A = fields(c)
    out = []
    for tree, nl, perm in ((c["tree"], c["nleaf"], False), (c["tree2"], c["nleaf2"], True)):
        P = params(c, tree, nl)
        P["h_converge"] = 1e-7
        o = np.random.default_rng(5).permutation(len(A["m"])) if perm else np.arange(len(A["m"]))
        B = {k: v[o] for k, v in A.items()}
        with Workdir() as d:
            L, F = sim_lines(P, B)
            r = run_script(exe("gdrv"), L + ["setup", "dump s0"], d, F, cpu=30)
            S = r.dump("s0")
            if "Smoothing length too large, self-interaction" in r.out:
                ctx.label("refused: kernel too wide")
                return
            expect_ok(r)
            inv = np.argsort(o)
            out.append({k: S[k][inv] for k in ("a", "dudt", "div_v", "rho", "h", "pressure")})
    x, y = out
    ctx.label(c["tree"] + "/" + c["tree2"])
    dh = np.abs(x["h"] / y["h"] - 1)
    if dh.max() > 1e-4:
        # the density equation can have several solutions; both must at least be solutions (C01 decides that)
        ctx.label("different solutions for h")
        return
    ctx.nontrivial()
    t = 1e-9 + 20 * dh.max()
    close(x["rho"], y["rho"], t * nd, 0, "diff-rho", "rho with %s and %s" % (c["tree"], c["tree2"]))
    for k in ("a", "dudt", "div_v"):
        sc = np.abs(x[k]).max() + 1e-300
        close(x[k] / sc, y[k] / sc, 0, 100 * t + 1e-7, "diff-" + k, "%s with %s and %s" % (k, c["tree"], c["tree2"]))


DIFF = st.fixed_dictionaries(dict(BASE, p=gen.particles(nmin=24, nmax=150, kinds=["uniform", "jitter", "lattice", "gradient"]), tab=st.just(0), kernel=st.sampled_from(["m4", "quintic"]), steps=st.just(0), grav=st.just(False),
                                  tree2=st.sampled_from(["kdtree", "octtree", "bruteforce"]), nleaf2=st.integers(1, 12)))

if __name__ == "__main__":
    main("C02", [Sub("forces", CASE, check, quick=1200, thorough=60000), Sub("search", DIFF, check_diff, quick=400, thorough=20000)], builds=[("gdrv", "std")],
         rule="at least two particles with an interacting neighbour",
         assumptions=["kernel range smaller than half the box along bounded axes", "stepping states: velocity-dependent terms are compared at the predicted velocities, and only without mirror boundaries"])
