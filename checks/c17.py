import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, refkern

TECH = "property-based testing (Hypothesis): metamorphic relations between whole runs - a translated periodic problem, an explicitly mirrored problem without mirrors, a box made of two copies - plus an invariant (inside the box, reflected velocities) over every step"
NOTE = "grad-h SPH (KDK) and MFV/MFM (MUSCL, RK), 1-3 dimensions, every mixture of open/periodic/mirror/wall boundaries per axis and side, particles near faces, edges and corners and crossing them, tree rebuilt every 1 or 4 steps; up to 16 steps"
ABORT = ("isnormal(W", "part.u > ", "part.pressure > ", "part.m > ", "isnormal(part", "Negative pstar", "Wleft[", "Wright[", "Smoothing length too large", "Error : Particles more than")


def system(c):
    d = dict(c["p"])
    nd = d["ndim"]
    if nd > 1 and "p" in c["bc"][:nd]:
        d["n"] += (0, 0, 120, 1100)[nd] + (0 if nd == 2 else d["n"])
        if d["kind"] in ("cluster", "gradient", "pairs", "aniso"):
            d["kind"] = "uniform" if nd == 2 else "jitter"
    S = gen.system(d)
    S["u"] = 1.5 * S["u"] ** c["uc"]
    S["v"] = S["v"] * c["mach"]
    return S, d


def params(c, nd):
    sim = c["sim"]
    P = dict(ndim=nd, sim=sim.split("-")[0], run_id="A", Nlevels=1 if sim.startswith("mfvrk") else c["levels"], gas_eos="energy_eqn", gamma_eos=1.4, hydro_forces=1, self_gravity=0, courant_mult=.15, neib_search=c["tree"], kernel=c["kernel"],
             Nleafmax=c["leaf"], ntreebuildstep=c["build"], tend=1e30, noutputstep=10 ** 6, dt_snap=1e30, tsnapfirst=1e30, h_fac=1.2, h_converge=1e-11, riemann_solver="hllc", slope_limiter=c["limiter"], zero_mass_flux=int(sim.endswith("mfm")), accel_mult=.3, level_diff_max=100)
    return P


def run(c, P, arr, steps, w, tag):
    L, F = sim_lines(P, arr, None)
    d = os.path.join(w, tag)
    os.makedirs(d)
    res = run_script(exe("gdrv"), L + ["setup", "dump S0", "steptrace %d S" % steps], d, F, cpu=25)
    if res.rc or res.hang:
        t = res.tail()
        if res.hang:
            raise Inconclusive("slow")
        for s in ABORT:
            if s in t:
                return None, s
        return None, t[-300:]
    D = [res.dump("S0")]
    for i in range(steps):
        if not os.path.exists(os.path.join(d, "S.%d" % i)):
            break
        D.append(res.dump("S.%d" % i))
    return D, ""


def get(s, nd):
    o = np.argsort(s.iorig)
    return dict(r=s.r.reshape(-1, nd)[o], v=s.v.reshape(-1, nd)[o], a=s.a.reshape(-1, nd)[o], m=s.m[o], h=s.h[o], rho=s.rho[o], u=s.u[o], level=s.level[o], t=float(np.ravel(s.t)[0]))


def compare(key, where, A, B, size, vs, tol, what):
    if A["t"] == 0 and B["t"] == 0:
        pass
    elif abs(A["t"] - B["t"]) > tol * A["t"]:
        raise Violation(key + "_time", "%s: time %.17g and %.17g (%s)" % (where, A["t"], B["t"], what))
    d = np.abs(A["r"] - B["r"])
    if not (d <= tol * size).all():
        i = np.unravel_index(int(np.argmax(d / size)), d.shape)
        raise Violation(key + "_r", "%s: position of particle %d along %d is %.12g, expected %.12g (%s)" % (where, i[0], i[1], B["r"][i], A["r"][i], what))
    for q, s in (("v", vs), ("m", 0), ("h", 0), ("rho", 0), ("u", 0)):
        d = np.abs(A[q] - B[q])
        lim = tol * s if s else tol * np.abs(A[q]) * (30 if q in ("rho", "u") else 3)
        if not (d <= lim).all():
            i = np.unravel_index(int(np.argmax(d / lim)), d.shape)
            raise Violation(key + "_" + q, "%s: %s of particle %d is %.12g, expected %.12g (%s)" % (where, q, i[0], B[q][i], A[q][i], what))


def roots(c, P, s, nd):
    """every smoothing length of a state solves h = h_fac (m/rho)^(1/nd) (or (1/n)^(1/nd)) over the images"""
    K = refkern.kern(c["kernel"], nd)
    r, h, m = s.r.reshape(-1, nd), s.h, s.m
    lo = np.array([P.get("boxmin[%d]" % k, 0.0) for k in range(nd)])
    sz = np.array([P.get("boxmax[%d]" % k, 0.0) for k in range(nd)]) - lo
    inv = {v: k for k, v in gen.BC.items()}
    bc = "".join(inv[(P["boundary_lhs[%d]" % k], P["boundary_rhs[%d]" % k])] for k in range(nd))
    idx, R, _ = gen.images(r, np.zeros_like(r), bc.replace("w", "o"), lo, sz, K.R * h.max())
    wt = m[idx] if P["sim"] == "gradhsph" else np.ones(len(idx))
    mi = m if P["sim"] == "gradhsph" else np.ones(len(h))
    for i in range(len(h)):
        dr = np.sqrt(((R - r[i]) ** 2).sum(1))
        j = dr < K.R * h[i]
        n = (wt[j] * K.w0(dr[j] / h[i])).sum() / h[i] ** nd
        if abs(P["h_fac"] * (mi[i] / n) ** (1.0 / nd) / h[i] - 1) > 1e-8:
            return False
    return True


def several(c, Pa, Pb, a, b, A, B, nd):
    """True if smoothing lengths differ because the equation for h has several solutions"""
    d = np.abs(A["h"] - B["h"]) > c["tol"] * A["h"]
    return bool(d.any()) and roots(c, Pa, a, nd) and roots(c, Pb, b, nd)


def inside(c, D, bc, nd, lo, size, key):
    for i, s in enumerate(D):
        r = s.r.reshape(-1, nd)
        for k in range(nd):
            L, R = gen.BC[bc[k]]
            if L != "open" and not (r[:, k] >= lo[k]).all():
                raise Violation(key + "_outside", "step %d: particle at %.12g left the %s boundary at %.12g along %d" % (i, r[:, k].min(), L, lo[k], k))
            if R != "open" and not (r[:, k] <= lo[k] + size[k]).all():
                raise Violation(key + "_outside", "step %d: particle at %.12g left the %s boundary at %.12g along %d" % (i, r[:, k].max(), R, lo[k] + size[k], k))


def metam(c, ctx):
    S, d = system(c)
    nd = d["ndim"]
    bc = c["bc"][:nd]
    n = d["n"]
    rel = c["rel"]
    rs = rng(c["seed"])
    lo = np.round(rs.uniform(-3, 3, 3), 3)
    size = np.round(rs.uniform(.85, 1.15, 3) * c["size"], 3)
    lo_, size_ = lo[:nd], size[:nd]
    r = lo_ + S["r"] * size_
    if "p" not in bc and "m" not in bc and "l" not in bc and "r" not in bc and "w" not in bc:
        ctx.label("all_open")
        return
    axes = [k for k in range(nd) if bc[k] == "p"] if rel in ("translate", "copies") else [k for k in range(nd) if bc[k] in "mlr"]
    if not axes:
        rel = "inside"
    if rel == "mirror" and c["sim"].startswith("mfv"):
        c = dict(c, levels=1)  # fluxes into mirror images use the own step of the particle, not the shorter step of the pair
    ctx.label(rel, c["sim"], "%dd" % nd, "levels%d" % c["levels"])
    P = params(c, nd)
    P.update(gen.bc_params(bc, nd, lo_, size_))
    base = dict(coords(r, S["v"]), m=S["m"], u=S["u"])
    steps = c["steps"]
    with Workdir() as w:
        D, err = run(c, P, base, steps, w, "a")
        if D is None:
            if err in ABORT:
                ctx.label("abort:" + err)
                return
            raise Violation("crash", "run fails: " + err)
        inside(c, D, bc, nd, lo_, size_, "run")
        moved = sum(int(((get(D[i], nd)["v"] * get(D[i - 1], nd)["v"]) < 0).any()) for i in range(1, len(D)))
        if rel != "inside" and max(s.h.max() / s.h.min() for s in D) > 2.4:
            # images of particles further than 2.5 of their own kernel radii from a boundary are not seen by
            # particles with larger kernels on the other side (known finding K1 of C01)
            ctx.label("h_contrast")
            return
        vs = max(np.sqrt((S["v"] ** 2).sum(1)).max(), np.sqrt(S["u"].max()))
        if rel == "inside":
            ctx.nontrivial(len(D) > 2)
            return
        ctx.nontrivial(len(D) > 2)
        k = axes[c["axis"] % len(axes)]
        P2 = dict(P)
        if rel == "translate":
            T = rs.uniform(-1, 1, nd) * size_ * 3
            T = np.where([b == "p" for b in bc], T, 0.0)
            r2 = r + T
            for q in range(nd):
                if bc[q] == "p":
                    r2[:, q] = lo_[q] + np.mod(r2[:, q] - lo_[q], size_[q])
            a2 = dict(coords(r2, S["v"]), m=S["m"], u=S["u"])
            fold = None
        elif rel == "copies":
            e = np.zeros(nd)
            e[k] = size_[k]
            a2 = dict(coords(np.concatenate([r, r + e]), np.tile(S["v"], (2, 1))), m=np.tile(S["m"], 2), u=np.tile(S["u"], 2))
            P2["boxmax[%d]" % k] = float(lo_[k] + 2 * size_[k])
        else:
            at = lo_[k] if bc[k] in "ml" else lo_[k] + size_[k]
            r2, v2 = r.copy(), S["v"].copy()
            r2[:, k] = 2 * at - r2[:, k]
            v2[:, k] *= -1
            a2 = dict(coords(np.concatenate([r, r2]), np.concatenate([S["v"], v2])), m=np.tile(S["m"], 2), u=np.tile(S["u"], 2))
            if bc[k] == "m":
                P2.update({"boundary_lhs[%d]" % k: "periodic", "boundary_rhs[%d]" % k: "periodic", "boxmin[%d]" % k: float(lo_[k] - size_[k]), "boxmax[%d]" % k: float(lo_[k] + size_[k])})
            else:
                P2.update({"boundary_lhs[%d]" % k: "open", "boundary_rhs[%d]" % k: "open", "boxmin[%d]" % k: float(lo_[k] - 3 * size_[k]), "boxmax[%d]" % k: float(lo_[k] + 3 * size_[k])})
        E, err = run(c, P2, a2, steps, w, "b")
        if E is None:
            if err in ABORT:
                ctx.label("abort:" + err)
                return
            raise Violation("crash_" + rel, "the equivalent run fails: " + err)
        if len(E) != len(D):
            raise Violation(rel + "_steps", "%d and %d steps" % (len(D), len(E)))
        for i in range(len(D)):
            A, B = get(D[i], nd), get(E[i], nd)
            where = "after %d steps" % i
            if rel == "translate":
                if not np.array_equal(A["level"], B["level"]):
                    ctx.label("levels_flip")
                    return
                B["r"] = B["r"] - T
                q = np.array([size_[j] * np.round((A["r"][:, j] - B["r"][:, j]) / size_[j]) if bc[j] == "p" else np.zeros(n) for j in range(nd)]).T
                B["r"] = B["r"] + q
                if several(c, P, P2, D[i], E[i], A, B, nd):
                    ctx.label("several_h")
                    return
                compare(rel, where, A, B, size_, vs, c["tol"], "periodic problem translated by %s" % T)
                continue
            for half in (0, 1):
                C = {q: (x if q == "t" else x[half * n:half * n + n].copy()) for q, x in B.items()}
                if not np.array_equal(A["level"], C["level"]):
                    ctx.label("levels_flip")
                    return
                if rel == "copies":
                    x = C["r"][:, k] - half * size_[k]
                    C["r"][:, k] = x + size_[k] * np.round((A["r"][:, k] - x) / size_[k])
                else:
                    x, v = C["r"][:, k], C["v"][:, k]
                    if bc[k] == "m":  # fold the doubled periodic box
                        y = np.mod(x - at, 2 * size_[k])
                        f = y > size_[k]
                        x, v = at + np.where(f, 2 * size_[k] - y, y), np.where(f, -v, v)
                    elif bc[k] == "l":
                        f = x < at
                        x, v = np.where(f, 2 * at - x, x), np.where(f, -v, v)
                    else:
                        f = x > at
                        x, v = np.where(f, 2 * at - x, x), np.where(f, -v, v)
                    near = (np.abs(x - at) < 1e-9 * size_[k]) | (np.abs(x - at - size_[k]) < 1e-9 * size_[k])
                    if near.any():
                        ctx.label("on_the_face")
                        return
                    C["r"][:, k], C["v"][:, k] = x, v
                if several(c, P, P2, D[i], E[i], A, C, nd):
                    ctx.label("several_h")
                    return
                compare(rel, where, A, C, size_, vs, c["tol"], "problem made explicit along axis %d" % k)
        cross = (np.abs(get(D[-1], nd)["r"] - r) > .5 * size_).any() or any((np.sign(get(D[i], nd)["v"]) != np.sign(S["v"])).any() for i in (-1,))
        ctx.label("crossed" if cross else "not_crossed")


strat = st.fixed_dictionaries(dict(p=gen.particles(20, 120, kinds=["jitter", "jitter", "jitter", "lattice", "uniform", "gradient"], masses=("equal", "spread"), vels=("random", "converge", "shear", "random")), sim=st.sampled_from(["gradhsph", "gradhsph", "mfvmuscl", "mfvmuscl-mfm", "mfvrk"]), bc=st.one_of(st.text("pm", min_size=3, max_size=3), st.text("pmlrwo", min_size=3, max_size=3)),
                                   rel=st.sampled_from(["translate", "copies", "mirror", "mirror"]), axis=st.integers(0, 2), size=st.sampled_from([1.0, .01, 1000.]), levels=st.sampled_from([1, 1, 1, 4]), mach=st.sampled_from([.3, 1., 3.]), uc=st.sampled_from([0.0, .3, 1.0]), limiter=st.sampled_from(["gizmo", "springel2009", "zeroslope"]),
                                   tree=st.sampled_from(["kdtree", "kdtree", "octtree"]), kernel=st.sampled_from(["m4", "m4", "quintic"]), leaf=st.sampled_from([1, 6, 20]), build=st.sampled_from([1, 1, 4]), steps=st.sampled_from([3, 8, 16]), seed=st.integers(0, 10 ** 6), tol=st.just(1e-7)))
SUBS_ = [Sub("metam", strat, metam, quick=500, thorough=8000)]
if __name__ == "__main__":
    main("C17", SUBS_, builds=[("gdrv", "std")],
         rule="a case is a generated problem and its equivalent without the boundary; non-trivial if at least three states are compared",
         assumptions=["violent states which trip an internal positivity assertion are skipped and counted", "cases whose timestep levels differ by rounding are skipped and counted"])
