import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen
from refkern import kern

TECH = "property-based testing (Hypothesis): brute-force numpy reference sums over all images"
NOTE = "generated particle systems, boundaries, types, trees and short histories; oracle is an independent O(N^2) kernel sum"

MASK = {0: (0, 2), 2: (0, 2), 3: (3,)}     # gas and dark matter see both; dust sees dust


def gravity(c):
    return c["grav"] and set(c["bc"][:c["p"]["ndim"]]) == {"o"}


def params(c):
    nd = c["p"]["ndim"]
    if c["tab"] or c["kernel"] == "gaussian" and c["types"] in ("dust", "all"):
        c["conv"] = max(c["conv"], 0.01)       # the tabulated kernel is a step function
    P = dict(sim="gradhsph", ndim=nd, kernel=c["kernel"], tabulated_kernel=c["tab"], h_fac=c["h_fac"], h_converge=c["conv"],
             neib_search=c["tree"], Nleafmax=c["nleaf"], gas_eos=c["eos"], gamma_eos=1.4, Nlevels=c["nlev"], sph_single_timestep=0,
             ntreebuildstep=c["nbuild"], ntreestockstep=1, hydro_forces=1, avisc="mon97", sph_integration=c["integ"])
    if c["eos"] == "energy_eqn":
        P["energy_integration"] = "null"
    if gravity(c):
        P.update(self_gravity=1)
    if c["types"] in ("dust", "all", "cdm") and not set(c["bc"][:nd]) & set("mlr"):
        P.update(dust_forces="test_particle", drag_law="fixed", drag_coeff=1.0)
    P.update(gen.bc_params(c["bc"], nd, c["lo"], c["size"]))
    return P


def fields(c):
    nd = c["p"]["ndim"]
    s = gen.system(c["p"])
    r = c["lo"] + c["size"] * s["r"]
    v = s["v"] * c["size"]
    n = len(r)
    t = np.zeros(n)
    if c["types"] in ("cdm", "all") and not gravity(c):
        c = dict(c, types="dust")
    if c["types"] in ("dust", "all") and set(c["bc"][:nd]) & set("mlr"):
        c = dict(c, types="gas")       # rejected by the code
    if c["types"] == "cdm":
        t[s["rs"].random(n) < 0.4] = 2
    if c["types"] == "dust":
        t[s["rs"].random(n) < 0.4] = 3
    if c["types"] == "all":
        t = s["rs"].choice([0, 2, 3], n)
    if (t == 0).sum() < 1:
        t[0] = 0
    m, t = solvable(s["m"], t, c["h_fac"], kern(c["kernel"], nd))
    A = gen_coords(r, v)
    A.update(m=m, u=s["u"], ptype=t)
    if c["hguess"]:      # (a poor guess must not matter)
        spacing = c["size"] / n ** (1.0 / nd)
        A["h"] = spacing * 10 ** (c["hguess"] * s["rs"].uniform(-1, 1, n))
    return A


def solvable(m, t, h_fac, K):
    """h(rho) has a finite solution only if all mass a particle can see would, at infinite h, give a larger density."""
    def ok(m, t):
        for g in ((0, 2), (3,)):
            q = m[np.isin(t, g)]
            if len(q) and q.sum() * K.w0(np.array([0.0]))[0] < 1.3 * h_fac ** K.ndim * q.max():
                return False
        return True
    if not ok(m, t):
        t = np.zeros(len(t))
    if not ok(m, t):
        m = np.full(len(m), m.mean())
    return m, t


def gen_coords(r, v):
    return coords(r, v)


def verify(c, S, sel, ctx, what):
    nd = c["p"]["ndim"]
    K = kern(c["kernel"], nd)
    n = int(S.Nhydro)
    h, m, rho, t = S.h, S.m, S.rho, S.ptype.astype(int)
    # the fixed point relation holds exactly (h is set from rho on exit); a discontinuous sum need not have a fixed point
    if not c["tab"] and c["kernel"] != "gaussian":
        close(h, c["h_fac"] * (m / rho) ** (1.0 / nd), 1e-9 + 2 * c["conv"], 0, "hrho", what + " h(rho)")
    else:
        close(h, c["h_fac"] * (m / rho) ** (1.0 / nd), 2e-2, 0, "hrho", what + " h(rho)")
    close(S.hrangesqd, (K.R * h) ** 2, 1e-9, 0, "hrange", what + " hrangesqd")
    reach = K.R * h.max() * 1.001
    per = [k for k in range(nd) if c["bc"][k] != "o"]
    if per and reach > 0.499 * c["size"]:
        ctx.label("kernel wider than box")
        return False
    idx, R, V = gen.images(S.r, S.v, c["bc"], c["lo"], c["size"], reach)
    sub = np.nonzero(sel)[0]
    edge = np.zeros(len(sub), bool)
    depth = np.maximum(c["lo"] - R, R - (c["lo"] + c["size"]))
    depth[:, [k for k in range(nd) if c["bc"][k] == "o"]] = -1
    # image of a particle further from the boundary than about 2.5 of its own kernel ranges: see finding K1
    far = (depth > 1.9 * K.R * h[idx][:, None]).any(1)
    rf = np.empty(len(sub))
    rr = np.empty(len(sub)); om = np.empty(len(sub)); ze = np.empty(len(sub)); nn = np.empty(len(sub))
    for q, i in enumerate(sub):
        d = np.sqrt(((R - S.r[i]) ** 2).sum(1))
        s = d / h[i]
        ok = (s < K.R * 1.05) & np.isin(t[idx], MASK[t[i]])
        s, mm, ff = s[ok], m[idx[ok]], far[ok]
        rf[q] = (mm * K.w0(s))[~ff].sum() / h[i] ** nd
        rr[q] = (mm * K.w0(s)).sum() / h[i] ** nd
        om[q] = (mm * K.womega(s)).sum() / h[i] ** (nd + 1)
        ze[q] = (mm * K.wzeta(s)).sum() / h[i] ** 2 if K.name != "gaussian" else 0
        nn[q] = (s < K.R).sum()
        if K.name == "gaussian":       # truncated: not continuous at the edge
            edge[q] = (np.abs(s / K.R - 1) < 0.02).any()
    ctx.nontrivial((nn > 1).any())
    drhodh = np.maximum(np.abs(om) * h[sub] / rr, 1.0)
    tol = 1e-8 + 1.5 * c["conv"] * drhodh + (0.02 if c["tab"] else 0)
    keep = ~edge
    err = np.abs(rr / rho[sub] - 1)
    lost = (err > tol) & (rf < rr) & (rho[sub] > rf * (1 - tol)) & (rho[sub] < rr)
    keep &= ~lost
    if (err > tol)[keep].any() or not np.isfinite(err).all():
        j = int(np.argmax(np.where(keep, err / tol, 0)))
        raise Violation("rho", "%s: particle %d (iorig %d): density %.12g, sum over all neighbours %.12g (%d neighbours, h=%.6g)" %
                        (what, sub[j], S.iorig[sub[j]], rho[sub[j]], rr[j], nn[j], h[sub[j]]))
    # correction factors
    hd = -h[sub] / (nd * rho[sub])
    W = 1.0 - hd * om
    good = keep & (np.abs(W) > 0.2) & (rf >= rr * (1 - 1e-15))
    rtol = 1e-7 + 60 * c["conv"] * K.R + (0.06 if c["tab"] else 0)
    io = S.invomega[sub]
    if c["conv"] < 1e-5 or c["tab"] == 0 and c["conv"] < 1e-5:
        close((io * W)[good], np.ones(good.sum()), rtol * 5, 0, "invomega", what + " omega times its reference")
        if K.name != "gaussian":
            zr = hd * ze * io
            sc = np.abs(hd * io) * m[sub] / h[sub] ** 2 * K.wzeta(np.array([1e-9]))[0]
            close((S.zeta[sub] - zr)[good] / (np.abs(zr) + sc)[good], np.zeros(good.sum()), 0, rtol * 5, "zeta", what + " zeta relative error")
    if lost.any():
        q = np.nonzero(lost)[0][0]
        raise Violation("rho-ghost-range", "%s: particle %d: density %.12g lacks the image of a particle with a much smaller h (full sum %.12g)" %
                        (what, sub[q], rho[sub[q]], rr[q]))
    return True


def check(c, ctx):
    P, A = params(c), fields(c)
    nd = c["p"]["ndim"]
    with Workdir() as d:
        L, F = sim_lines(P, A)
        if c["hguess"]:
            L.append("given_h")
        L += ["setup", "dump s0"]
        if c["steps"]:
            L += ["steptrace %d s1" % c["steps"]]
        r = run_script(exe("gdrv"), L, d, F, cpu=30)
        S = r.dump("s0")
        if "Smoothing length too large, self-interaction" in r.out and S is not None and "p" in c["bc"][:nd]:
            K = kern(c["kernel"], nd)
            if K.R * S.h.max() > 0.2 * c["size"]:      # documented limit: a quarter of the box
                ctx.label("refused: kernel too wide")
                return
        expect_ok(r)
        ctx.label("ndim%d" % nd, "bc_" + "".join(sorted(set(c["bc"][:nd]))), c["tree"], c["kernel"])
        S = r.dump("s0")
        if int(S.Nhydro) != len(A["m"]):
            raise Violation("count", "%d particles after set-up of %d" % (S.Nhydro, len(A["m"])))
        if not verify(c, S, np.ones(int(S.Nhydro), bool), ctx, "after set-up"):
            return
        for k in range(c["steps"]):
            S = r.dump("s1.%d" % k)
            if S is None:
                break
            if c["integ"] == "lfkdk":
                sel = S.nlast == S.n
            else:
                continue
            if sel.any():
                ctx.label("evolved")
                if sel.sum() < len(sel):
                    ctx.label("partly active")
                if not verify(c, S, sel, ctx, "after step %d (%d of %d particles active)" % (k + 1, sel.sum(), len(sel))):
                    return


BCS = ["ooo", "ppp", "mmm", "lro", "pmo", "opm", "mop", "ppo", "rpl"]
CASE = st.fixed_dictionaries(dict(
    p=gen.particles(nmin=20, nmax=160), kernel=st.sampled_from(["m4", "quintic", "gaussian"]), tab=st.sampled_from([0, 0, 0, 1]),
    h_fac=lin(0.9, 1.5), conv=st.sampled_from([1e-10, 1e-10, 1e-6, 0.01]), tree=st.sampled_from(["kdtree", "kdtree", "octtree", "bruteforce"]),
    nleaf=st.integers(1, 12), eos=st.sampled_from(["isothermal", "energy_eqn"]), nlev=st.integers(1, 5), nbuild=st.integers(1, 4),
    integ=st.sampled_from(["lfkdk"]), bc=st.sampled_from(BCS), lo=lin(-2, 2), size=logf(0.3, 30), types=st.sampled_from(["gas", "gas", "cdm", "dust", "all"]),
    hguess=st.sampled_from([0, 0, 0.3, 1.0]), steps=st.integers(0, 6), grav=st.booleans()))

if __name__ == "__main__":
    main("C01", [Sub("density", CASE, check, quick=640, thorough=20000)], builds=[("gdrv", "std")],
         rule="at least one particle has a neighbour other than itself inside its kernel",
         assumptions=["kernel range smaller than half the box along bounded axes"])
