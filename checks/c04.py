import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, sphref
from refkern import kern

TECH = "property-based testing (Hypothesis): direct O(N^2) softened gravity reference, exactly opened tree and bounded-error tree walks, multipole functions against direct sums"
NOTE = "generated mass distributions, trees, leaf sizes, opening criteria, multipoles, SPH and MFV, gas+dark matter+stars"


def params(c):
    nd = c["p"]["ndim"]
    P = dict(sim=c["sim"], ndim=nd, kernel=c["kernel"], tabulated_kernel=0, h_fac=1.2 if c["sim"] == "gradhsph" else 1.0, h_converge=1e-7, neib_search=c["tree"], Nleafmax=c["nleaf"],
             gas_eos="energy_eqn", gamma_eos=1.4, hydro_forces=1 if c["sim"] != "gradhsph" else c["hydro"], self_gravity=1, Nlevels=c["nlev"], ntreebuildstep=c["nbuild"], ntreestockstep=1,
             avisc="mon97", sph_integration="lfkdk", nbody="lfkdk", nbody_softening=c["soft"], thetamaxsqd=c["theta"], macerror=c["macerr"],
             gravity_mac=c["mac"], multipole=c["mp"], zero_mass_flux=1, conservative_sph_star_gravity=0, level_diff_max=100)
    return P


def fields(c):
    nd = c["p"]["ndim"]
    s = gen.system(c["p"])
    rs = s["rs"]
    n = len(s["m"])
    t = np.zeros(n)
    if c["cdm"]:
        t[rs.random(n) < 0.4] = 2
        t[0] = 0
    K = kern(c["kernel"], nd)
    A = coords(c["lo"] + c["size"] * s["r"], s["v"])
    A.update(m=gen.solvable_mass(s["m"], 1.2, K), u=s["u"], ptype=t)
    star = None
    if c["nstar"]:
        q = rs.random((c["nstar"], nd))
        star = coords(c["lo"] + c["size"] * q, rs.standard_normal((c["nstar"], nd)))
        star.update(m=10 ** rs.uniform(-2, 0, c["nstar"]), h=c["size"] * 10 ** rs.uniform(-2, -0.5, c["nstar"]))
    return A, star


def run(c, P=None):
    A, star = fields(c)
    d = Workdir()
    with d as w:
        L, F = sim_lines(P or params(c), A, star)
        L += ["setup", "dump s0"]
        if c["steps"] and c["sim"] == "gradhsph":
            L += ["steptrace %d s1" % c["steps"]]
        r = run_script(exe("gdrv"), L, w, F, cpu=30)
        out = [r.dump("s0")] + [r.dump("s1.%d" % k) for k in range(c["steps"] if c["sim"] == "gradhsph" else 0)]
    if r.rc == -6 and "isfinite(amag)" in r.err and out[0] is not None:
        last = [o for o in out if o is not None][-1]
        if ((last.u0 + last.dudt0 * last.dt) <= 0.02 * last.u0).any():
            raise Inconclusive("internal energy exhausted")
    if r.rc == -6 and "pow(2,level_step - part.level)" in r.err and c["p"]["kind"] in ("pairs", "plummer"):
        raise Inconclusive("step ratio beyond 2**31")  # an encounter needing more levels than the 32-bit step counter holds (the hierarchy itself is C08's)
    expect_ok(r)
    return [o for o in out if o is not None]


def reference(c, S, wrap=lambda d: d):
    """-> a, pot, force scale, potential scale for particles; a for stars from the gas, scale."""
    nd = c["p"]["ndim"]
    K = kern(c["kernel"], nd)
    n = len(S.m)
    eps = 1e-20
    live = S.m > 0
    a, pot, sc = np.zeros((n, nd)), np.zeros(n), np.zeros(n)
    w1 = lambda s: K.w1(s)
    mfv = c["sim"] != "gradhsph"
    psc = np.zeros(n)
    for i in range(n):
        d = wrap(S.r - S.r[i])
        r = np.sqrt((d ** 2).sum(1) + eps)
        o = np.arange(n) != i
        d, r, h, m, z = d[o], r[o], S.h[o], S.m[o], S.zeta[o]
        e = d / r[:, None]
        si, sj = r / S.h[i], r / h
        gi, gj = m * K.wgrav(si) / S.h[i] ** 2, m * K.wgrav(sj) / h ** 2
        if mfv:
            zi, zj = S.zeta[i] * w1(si) / S.h[i] ** (nd + 1) / S.m[i], z * w1(sj) / h ** (nd + 1) / S.m[i]
            # corrections are sourced by number density, not mass
            f = 0.5 * (gi + gj + zi + zj)
            zs = np.abs(zi) + np.abs(zj)
        else:
            zi, zj = m * S.zeta[i] * w1(si) / S.h[i] ** (nd + 1), m * z * w1(sj) / h ** (nd + 1)
            f = 0.5 * (gi + gj + zi + zj)
            zs = np.abs(zi) + np.abs(zj)
        p = 0.5 * m * (K.wpot(si) / S.h[i] + K.wpot(sj) / h)
        a[i] = (f[:, None] * e).sum(0)
        sc[i] = (gi + gj).sum() * 0.5 + zs.sum() * 0.5
        pot[i] = p.sum() + S.m[i] / S.h[i] * K.wpot(np.array([1e-300]))[0]
        if c["nstar"]:
            d = wrap(S.s_r - S.r[i])
            r = np.sqrt((d ** 2).sum(1) + eps)
            hm = 0.5 * (S.h[i] + S.s_h)
            f = S.s_m * K.wgrav(r / hm) / hm ** 2
            a[i] += (f[:, None] * d / r[:, None]).sum(0)
            sc[i] += f.sum()
            pot[i] += (S.s_m * K.wpot(r / hm) / hm).sum()
    ns = c["nstar"]
    sa, ssc, sp = np.zeros((ns, nd)), np.zeros(ns), np.zeros(ns)
    for i in range(ns):
        d = wrap(S.r - S.s_r[i])
        r = np.sqrt((d ** 2).sum(1) + 1e-40)
        hm = 0.5 * (S.h + S.s_h[i])
        f = S.m * K.wgrav(r / hm) / hm ** 2
        sa[i] = (f[:, None] * d / r[:, None]).sum(0)
        ssc[i] = f.sum()
        sp[i] = (S.m * K.wpot(r / hm) / hm).sum()
        d = wrap(np.delete(S.s_r, i, 0) - S.s_r[i])
        m, h = np.delete(S.s_m, i), np.delete(S.s_h, i)
        r = np.sqrt((d ** 2).sum(1) + eps)
        if c["soft"]:
            hm = 0.5 * (h + S.s_h[i])
            f, p = m * K.wgrav(r / hm) / hm ** 2, m * K.wpot(r / hm) / hm
        else:
            f, p = m / r ** 2, m / r
        sa[i] += (f[:, None] * d / r[:, None]).sum(0)
        ssc[i] += f.sum()
        sp[i] += p.sum()
    return a, pot, sc, sa, sp, ssc


def compare(c, S, sel, ctx, what, tol, ptol):
    a, pot, sc, sa, sp, ssc = reference(c, S)
    mine = S.atree
    soft = 1e-20 / np.maximum(np.sort(((S.r[:, None] - S.r[None]) ** 2).sum(2), axis=1)[:, 1], 1e-21)
    err = np.where(sel, np.maximum(np.sqrt(((mine - a) ** 2).sum(1)) / sc - soft, 0), 0)
    if not np.isfinite(err).all() or err.max() > tol:
        i = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
        raise Violation("acc", "%s: particle %d (type %d): gravity %s, direct sum %s, error %.3g of the sum of magnitudes" % (what, i, S.ptype[i], mine[i], a[i], err[i]))
    # the code adds 1e-20 to some squared separations and not to others
    soft = 1e-20 / np.maximum(np.sort(((S.r[:, None] - S.r[None]) ** 2).sum(2), axis=1)[:, 1], 1e-21)
    pe = np.where(sel, np.maximum(np.abs(S.gpot - pot) / pot - soft, 0), 0)
    if not np.isfinite(pe).all() or pe.max() > ptol:
        i = int(np.argmax(np.where(np.isfinite(pe), pe, np.inf)))
        raise Violation("pot", "%s: particle %d (type %d): potential %.12g, direct sum %.12g" % (what, i, S.ptype[i], S.gpot[i], pot[i]))
    es = ps = 0.0
    if c["nstar"] and (sel.all() or what == "after set-up"):
        es = (np.sqrt(((S.s_a - sa) ** 2).sum(1)) / ssc)
        if es.max() > tol:
            i = int(np.argmax(es))
            raise Violation("star-acc", "%s: star %d: gravity %s, direct sum %s, error %.3g" % (what, i, S.s_a[i], sa[i], es[i]))
        ps = np.abs(S.s_gpot - sp) / sp
        if ps.max() > ptol:
            i = int(np.argmax(ps))
            raise Violation("star-pot", "%s: star %d: potential %.12g, direct sum %.12g" % (what, i, S.s_gpot[i], sp[i]))
    return np.sqrt((err ** 2).mean()), pe.max(), np.max(es)


def exact(c, ctx):
    states = run(c)
    S = states[0]
    ctx.label(c["sim"], c["tree"], c["mac"], c["mp"], "ndim%d" % c["p"]["ndim"], "stars" if c["nstar"] else "no stars", "cdm" if (S.ptype == 2).any() else "gas")
    ctx.nontrivial(len(S.m) > 1)
    compare(c, S, np.ones(len(S.m), bool), ctx, "after set-up", 1e-8, 1e-7)
    if not c["nstar"] and c["sim"] == "gradhsph":
        f = (S.m[:, None] * S.atree).sum(0)
        if np.abs(f).max() > 1e-9 * (S.m * np.sqrt((S.atree ** 2).sum(1))).sum():
            raise Violation("momentum", "total gravitational force %s" % f)
    for k, S in enumerate(states[1:]):
        sel = S.nlast == S.n
        if sel.any() and c["sim"] == "gradhsph":
            ctx.label("evolved")
            compare(c, S, sel, ctx, "after step %d" % (k + 1), 1e-8, 1e-7)


BASE = dict(p=gen.particles(nmin=24, nmax=160), kernel=st.sampled_from(["m4", "m4", "quintic"]), sim=st.sampled_from(["gradhsph", "gradhsph", "mfvmuscl", "mfvrk"]), hydro=st.sampled_from([1, 1, 0]),
            tree=st.sampled_from(["kdtree", "kdtree", "octtree", "bruteforce"]), nleaf=st.integers(1, 12), nlev=st.integers(1, 4), nbuild=st.integers(1, 4), soft=st.sampled_from([0, 1]),
            mac=st.sampled_from(["geometric", "eigenmac", "gadget2"]), mp=st.sampled_from(["monopole", "quadrupole", "fast_monopole", "fast_quadrupole"]), cdm=st.booleans(), nstar=st.sampled_from([0, 0, 1, 3]),
            steps=st.sampled_from([0, 0, 3]), theta=st.just(1e-30), macerr=st.just(1e-4), lo=lin(-2, 2), size=logf(0.3, 30))
EXACT = st.fixed_dictionaries(BASE)
THETA = st.fixed_dictionaries(dict(BASE, p=gen.particles(nmin=100, nmax=400), theta=logf(1e-3, 0.3), macerr=logf(1e-6, 1e-2)))

# ---- multipole functions against formulae, direct sums and their own Taylor expansion
def mpole(c, ctx):
    nd = c["nd"]
    rs = np.random.default_rng(c["seed"])
    n1 = {1: 2, 2: 3, 3: 5}[nd]
    unit = lambda: (lambda x: x / np.sqrt((x * x).sum()))(rs.standard_normal(nd))
    inp, src = [nd, c["nc"]], []
    rc = c["off"] * rs.standard_normal(nd) * c["size"]
    for _ in range(c["nc"]):
        R = c["size"] * c["open"]
        x = rc + unit() * c["size"] * rs.uniform(1, 3) + R * rs.uniform(-1, 1, (c["np"], nd)) / np.sqrt(nd)
        m = 10 ** rs.uniform(-1, 1, c["np"])
        com = (m[:, None] * x).sum(0) / m.sum()
        d = x - com
        Q = 3 * np.einsum("p,pi,pj->ij", m, d, d) - np.eye(nd) * (m * (d * d).sum(1)).sum()
        q = [Q[0, 0], 0, 0, 0, 0]
        if nd > 1:
            q[1:3] = Q[0, 1], Q[1, 1]
        if nd > 2:
            q[3:] = Q[0, 2], Q[1, 2]
        inp += [*com, m.sum(), *q]
        src.append((com, m, x, Q, np.sqrt((d * d).sum(1)).max()))
    delta = c["delta"] * c["size"]
    pts = np.array([rc] + [rc + delta * unit() for _ in range(3)])
    inp += [*rc, len(pts), *pts.ravel()]
    with Workdir() as w:
        np.array(inp, float).tofile(os.path.join(w, "in"))
        expect_ok(run_exe(exe("mpole"), ["in", "out"], w, cpu=20))
        out = np.fromfile(os.path.join(w, "out")).reshape(len(pts), 4, 1 + nd)
    ctx.label("ndim%d" % nd, "multi-cell" if c["nc"] > 1 else "one cell")
    ctx.nontrivial(c["np"] > 1)
    for k, p in enumerate(pts):
        mono, quad, direct, sa, sp, bm, bq, bt = (np.zeros(1 + nd) for _ in range(8))
        for com, m, x, Q, R in src:
            dr = p - com
            d = np.sqrt((dr * dr).sum())
            M = m.sum()
            mv = np.array([M / d, *(-M * dr / d ** 3)])
            s = dr @ Q @ dr
            qv = np.array([0.5 * s / d ** 5, *(Q @ dr / d ** 5 - 2.5 * s * dr / d ** 7)])
            mono += mv
            quad += mv + qv
            e = x - p
            r = np.sqrt((e * e).sum(1))
            direct += np.array([(m / r).sum(), *((m / r ** 3)[:, None] * e).sum(0)])
            t = R / d
            sc = np.array([M / d] + [M / d ** 2] * nd)
            sa += sc
            bm += sc * (t ** 2 / (1 - t)) * np.array([1] + [4 * (1 / (1 - t))] * nd)
            bq += sc * (t ** 3 / (1 - t)) * np.array([1] + [6 * (1 / (1 - t))] * nd)
            u = np.sqrt(((p - rc) ** 2).sum()) / d
            bt += sc * u ** 2 * 30
        for nm, got, ref, tol in (("monopole", out[k, 0], mono, 1e-12 * sa), ("quadrupole", out[k, 1], quad, 1e-12 * sa), ("monopole-direct", out[k, 0], direct, bm + 1e-10 * sa), ("quadrupole-direct", out[k, 1], direct, bq + 1e-10 * sa),
                                  ("fast-monopole", out[k, 2], mono, 1e-12 * sa + bt), ("fast-quadrupole", out[k, 3], quad, 1e-12 * sa + bt)):
            if not (np.abs(got - ref) <= tol).all():
                raise Violation("mpole-" + nm, "%s at point %d (offset %.3g): (pot, a) = %s, reference %s, allowed %s" % (nm, k, np.sqrt(((p - rc) ** 2).sum()), got, ref, tol))


# ---- approximate walks: bounded error
# The error of an accepted cell is O(theta^2) (monopole) or O(theta^3) of its force.  The constants are about 5 and 10 times the largest error seen
# over thousands of clustered and anisotropic systems.  The Taylor expansions of fast_* are about the target cell, whose size the criterion ignores: only a sanity bound.


def theta(c, ctx):
    S = run(dict(c, steps=0))[0]
    a, pot, sc, sa, sp, ssc = reference(c, S)
    e = np.sqrt(((S.atree - a) ** 2).sum(1)) / sc
    p = np.abs(S.gpot - pot) / pot
    es = np.sqrt(((S.s_a - sa) ** 2).sum(1)) / ssc if c["nstar"] else np.zeros(1)
    ctx.label(c["sim"], c["tree"], c["mac"], c["mp"], "ndim%d" % c["p"]["ndim"])
    ctx.nontrivial(e.max() > 1e-10)
    if os.environ.get("CAL"):
        with open(os.environ["CAL"], "a") as f:
            f.write(json.dumps([c["mac"], c["mp"], c["p"]["ndim"], c["theta"], c["macerr"], np.sqrt((e ** 2).mean()), e.max(), p.max(), es.max(), c["tree"], c["sim"], len(e)]) + "\n")
        return
    lim = {"monopole": 3 * c["theta"], "quadrupole": 1.5 * c["theta"] ** 1.5}.get(c["mp"], 0.5 + 3 * c["theta"])
    for nm, v in (("rms", np.sqrt((e ** 2).mean()) * 2), ("max", e.max()), ("pot", p.max()), ("star", es.max())):
        if not v <= lim:
            raise Violation("theta-" + nm, "%s %s thetamaxsqd=%.3g macerror=%.3g: %s error %.3g of the sum of magnitudes, bound %.3g" % (c["mac"], c["mp"], c["theta"], c["macerr"], nm, v, lim))


MP = st.fixed_dictionaries(dict(nd=st.sampled_from([1, 2, 3, 3]), nc=st.integers(1, 4), np=st.integers(1, 8), open=logf(1e-3, 0.5), off=lin(0, 3), size=logf(1e-3, 1e3), delta=logf(1e-5, 0.1), seed=st.integers(0, 2 ** 31)))
if __name__ == "__main__":
    main("C04", [Sub("exact", EXACT, exact, quick=300, thorough=8000), Sub("mpole", MP, mpole, quick=400, thorough=20000), Sub("theta", THETA, theta, quick=150, thorough=6000)], builds=[("gdrv", "std"), ("mpole", "std")], rule="more than one particle")
