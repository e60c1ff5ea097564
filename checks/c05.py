import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, refkern, lattice
from refkern import kern
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

TECH = "property-based testing (Hypothesis): generated boxes, separations and particle systems; the periodic correction and the gravity of whole runs are compared with independent lattice sums (own Ewald splitting, plane-wise and line-wise sums), with a tolerance from the curvature of the reference over one table cell"
NOTE = "three dimensions, 1, 2 or 3 periodic directions in every orientation, box side ratios up to 3, tables of 6-12 points per half box; grad-h SPH, MFM and stars; runs of up to 40 particles compared through the code's own corrections, translations and total force"
PER = [p for p in itertools.product((0, 1), repeat=3) if sum(p)]


def params(c, sim):
    per = c["per"]
    bc = "".join("p" if p else "o" for p in per)
    P = dict(ndim=3, sim=sim, run_id="A", self_gravity=1, nEwaldGrid=c["grid"], gr_bhewaldseriesn=c["series"], hydro_forces=1, gas_eos="energy_eqn", tend=1e30, dt_snap=1e30, nbody_softening=0, ixmax=3.0, **{"in": 60})
    P.update(gen.bc_params(bc, 3))
    for k in range(3):
        P["boxmin[%d]" % k], P["boxmax[%d]" % k] = c["lo"][k], c["lo"][k] + c["L"][k]
        if not per[k] and not c["isobox"]:
            P.pop("boxmin[%d]" % k), P.pop("boxmax[%d]" % k)
    return P


def boxes(runs=False):
    def full(t):
        per, (la, lb), thin, base, series, grid, iso, lo = t
        k = [i for i in range(3) if per[i]]
        if len(k) == 1:
            grid, series = min(grid, 7 if t[4] == 6 else 5), 3
        if len(k) == 3:
            grid, series = min(grid, 9), min(series, 6)
        if len(k) == 2:
            grid, series = min(grid, 8), series - 1
        L = [0., 0., 0.]
        i = {3: 0, 5: 2, 6: 1}.get(per[0] + 2 * per[1] + 4 * per[2], k[0])      # the side which sets the grid of the isolated directions
        L[i], L[(i + 1) % 3], L[(i + 2) % 3] = base, base * la, base * lb
        if len(k) == 2:
            if thin < 1 and max(la, lb) <= 1:
                L[[j for j in k if j != i][0]] *= thin
                grid = 12
        return dict(per=list(per), base=i, L=L, grid=grid, series=series, isobox=iso, lo=list(lo))
    side = st.sampled_from([1., 1.5, 2., .5, .7, 2.2, .45])
    return st.tuples(st.integers(0, 5).flatmap(lambda q: st.sampled_from([p for p in PER if sum(p) == (1, 2, 2, 2, 3, 3)[q]])), st.tuples(side, side).filter(lambda t: max(t) <= 3.2 * min(t)), st.sampled_from([1., 1., .3, .2]), st.sampled_from([1., 1., 2.3, .1]), st.integers(4, 6), st.integers(6, 9), st.booleans(), st.sampled_from([(0., 0., 0.), (-.5, .2, 3.)])).map(full)


def code_corr(w, c, m, dr, out, stars):
    L, F = sim_lines(params(c, "nbody"), None, stars)
    F["q.f64"] = np.column_stack([m, dr]).ravel()
    return L + ["ewald q.f64 " + out], F


def check_table(c, ctx):
    per, L = c["per"], np.array(c["L"])
    P = [k for k in range(3) if per[k]]
    base = c["base"]
    rs = rng(c["seed"])
    n = 24
    dr = np.zeros((n, 3))
    cell = L[base] / 2 / (c["grid"] - 2)
    for k in range(3):
        if per[k]:
            dr[:, k] = rs.uniform(-.5, .5, n) * L[k] * rs.choice([1, 1, .3, 1.9], n)
        else:
            dr[:, k] = rs.uniform(-1, 1, n) * rs.choice([.3, 1, 2, 2, 4], n) * L[base]
    if c["near"]:
        dr[:5] = rs.uniform(-1, 1, (5, 3)) * cell * .9
        dr[5:8, rs.integers(0, 3)] = 0
    m = np.exp(rs.uniform(-1, 1, n))
    star = dict(coords(np.array([[.1, .2, .3], [.4, .3, .2]]) * L + c["lo"], np.zeros((2, 3))), m=np.ones(2), h=np.ones(2) * .1)
    with Workdir() as w:
        lines, F = code_corr(w, c, m, dr, "o", star)
        res = run_script(exe("gdrv"), lines, w, F, cpu=60)
        expect_ok(res)
        D = res.dump("o")
        o = D["ewald"].reshape(-1, 4) / m[:, None]
        di = 1 / D["di"].ravel()
        ng = D["ngrid"].ravel()
    ctx.label("%d periodic directions" % len(P)); ctx.label("near" if c["near"] else "far")
    # wrapped separation and what the wrap adds
    wr = dr.copy()
    for k in P:
        wr[:, k] -= L[k] * np.round(dr[:, k] / L[k])
    inv = lambda x: 1 / np.sqrt((x ** 2).sum(1) + 1e-20)
    e_pot = inv(wr) - inv(dr)
    e_acc = wr * inv(wr)[:, None] ** 3 - dr * inv(dr)[:, None] ** 3
    far = np.zeros(n, bool)
    for k in range(3):
        if not per[k]:
            far |= np.abs(wr[:, k]) / di[k] >= ng[k] - 1
    ref_p, ref_a = lattice.psi(wr, L, per), lattice.grad(wr, L, per)
    # curvature over a table cell
    cp, ca = np.zeros(n), np.zeros((n, 3))
    for k in range(3):
        for f in (0., .5):
            e = np.zeros(3); e[k] = di[k]
            cen = wr - f * e
            cp = cp + .5 * np.abs(lattice.psi(cen + e, L, per) - 2 * lattice.psi(cen, L, per) + lattice.psi(cen - e, L, per)) / 8
            ca = ca + .5 * np.abs(lattice.grad(cen + e, L, per) - 2 * lattice.grad(cen, L, per) + lattice.grad(cen - e, L, per)) / 8
    lm = min(L[k] for k in P)
    if lm < .4 * L[base]:          # a thin box is poorly resolved by the cells of its long side
        cp, ca = 2.5 * cp, 2.5 * ca
    tp = 1.6 * (cp + .15 * cp.max()) + 2e-4 / lm
    ta = 1.6 * (ca + .2 * ca.max(1)[:, None] + .04 * ca.max()) + 2e-4 / lm ** 2
    z = np.sqrt(sum(wr[:, k] ** 2 for k in range(3) if not per[k])) if len(P) < 3 else np.zeros(n)
    fx = np.exp(-2 * np.pi * z / max(L[P])) * 12 / lm
    tp, ta = np.where(far, fx + 2e-4 / lm, tp), np.where(far[:, None], (fx / lm + 2e-4 / lm ** 2)[:, None], ta)
    ep = o[:, 3] - e_pot - ref_p
    ea = o[:, :3] - e_acc - ref_a
    amp = np.abs(inv(dr))                               # round-off of the parts which cancel
    tp, ta = tp + 1e-9 * amp, ta + (1e-9 * amp ** 2)[:, None]
    off = .5 * (max(ep - tp) + min(ep + tp))          # the constant of the potential is free
    ep = ep - off
    if os.environ.get("C05_DEBUG"):
        print(per, L, "max ratio pot %.2f acc %.2f; far %d" % ((np.abs(ep) / tp).max(), (np.abs(ea) / ta).max(), far.sum()))
    i = int(np.argmax((np.abs(ea) / ta).max(1)))
    if (np.abs(ea) / ta).max() > 1:
        raise Violation("acceleration", "periodic correction %s of a unit mass at %s differs by %s from the lattice sum (tolerance %s), %s" % (o[i, :3], dr[i], ea[i], ta[i], "far" if far[i] else "table"))
    i = int(np.argmax(np.abs(ep) / tp))
    if (np.abs(ep) / tp).max() > 1:
        raise Violation("potential", "periodic correction of the potential %g of a unit mass at %s differs by %g from the lattice sum (tolerance %g), %s" % (o[i, 3], dr[i], ep[i], tp[i], "far" if far[i] else "table"))
    ctx.nontrivial()


def corrections(D, m, n, ns):
    """sum over the other bodies of the code's own corrections -> acceleration (n+ns,3), potential, magnitudes"""
    o = D.reshape(n + ns, n + ns, 4)
    k = np.arange(n, n + ns)
    o[k, k] = 0                    # stars are not given the potential of their own images
    a, p = o[:, :, :3].sum(1), o[:, :, 3].sum(1)
    return a, p, np.abs(o[:, :, :3]).sum((1, 2)), np.abs(o[:, :, 3]).sum(1)


def check_run(c, ctx):
    per, L = c["per"], np.array(c["L"])
    P = [k for k in range(3) if per[k]]
    sim = c["sim"]
    S = gen.system(c["p"])
    rs = S["rs"]
    n, ns = len(S["m"]), c["nstar"]
    lo = np.array(c["lo"])
    wrap = lambda d: d - np.where(per, L * np.round(d / L), 0)
    ext = np.where(per, L, L[c["base"]] * c["tall"])
    # compact clumps (small kernels) anywhere in the box, across its faces too
    lmin = min(L[k] for k in P)
    cen = rs.random((c["clumps"], 3))
    x = cen[rs.integers(0, c["clumps"], n)] * ext + c["spread"] * lmin * (S["r"] - .5)
    r = lo + np.where(per, np.mod(x, L), x)
    m = gen.solvable_mass(S["m"], 1.2, kern(c["kernel"], 3))
    rstar = lo + ext * rs.random((ns, 3))
    gas = dict(coords(r, np.zeros((n, 3))), m=m, u=np.ones(n) * 1e-2, ptype=np.zeros(n))
    star = dict(coords(rstar, np.zeros((ns, 3))), m=m.mean() * np.exp(rs.uniform(-1, 2, ns)), h=L.min() * rs.uniform(.02, .1, ns)) if ns else None
    par = params(c, sim)
    par.update(kernel=c["kernel"], h_fac=1.2 if sim == "gradhsph" else 1.0, h_converge=1e-7, neib_search=c["tree"], Nleafmax=c["nleaf"], thetamaxsqd=c["theta"], gravity_mac="geometric", multipole="quadrupole", zero_mass_flux=1, nbody="lfkdk", nbody_softening=c["soft"], conservative_sph_star_gravity=0, Nlevels=1,
               hydro_forces=0 if sim == "gradhsph" else 1)
    with Workdir() as w:
        lines, F = sim_lines(par, gas, star)
        lines += ["setup", "dump s0"]
        # all pair separations, nearest images
        R, M = np.vstack([r, rstar]), np.concatenate([m, star["m"]] if ns else [m])
        d = wrap(R[None] - R[:, None]).reshape(-1, 3)
        F["q.f64"] = np.column_stack([np.tile(M, n + ns), d]).ravel()
        lines += ["ewald q.f64 o"]
        res = run_script(exe("gdrv"), lines, w, F, cpu=60)
        out = res.err + res.out if isinstance(res.out, str) else res.err
        if res.rc != 0 and ("Smoothing length too large" in out or "too large for the periodic" in out or "box" in out.lower() and "periodic" in out.lower()):
            raise Inconclusive("kernel too large for the box")
        expect_ok(res)
        T = res.dump("s0")
        ca, cp, cas, cps = corrections(res.dump("o")["ewald"], M, n, ns)
    if 4 * refkern.kern(c["kernel"], 3).R * T.h.max() > .99 * L[P].min():
        raise Inconclusive("kernel too large for the box")
    o = np.argsort(T.iorig)
    if np.abs(wrap(T.r[o] - r)).max() > 1e-9 * L.max():
        raise Violation("moved", "set-up moved a particle by other than a box length")
    # the code takes the nearest image of the stored positions; on the middle plane either image is right
    edge = (np.abs(np.abs(d) / L - .5) < 1e-9) & np.array(per, bool)
    if edge.any():
        raise Inconclusive("pair half a box apart")
    idx = T.iorig.astype(int)
    c4 = dict(c, p=dict(ndim=3), soft=c["soft"])
    import c04
    a, pot, sc, sa, sp, ssc = c04.reference(c4, T, wrap)
    a, sa = a + ca[:n][idx], sa + ca[n:]
    pot, sp = pot + cp[:n][idx], sp + cp[n:]
    sc, ssc = sc + cas[:n][idx], ssc + cas[n:]
    psc = np.abs(pot - cp[:n][idx]) + cps[:n][idx]
    ctx.label("%d periodic directions" % len(P), sim, c["tree"], "stars" if ns else "gas")
    exact = c["theta"] < 1e-9
    tol = 1e-8 if exact else 1.5 * c["theta"] ** 1.5
    e = np.sqrt(((T.atree - a) ** 2).sum(1)) / sc
    if os.environ.get("C05_DEBUG"):
        print(per, sim, c["theta"], "acc %.2e pot %.2e star %s %s" % (e.max(), (np.abs(T.gpot - pot) / psc).max(), np.sqrt(((T.s_a - sa) ** 2).sum(1)) / ssc if ns else "", np.abs(T.s_gpot - sp)/sp if ns else ""))
    i = int(np.argmax(e))
    if not e.max() <= tol:
        if os.environ.get("C05_DEBUG"): print("h", T.h[i], T.h.max(), "theta", c["theta"], "excess", (T.atree[i]-a[i]), "pairs", [(round(float(np.sqrt((wrap(T.r[q]-T.r[i])**2).sum())),4), round(float(T.r[q,2]),3)) for q in range(len(T.m))])
        raise Violation("run-acc", "%s %s: particle %d at %s: gravity %s, direct sum with periodic corrections %s" % (sim, c["tree"], i, T.r[i], T.atree[i], a[i]))
    e = np.abs(T.gpot - pot) / psc
    i = int(np.argmax(e))
    if not e.max() <= tol:
        raise Violation("run-pot", "%s %s: particle %d at %s: potential %.10g, direct sum with periodic corrections %.10g" % (sim, c["tree"], i, T.r[i], T.gpot[i], pot[i]))
    if ns:
        e = np.sqrt(((T.s_a - sa) ** 2).sum(1)) / ssc
        if not e.max() <= tol:
            i = int(np.argmax(e))
            raise Violation("run-star-acc", "%s: star %d at %s: gravity %s, direct sum with periodic corrections %s" % (sim, i, T.s_r[i], T.s_a[i], sa[i]))
        e = np.abs(T.s_gpot - sp) / (np.abs(sp - cp[n:]) + cps[n:])
        if not e.max() <= tol:
            i = int(np.argmax(e))
            raise Violation("run-star-pot", "%s: star %d at %s: potential %.10g, direct sum with periodic corrections %.10g" % (sim, i, T.s_r[i], T.s_gpot[i], sp[i]))
    f = (T.m[:, None] * T.atree).sum(0) + ((T.s_m[:, None] * T.s_a).sum(0) if ns else 0)
    if exact and sim == "gradhsph" and np.abs(f).max() > 1e-8 * ((T.m * sc).sum() + ((T.s_m * ssc).sum() if ns else 0)):
        raise Violation("momentum", "%s: total gravitational force %s of %d particles and %d stars in a box periodic along %s" % (sim, f, n, ns, P))
    ctx.nontrivial()


table = st.builds(lambda b, near, seed: dict(b, near=near, seed=seed), boxes(), st.booleans(), st.integers(0, 2 ** 31))
run = st.builds(lambda b, x: dict(b, **x), boxes(True), st.fixed_dictionaries(dict(p=gen.particles(nmin=24, nmax=110, ndims=(3,)), kernel=st.sampled_from(["m4", "m4", "quintic"]), sim=st.sampled_from(["gradhsph", "gradhsph", "mfvmuscl"]), tree=st.sampled_from(["kdtree", "kdtree", "octtree", "bruteforce"]),
                nleaf=st.integers(1, 8), theta=st.sampled_from([1e-30, 1e-30, .05, .2]), nstar=st.sampled_from([0, 1, 3]), soft=st.sampled_from([0, 1]), clumps=st.integers(1, 3), spread=lin(.02, .2), tall=st.sampled_from([.7, 1., 2.5]))))
SUBS = [Sub("run", run, check_run, quick=40, thorough=1500, shards=8), Sub("table", table, check_table, quick=30, thorough=800, shards=7)]
if __name__ == "__main__":
    main("C05", SUBS, builds=[("gdrv", "std")], rule="the corrections of at least 24 separations, or the gravity of a whole run, were compared with the reference", assumptions=[])
