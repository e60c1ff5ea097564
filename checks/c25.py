import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *

TECH = "property-based testing (Hypothesis): generated fields of isolated single stars, bound and unbound pairs, hierarchical triples and pairs of pairs with random orbital elements and orientations; the reported orbits are compared with the elements the systems were built from and with the two-body formulas evaluated on the stars"
NOTE = "2-3 dimensions; 1 to ~40 stars in random order; mass ratios to 100, eccentricities 0-0.95, hyperbolic pairs, any phase; statistics at start and after integration steps; pure N-body and hybrid runs with and without gas; softened and unsoftened; code and physical units; also unstructured clusters (structural invariants only)"


def kepler(rs, m1, m2, a, e, nd):
    """relative position and velocity on an orbit (a>0,e<1 bound; a<0,e>1 unbound), random phase and orientation"""
    M = m1 + m2
    if e < 1:
        E = rs.uniform(0, 2 * np.pi)
        x, y = a * (np.cos(E) - e), a * np.sqrt(1 - e * e) * np.sin(E)
        r = a * (1 - e * np.cos(E))
        f = np.sqrt(M * a) / r
        vx, vy = -f * np.sin(E), f * np.sqrt(1 - e * e) * np.cos(E)
    else:
        H = rs.uniform(-1.5, 1.5)
        A = -a
        x, y = A * (e - np.cosh(H)), A * np.sqrt(e * e - 1) * np.sinh(H)
        r = A * (e * np.cosh(H) - 1)
        f = np.sqrt(M * A) / r
        vx, vy = -f * np.sinh(H), f * np.sqrt(e * e - 1) * np.cosh(H)
    d, v = np.array([x, y, 0.]), np.array([vx, vy, 0.])
    if nd == 3:
        Q, _ = np.linalg.qr(rs.normal(size=(3, 3)))
    else:
        t = rs.uniform(0, 2 * np.pi)
        Q = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.]])
        if rs.random() < .5:
            Q = Q @ np.diag([1., -1, 1])
    return (Q @ d)[:nd], (Q @ v)[:nd], r


def pair(A, B, rs, a, e, nd):
    """combine two systems (m, r[n], v[n]) into one around their centre of mass"""
    m1, m2 = A[0].sum(), B[0].sum()
    d, v, r = kepler(rs, m1, m2, a, e, nd)
    M = m1 + m2
    return (np.concatenate([A[0], B[0]]), np.concatenate([A[1] + d * m2 / M, B[1] - d * m1 / M]), np.concatenate([A[2] + v * m2 / M, B[2] - v * m1 / M])), r


def single(rs, nd, m):
    return np.array([m]), np.zeros((1, nd)), np.zeros((1, nd))


def build(c):
    rs = rng(c["seed"])
    nd = c["ndim"]
    M, R, V, EXP, gid = [], [], [], [], []
    n = 0
    D = 1e9 if c["steps"] == 0 else 1e6      # evolved fields hold pairs only
    for g, it in enumerate(c["items"]):
        ms = [10 ** rs.uniform(-c["mspread"], 0) for _ in range(4)]
        kind = it["kind"]
        if c["steps"]:
            kind = {"triple": "binary", "quad": "unbound"}.get(kind, kind)
            if g == 0:
                kind = "binary"      # bounds the time step
        a, e = 10 ** it["a"], it["e"]
        exp = []
        if kind == "single":
            S = single(rs, nd, ms[0])
        elif kind in ("binary", "unbound"):
            if kind == "unbound":
                e = 1 + 3 * e + .05
                a = -a
            S, r = pair(single(rs, nd, ms[0]), single(rs, nd, ms[1]), rs, a, e, nd)
            if kind == "binary":
                exp.append(((n,), (n + 1,), a, e))
        elif kind == "triple":
            ao = a * c["ratio"] * 400 * sum(ms) / min(ms)
            S1, _ = pair(single(rs, nd, ms[0]), single(rs, nd, ms[1]), rs, a, e, nd)
            exp.append(((n,), (n + 1,), a, e))
            eo = min(.5, it["e2"])
            S, _ = pair(S1, single(rs, nd, ms[2]), rs, ao, eo, nd)
            exp.append(((n, n + 1), (n + 2,), ao, eo))
        else:
            ao = a * c["ratio"] * 400 * sum(ms) / min(ms)
            S1, _ = pair(single(rs, nd, ms[0]), single(rs, nd, ms[1]), rs, a, e, nd)
            S2, _ = pair(single(rs, nd, ms[2]), single(rs, nd, ms[3]), rs, a * rs.uniform(.7, 1), it["e2"], nd)
            exp.append(((n,), (n + 1,), a, e))
            exp.append(((n + 2,), (n + 3,), None, it["e2"]))
            eo = min(.5, it["e2"])
            S, _ = pair(S1, S2, rs, ao, eo, nd)
            exp.append(((n, n + 1), (n + 2, n + 3), ao, eo))
        c0 = rs.uniform(-D, D, nd)
        v0 = rs.normal(size=nd) * (10 if c["steps"] == 0 else 100)
        M.append(S[0]), R.append(S[1] + c0), V.append(S[2] + v0)
        n += len(S[0])
        EXP += exp
        gid += [g] * len(S[0])
    M, R, V = np.concatenate(M), np.concatenate(R), np.concatenate(V)
    perm = rs.permutation(n)        # star k of the file is planted star perm[k]
    inv = np.argsort(perm)
    EXP = [(frozenset(int(inv[i]) for i in A), frozenset(int(inv[i]) for i in B), a, e) for A, B, a, e in EXP]
    return rs, M[perm], R[perm], V[perm], EXP, np.array(gid)[perm]


def elements(m, r, v, A, B, nd):
    A, B = sorted(A), sorted(B)
    mA, mB = m[A].sum(), m[B].sum()
    cm = lambda x, I: x[I[0]] if len(I) == 1 else (m[I, None] * x[I]).sum(0) / m[I].sum()
    d, w = cm(r, A) - cm(r, B), cm(v, A) - cm(v, B)
    M, mu = mA + mB, mA * mB / (mA + mB)
    D = np.sqrt((d ** 2).sum())
    en = .5 * (w ** 2).sum() - M / D
    L = np.zeros(3)
    if nd == 2:
        L[2] = d[0] * w[1] - d[1] * w[0]
    else:
        L = np.cross(d, w)
    a = -.5 * M / en
    x = 1 - (L ** 2).sum() / (M * a)
    return dict(m=M, q=min(mA, mB) / max(mA, mB), sma=a, binen=en, ecc=np.sqrt(max(0, x)), e2=x, period=2 * np.pi * np.sqrt(a ** 3 / M) if a > 0 else np.nan, L=mu * L, r=(mA * cm(r, A) + mB * cm(r, B)) / M, v=(mA * cm(v, A) + mB * cm(v, B)) / M, D=D)


def report(s, ns, nd, key=""):
    """reported orbits -> list of (starsA, starsB, row); node numbers are resolved through pairs of reported nodes"""
    no = int(np.ravel(s.Norbit)[0])
    O = np.asarray(s.orbit).reshape(-1, 17)[:no] if no else np.zeros((0, 17))
    return O


def check_state(s, c, nd, EXP, where):
    ns = int(np.ravel(s.Nstar)[0])
    m, r, v = s["s_m"], s["s_r"].reshape(ns, nd), s["s_v"].reshape(ns, nd)
    O = report(s, ns, nd)
    nb = [int(np.ravel(s[k])[0]) for k in ("Nbinary", "Ntriple", "Nquadruple")]
    if len(O) != sum(nb):
        raise Violation("counts", "%s: %d orbits but %s binaries, triples, quadruples" % (where, len(O), nb))
    seen = {}
    bins = []
    for o in O:
        i, j = int(o[0]), int(o[1])
        if i < ns and j < ns:
            for x in (i, j):
                if x in seen:
                    raise Violation("twice", "%s: star %d is a component of two binaries, %s and %s" % (where, x, seen[x], (i, j)))
                seen[x] = (i, j)
            bins.append((frozenset([i]), frozenset([j]), o))
        if not o[7] < 0:
            raise Violation("unbound", "%s: reported orbit of nodes %d, %d has energy %.6g" % (where, i, j, o[7]))
    # every reported binary has the elements of its two stars
    for A, B, o in bins:
        compare(o, elements(m, r, v, A, B, nd), where + ": binary of stars %s" % sorted(A | B), nd)
    return m, r, v, O, bins, nb


def compare(o, E, what, nd):
    tol = 1e-7
    amp = E["m"] / E["D"] / abs(E["binen"])     # cancellation in the energy
    for k, x, t in (("m", o[2], 0), ("q", o[5], 0), ("sma", o[6], amp), ("binen", o[7], amp), ("period", o[4], 1.5 * amp)):
        if not abs(x - E[k]) <= (tol + 1e-10 * t) * abs(E[k]):
            raise Violation("orbit_" + k, "%s: %s is reported as %.10g, its orbit has %.10g" % (what, k, x, E[k]))
    if not abs(o[3] ** 2 - max(0, E["e2"])) <= 1e-6 + 1e-9 * amp:
        raise Violation("orbit_ecc", "%s: eccentricity is reported as %.10g, its orbit has %.10g" % (what, o[3], E["ecc"]))
    L = np.asarray(o[14:17])
    ks = [2] if nd == 2 else [0, 1, 2]
    sg = min((np.abs(L - E["L"])[ks]).max(), (np.abs(L + E["L"])[ks]).max() * np.inf)
    if not sg <= 1e-7 * np.sqrt((E["L"] ** 2).sum()) + 1e-7 * np.sqrt(E["m"] * abs(E["sma"])) * E["m"]:
        raise Violation("orbit_angmom", "%s: orbital angular momentum is reported as %s, the stars have %s" % (what, L, E["L"]))
    for k, p in (("r", 8), ("v", 11)):
        x = np.asarray(o[p:p + nd])
        if not np.abs(x - E[k]).max() <= 1e-9 * (1 + np.abs(E[k]).max()):
            raise Violation("orbit_" + k, "%s: centre of mass %s is reported as %s instead of %s" % (what, k, x, E[k]))


def dump_runs(c, ctx, m, r, v, rs, nsteps):
    nd = c["ndim"]
    P = dict(ndim=nd, sim=c["sim"], nbody=c["nbody"] if c["sim"] == "nbody" else "lfkdk", run_id="A", binary_stats=1, nbody_softening=int(c["soft"]), Nlevels=c["levels"], nbody_mult=.03, sub_systems=0, ndiagstep=1, noutputstep=10 ** 6, dt_snap=1e99, tsnapfirst=1e99, tend=1e99, nsystembuildstep=1)
    for k in range(nd):
        P["boundary_lhs[%d]" % k] = P["boundary_rhs[%d]" % k] = "open"
        P["boxmin[%d]" % k], P["boxmax[%d]" % k] = -1e11, 1e11
    arr = None
    if c["sim"] != "nbody":
        # a distant light cloud of gas
        n = 40
        P.update(hydro_forces=1, self_gravity=int(c["grav"]), gas_eos="isothermal", temp0=1.0, mu_bar=1.0, h_fac=1.2)
        arr = dict(coords(rs.uniform(-1, 1, (n, nd)) * 10 + 4e10, np.zeros((n, nd))), m=np.full(n, 1e-9), u=np.ones(n))
    if c["units"]:
        P.update(dimensionless=0, routunit="au", moutunit="m_sun", toutunit="yr", voutunit="km_s", rinunit="", minunit="")
        for k in ("rinunit", "minunit"):
            P.pop(k)
    h = 1e-6 if c["soft"] else .1
    star = dict(coords(r, v), m=m, h=np.full(len(m), h))
    with Workdir() as w:
        L, F = sim_lines(P, arr, star)
        res = run_script(exe("gdrv"), L + ["setup", "diag", "dump S0", "run %d" % nsteps if nsteps else "mark x", "dump S1", "recorddiag"], w, F, cpu=25)
        if res.hang:
            if os.environ.get("DBG"):
                sys.stderr.write("HANG " + repr(c) + "\n")
            raise Inconclusive("slow")
        if res.rc:
            raise Violation("crash", "run with binary statistics fails: " + res.tail()[-300:])
        return [res.dump("S0"), res.dump("S1")]


def planted(c, ctx):
    rs, m, r, v, EXP, gid = build(c)
    nd = c["ndim"]
    ns = len(m)
    kinds = [i["kind"] for i in c["items"]]
    ctx.label(c["sim"], "%dd" % nd, *sorted(set(kinds)))
    ctx.nontrivial(len(EXP) > 0 and len(c["items"]) > 1)
    D = dump_runs(c, ctx, m, r, v, rs, c["steps"])
    for s, where in zip(D, ("at start", "after %d steps" % c["steps"])):
        M, R, V, O, bins, nb = check_state(s, c, nd, EXP, where)
        if int(np.ravel(s.nresync)[0]) and int(np.ravel(s.n)[0]) % int(np.ravel(s.nresync)[0]):
            ctx.label("unsynchronised end")     # potentials belong to different times
            continue
        # isolation of each planted system in the actual state decides what must be reported
        inner = [e for e in EXP if len(e[0]) == 1 and len(e[1]) == 1]
        outer = [e for e in EXP if not (len(e[0]) == 1 and len(e[1]) == 1)]
        have = {frozenset(A | B) for A, B, o in bins}
        want = {frozenset(A | B) for A, B, a, e in inner}
        for x in sorted(want - have, key=sorted):
            raise Violation("missing", "%s: bound pair of stars %s is not reported (reported: %s)" % (where, sorted(x), sorted(sorted(q) for q in have)))
        for x in sorted(have - want, key=sorted):
            raise Violation("spurious", "%s: stars %s are reported as a binary but were generated %s" % (where, sorted(x), "in different systems" if len({int(gid[i]) for i in x}) > 1 else "unbound"))
        if where != "at start":
            continue        # weak outer orbits are lost in the truncation error of the inner potentials
        nt = sum(1 for e in outer if len(e[0] | e[1]) == 3)
        nq = sum(1 for e in outer if len(e[0] | e[1]) == 4)
        if nb != [len(inner), nt, nq]:
            raise Violation("hierarchy", "%s: %s binary, triple and quadruple orbits reported, %s generated" % (where, nb, [len(inner), nt, nq]))
        rest = [o for o in O if not (o[0] < ns and o[1] < ns)]
        for A, B, a, e in outer:
            E = elements(M, R, V, A, B, nd)
            best = min(rest, key=lambda o: abs(o[6] / E["sma"] - 1) + np.abs(np.asarray(o[8:8 + nd]) - E["r"]).max() / E["sma"])
            compare(best, E, "%s: outer orbit of %s around %s" % (where, sorted(A), sorted(B)), nd)
        if where == "at start":
            for A, B, a, e in EXP:
                if a is None or len(A | B) != 2:
                    continue
                o = [o for x, y, o in bins if frozenset(x | y) == frozenset(A | B)][0]
                # positions of the pair are known to about 1e-16 of the field size
                if not abs(o[6] / a - 1) <= 1e-6 + 1e-5 / (a * (1 - e)):
                    raise Violation("element_sma", "%s: pair %s was generated with a=%.9g, reported %.9g" % (where, sorted(A | B), a, o[6]))
                if not abs(o[3] - e) <= 1e-4 + 1e-5 / (a * (1 - e)) and not abs(o[3] ** 2 - e ** 2) <= 1e-6:
                    raise Violation("element_ecc", "%s: pair %s was generated with e=%.9g, reported %.9g" % (where, sorted(A | B), e, o[3]))


def cluster(c, ctx):
    rs = rng(c["seed"])
    nd, n = c["ndim"], c["n"]
    kind = c["kind"]
    r = rs.normal(size=(n, nd)) if kind == "gauss" else rs.random((n, nd)) if kind == "uniform" else np.arange(n)[:, None] * np.ones((1, nd)) if kind == "line" else np.stack(np.meshgrid(*[np.arange(int(np.ceil(n ** (1 / nd))))] * nd, indexing="ij"), -1).reshape(-1, nd)[:n].astype(float)
    v = rs.normal(size=(n, nd)) * c["vs"]
    m = 10 ** rs.uniform(-1.5, 0, n)
    ctx.label(kind, c["sim"])
    ctx.nontrivial(n > 3)
    D = dump_runs(c, ctx, m, r, v, rs, c["steps"])
    for s, where in zip(D, ("at start", "after %d steps" % c["steps"])):
        check_state(s, c, nd, [], where)


ITEM = st.fixed_dictionaries(dict(kind=st.sampled_from(["single", "binary", "binary", "unbound", "triple", "quad"]), a=lin(-.5, .5), e=lin(0, .95), e2=lin(0, .9)))
COMMON = dict(seed=st.integers(0, 2 ** 20), ndim=st.sampled_from([2, 3, 3]), sim=st.sampled_from(["nbody", "nbody", "nbody", "gradhsph"]), nbody=st.sampled_from(["lfkdk", "hermite4", "hermite6ts", "hermite4ts"]), soft=st.booleans(), levels=st.sampled_from([1, 1, 4]), steps=st.sampled_from([0, 0, 3, 10]), grav=st.booleans(), units=st.booleans())
SUBS_ = [
    Sub("planted", st.fixed_dictionaries(dict(COMMON, items=st.lists(ITEM, min_size=1, max_size=10), mspread=st.sampled_from([0., 1., 1.5]), ratio=st.sampled_from([1, 2]))), planted, quick=2000, thorough=10000),
    Sub("cluster", st.fixed_dictionaries(dict(COMMON, n=st.integers(1, 40), kind=st.sampled_from(["gauss", "uniform", "line", "grid"]), vs=lin(0, 2))), cluster, quick=200, thorough=4000),
]
if __name__ == "__main__":
    main("C25", SUBS_, builds=[("gdrv", "std")],
         rule="a planted case is non-trivial if it has at least one bound pair and a second system in the field; a cluster case if it has more than three stars",
         assumptions=["isolated means: separated from everything else by more than about 1000 times its size, and hierarchies with outer orbits at least 400 M/m_min times the inner one, so that the binding energy is dominated by the pair (parameter gpesoft)", "pairs closer than their gravitational softening are not orbits of the two-body problem and are excluded"])
