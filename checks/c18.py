"""C18: the spatial trees partition the particles and bound them, after builds, restocks, smoothing-length and activity updates."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen

TECH = "property-based testing (Hypothesis): stateful histories of build, restock, smoothing-length update, activity update, extrapolation, particle removal, image creation and range queries on the real trees, every cell and every particle chain dumped after each operation and compared with a direct evaluation over the particles below the cell"
NOTE = "kd-, oct-, TreeRay and brute-force trees of SPH and meshless particles in 1-3 dimensions, 1-400 particles (clustered, lattice, collinear and coincident ones), leaf sizes 1-16, all particle types, trees of images at periodic and mirror boundaries"
GRAV = {0: 1, 2: 1}
TYPES = [0, 0, 0, 1, 2, 3, 4]


def flagbits():
    import re
    b = {}
    for a, e in re.findall(r"^\s*(\w+)\s*=\s*1\s*<<\s*(\d+)", open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src/Headers/Flags.h")).read(), re.M):
        b[a] = 1 << int(e)
    return b


class T:
    def __init__(self, st, px, nd):
        C = st[px + "cells"].reshape(-1, 20 + 9 * nd)
        I = np.nan_to_num(C[:, :8], nan=-7, posinf=-7, neginf=-7).astype(np.int64)
        self.id, self.level, self.cnext, self.copen, self.N, self.Nact = I[:, 0], I[:, 1], I[:, 2], I[:, 3], I[:, 6], I[:, 7]
        self.m, self.rmax, self.hmax, self.cs, self.cd, self.macf, self.q = C[:, 8], C[:, 9], C[:, 10], C[:, 11], C[:, 12], C[:, 14], C[:, 15:20]
        V = C[:, 20:].reshape(-1, nd, 9)
        self.r, self.v, self.rc, self.b0, self.b1, self.h0, self.h1, self.v0, self.v1 = [V[:, :, k] for k in range(9)]
        self.chain = st[px + "chain"].reshape(-1, 2).astype(int)
        self.nc, self.leafmax = len(C), int(np.ravel(st[px + "Nleafmax"])[0])
        self.active = st[px + "active"].astype(int).ravel()


def walk(t):
    """children of every cell and the order of the depth-first walk"""
    if t.nc == 0:
        return []
    seen, c = [], 0
    while c < t.nc:
        seen.append(c)
        if len(seen) > t.nc:
            raise Violation("links", "the depth-first walk over %d cells does not end or visits a cell twice" % t.nc)
        c = int(t.copen[c] if t.copen[c] != -1 else t.cnext[c])
        if c < 0:
            raise Violation("links", "the depth-first links lead to cell %d" % c)
    if sorted(seen) != list(range(t.nc)):
        raise Violation("links", "the depth-first walk misses cells %s of %d" % (sorted(set(range(t.nc)) - set(seen))[:5], t.nc))
    return seen


def check_tree(tag, st, px, p, ids, nd, fb, tree, par, full=True, counts=True):
    """ids: the particles (indices into p) that have to be in the tree"""
    t = T(st, px, nd)
    order = walk(t)
    ch = t.chain
    if (ch[:, 1] < 0).any():
        raise Violation("chain", "%s: the particle chain of leaf %d does not end" % (tag, ch[ch[:, 1] < 0][0, 0]))
    got = np.sort(ch[:, 1])
    if not np.array_equal(got, np.sort(ids)):
        extra = [int(x) for x in got if x not in set(ids)][:5]
        miss = [int(x) for x in ids if x not in set(got)][:5]
        u, k = np.unique(got, return_counts=True)
        raise Violation("partition", "%s: particles in the leaves of the %s differ from the live ones: not in any leaf %s, not live %s, in several leaves %s" % (tag, tree, miss, extra, u[k > 1][:5]))
    leafn = np.bincount(ch[:, 0], minlength=t.nc)
    if tree != "bruteforce" and (leafn > t.leafmax).any():
        raise Violation("leafsize", "%s: leaf with %d particles, Nleafmax=%d" % (tag, leafn.max(), t.leafmax))
    # particles below every cell, from the leaves up
    below = [None] * t.nc
    bychain = {}
    for c, i in ch:
        bychain.setdefault(int(c), []).append(int(i))
    for c in reversed(order):
        if t.copen[c] == -1:
            below[c] = bychain.get(c, [])
        else:
            L, cc, end = [], int(t.copen[c]), int(t.cnext[c])
            while cc != end and cc < t.nc:
                L += below[cc]
                cc = int(t.cnext[cc])
            below[c] = L
    if t.nc and sorted(below[0]) != sorted(ids):
        raise Violation("partition", "%s: the root cell does not hold all particles" % tag)
    r, v, h, m = p["r"], p["v"], p["h"], p["m"]
    kr = par["kernrange"]
    size = np.abs(r[ids]).max() + np.abs(h[ids]).max() * kr + 1e-300 if len(ids) else 1.0

    def eq(a, b, scale, key, what, c):
        if not np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-10 * scale + 1e-300):
            raise Violation(key, "%s: %s of cell %d (level %d, %d particles, %s) is %s; the particles below it give %s" % (tag, what, c, t.level[c], len(below[c]), tree, a, b))
    for c in range(t.nc):
        L = np.array(below[c], dtype=int)
        if counts and t.N[c] != len(L):
            raise Violation("count", "%s: cell %d of the %s counts %d particles, %d live particles are below it" % (tag, c, tree, t.N[c], len(L)))
        if counts and t.copen[c] == -1 and t.Nact[c] != p["active"][L].sum():
            raise Violation("active", "%s: cell %d of the %s counts %d active particles, %d are below it" % (tag, c, tree, t.Nact[c], p["active"][L].sum()))
        if len(L) == 0:
            if t.m[c] != 0 and full:
                raise Violation("mass", "%s: an empty cell has mass %g" % (tag, t.m[c]))
            continue
        eq(t.hmax[c], h[L].max(), h[L].max(), "hmax", "maximum smoothing length", c)
        eq(t.h0[c], (r[L] - kr * h[L, None]).min(0), size, "hbox", "lower corner of the smoothing volume box", c)
        eq(t.h1[c], (r[L] + kr * h[L, None]).max(0), size, "hbox", "upper corner of the smoothing volume box", c)
        if not full:
            continue
        eq(t.b0[c], r[L].min(0), size, "bbox", "lower corner of the bounding box", c)
        eq(t.b1[c], r[L].max(0), size, "bbox", "upper corner of the bounding box", c)
        eq(t.v0[c], v[L].min(0), 1 + np.abs(v).max(), "vbox", "lower corner of the velocity box", c)
        eq(t.v1[c], v[L].max(0), 1 + np.abs(v).max(), "vbox", "upper corner of the velocity box", c)
        eq(t.cs[c], p["sound"][L].max(), p["sound"][L].max(), "sound", "maximum sound speed", c)
        # the sphere about rcell has to hold every particle
        d = np.sqrt(((r[L] - t.rc[c]) ** 2).sum(1)).max()
        if d > t.rmax[c] + 1e-10 * size:
            raise Violation("rmax", "%s: a particle lies %g from the centre of cell %d, whose bounding sphere has radius %g" % (tag, d, c, t.rmax[c]))
        if t.cd[c] * par["theta"] < max(t.rmax[c], t.hmax[c]) ** 2 * (1 - 1e-9):
            raise Violation("mac", "%s: opening distance %g of cell %d is smaller than its size %g over the opening angle" % (tag, np.sqrt(t.cd[c]), c, t.rmax[c]))
        g = p["grav"][L]
        G = L[g]
        eq(t.m[c], m[G].sum(), m[G].sum(), "mass", "mass", c)
        if len(G):
            com = (m[G, None] * r[G]).sum(0) / m[G].sum()
            eq(t.r[c], com, size, "com", "centre of mass", c)
            eq(t.v[c], (m[G, None] * v[G]).sum(0) / m[G].sum(), 1 + np.abs(v).max(), "vcom", "velocity of the centre of mass", c)
            if par["quad"]:
                x = r[G] - com
                s2 = (x ** 2).sum(1)
                Q = np.zeros(5)
                Q[0] = (m[G] * (3 * x[:, 0] ** 2 - s2)).sum()
                if nd > 1:
                    Q[1], Q[2] = (m[G] * 3 * x[:, 0] * x[:, 1]).sum(), (m[G] * (3 * x[:, 1] ** 2 - s2)).sum()
                if nd > 2:
                    Q[3], Q[4] = (m[G] * 3 * x[:, 2] * x[:, 0]).sum(), (m[G] * 3 * x[:, 2] * x[:, 1]).sum()
                eq(t.q[c], Q, m[G].sum() * size ** 2, "quadrupole", "quadrupole moment", c)
        if par["mac"] == "eigenmac":
            b = (p["gpot"][L] ** (-2. / 3)).max()
            eq(t.macf[c], b, b, "macfactor", "potential factor of the opening criterion", c)
        if par["mac"] == "gadget2":
            b = np.sqrt((p["atree"][L] ** 2).sum(1)).min()
            eq(t.macf[c], b, b, "amin", "smallest acceleration", c)
    if counts:
        want = sorted(c for c in range(t.nc) if t.copen[c] == -1 and p["active"][below[c]].sum() > 0)
        if sorted(t.active) != want:
            raise Violation("activelist", "%s: list of active cells %s, leaves with active particles %s" % (tag, sorted(t.active)[:8], want[:8]))
    return t


def pstate(fn, nd, fb):
    s = load_dump(fn)
    f = s.flags.astype(int)
    ty = s.ptype.astype(int)
    return dict(r=s.r.reshape(-1, nd), v=s.v.reshape(-1, nd), h=s.h, m=s.m, sound=s.sound, gpot=s.gpot, atree=s.atree.reshape(-1, nd), dead=(f & fb["dead"]) != 0, active=(f & fb["active"]) != 0,
                ptype=ty, iorig=s.iorig.astype(int), grav=np.array([x in GRAV for x in ty], bool), N=int(np.ravel(s.Nhydro)[0]), Ng=int(np.ravel(s.NPeriodicGhost)[0]), kernrange=float(np.ravel(s.kernrange)[0]))


def points(rs, kind, n, nd, leaf):
    if kind == "coincident":            # no more than a leaf can hold at one point, which the oct-tree cannot divide
        k = max(1, min(leaf, int(rs.integers(1, 5))))
        base = rs.random(((n + k - 1) // k, nd))
        r = np.repeat(base, k, axis=0)[:n]
        return r[rs.permutation(n)]
    if kind == "collinear":
        r = np.tile(rs.random(nd), (n, 1))
        r[:, rs.integers(nd)] = rs.random(n)
        return r
    if kind == "grid":
        k = int(np.ceil(n ** (1.0 / nd)))
        g = (np.stack(np.meshgrid(*[np.arange(k)] * nd, indexing="ij"), -1).reshape(-1, nd) + .5) / k
        return g[rs.permutation(len(g))[:n]]
    if kind == "cluster":
        c = rs.random((3, nd))
        r = c[rs.integers(0, 3, n)] + rs.normal(size=(n, nd)) * 10.0 ** rs.uniform(-5, -1, n)[:, None]
        return np.mod(r, 1.0)
    return rs.random((n, nd))


def check(c, ctx):
    fb = flagbits()
    nd, n, rs = c["nd"], c["n"], np.random.default_rng(c["seed"])
    bc = "open" if c["tree"] == "treeray" and False else c["bc"]
    P = dict(ndim=nd, sim=c["sim"], run_id="A", neib_search=c["tree"], Nleafmax=c["leaf"], gravity_mac=c["mac"], multipole=c["mult"], thetamaxsqd=c["theta"], hydro_forces=1, self_gravity=0, kernel=c["kernel"], Nhydromax=n + 1)
    if c["sim"].startswith("mfv"):
        P["riemann_solver"] = "hllc"
    L = gen.bc_params({"open": "o", "periodic": "p", "mirror": "m"}[bc] * nd, nd)
    P.update(L)
    r = points(rs, c["kind"], n, nd, c["leaf"])
    A = dict(coords(r, rs.normal(size=(n, nd)) * c["vel"]), m=np.exp(rs.uniform(-3, 3, n)), u=np.ones(n), h=np.ones(n), rho=np.ones(n))
    A.pop("rho")
    lines, files = sim_lines(P, A)
    k = [0]

    def field(q, a):
        fn = "f%d_%s.f64" % (k[0], q)
        k[0] += 1
        files[fn] = np.asarray(a, float)
        lines.append("field sph %s %s" % (q, fn))
    sep = n ** (-1.0 / nd)
    newh = lambda m: sep * np.exp(rs.uniform(-2, 1, m)) * c["hs"]
    types = rs.choice(TYPES, n)
    types[0] = 0
    field("ptype", types)
    for q in ("h", "sound", "gpot"):
        field(q, newh(n))
    field("active", rs.random(n) < .3)
    dead = rs.random(n) < c["dead0"]
    dead[rs.integers(n)] = False
    field("dead", dead)
    lines += ["settimestep %r" % c["dt"], "treebuild 1", "treedump a"]
    n1 = int((~dead).sum())
    dead1 = rs.random(n1) < c["dead1"]
    if c["alldead"]:
        dead1[:] = True
        dead1[0] = False
    for k_ in range(nd):
        field("r%d" % k_, np.mod(points(rs, "random", n1, nd, c["leaf"])[:, k_], 1.0)) if c["scramble"] else None
        field("v%d" % k_, rs.normal(size=n1))
    for q in ("h", "sound", "gpot"):
        field(q, newh(n1))
    field("dead", dead1)
    field("active", rs.random(n1) < .5)
    lines += ["treebuild 0", "treedump b"]
    field("h", newh(n1))
    lines += ["hmaxupd", "treedump c"]
    field("active", (rs.random(n1) < .2) & ~dead1)
    lines += ["activeupd", "treedump d"]
    nq = 12
    Q = np.concatenate([rs.random((nq, nd)) * 1.2 - .1, np.exp(rs.uniform(-4, 1, (nq, 1)))], 1)
    files["q.f64"] = Q.ravel()
    nmax = [n1 * 3 ** nd + c["leaf"] + 2, max(c["leaf"] + 1, n1 // 3)][c["small"]]
    lines += ["gather q.f64 ga %d" % nmax]
    lines += ["treebuild 2", "treedump e"]
    lines += ["treebuild 1", "treedump f"]
    if bc != "open":
        lines += ["ghosts %r" % c["tghost"], "ghostbuild 1", "treedump g", "gather q.f64 gb %d" % nmax]
        lines += ["ghostbuild 0", "treedump h"]
    with Workdir() as w:
        res = run_script(exe("gdrv"), lines, w, files, cpu=30)
        if c["tree"] in ("octtree", "treeray") and "reached maximum oct-tree level" in res.err + res.out:
            ctx.label("maxlevel")           # particles too close to be separated by 40 levels
            return
        expect_ok(res)
        D = {x: (load_dump(os.path.join(w, x)), pstate(os.path.join(w, x + ".p"), nd, fb)) for x in ("abcdefgh" if bc != "open" else "abcdef")}
        ga = load_dump(os.path.join(w, "ga"))
        gb = load_dump(os.path.join(w, "gb")) if bc != "open" else None
    par = dict(kernrange=D["a"][1]["kernrange"], theta=c["theta"], quad=c["mult"] in ("quadrupole", "fast_quadrupole") or c["mac"] == "eigenmac", mac=c["mac"])
    tr = c["tree"]
    a = D["a"][1]
    if a["N"] != n1 or a["dead"][:n1].any():
        raise Violation("deaddel", "a rebuild of the tree left %d particles, %d are alive" % (a["N"], n1))
    live = np.arange(n1)
    check_tree("build", D["a"][0], "t_", a, live, nd, fb, tr, par)
    b = D["b"][1]
    live = np.flatnonzero(~b["dead"][:n1])
    check_tree("restock", D["b"][0], "t_", b, live, nd, fb, tr, par)
    check_tree("smoothing lengths", D["c"][0], "t_", D["c"][1], live, nd, fb, tr, par, full=False, counts=False)
    td = check_tree("active counters", D["d"][0], "t_", D["d"][1], live, nd, fb, tr, par, full=False, counts=True)
    # extrapolation moves centres and boxes with the velocity of the cell
    te = T(D["e"][0], "t_", nd)
    sh = td.v * c["dt"]
    ne = td.N > 0
    for x, y, what in () if not ne.any() else ((td.r, te.r, "centre of mass"), (td.rc, te.rc, "centre"), (td.b0, te.b0, "box"), (td.b1, te.b1, "box"), (td.h0, te.h0, "smoothing volume box"), (td.h1, te.h1, "smoothing volume box")):
        if np.abs(x + sh - y)[ne].max() > 1e-9 * (1 + np.abs(sh).max() + np.abs(x[ne]).max()):
            raise Violation("extrapolate", "extrapolated %s of a cell did not move with the velocity of its centre of mass" % what)
    f = D["f"][1]
    n2 = len(live)
    if f["N"] != n2 or f["dead"][:n2].any():
        raise Violation("deaddel", "a rebuild of the tree left %d particles, %d are alive" % (f["N"], n2))
    check_tree("rebuild", D["f"][0], "t_", f, np.arange(n2), nd, fb, tr, par)

    def gather(g, p, idx, tag):
        o = g["gather"].reshape(-1, 2).astype(int)
        if (o[:, 1] == -2).any():
            raise Violation("gatherbuf", "%s: the range query wrote outside its list" % tag)
        for i in range(nq):
            got = o[o[:, 0] == i, 1]
            d2 = ((p["r"][idx] - Q[i, :nd]) ** 2).sum(1)
            inn, maybe = set(idx[d2 < Q[i, nd] ** 2 * (1 - 1e-9)]), set(idx[d2 < Q[i, nd] ** 2 * (1 + 1e-9)])
            if -1 in got:
                if len(maybe) + c["leaf"] < nmax:
                    raise Violation("gatherover", "%s: the range query reported that %d particles do not fit in a list of %d" % (tag, len(maybe), nmax))
                continue
            if len(got) != len(set(got)) or not inn <= set(got) <= maybe:
                raise Violation("gather", "%s: a range query about %s with radius %g returned %d particles, %d are in range (missing %s, wrong %s)" % (tag, Q[i, :nd], Q[i, nd], len(got), len(inn), sorted(inn - set(got))[:5], sorted(set(got) - maybe)[:5]))
    # positions at the time of the query are those of dump d
    gather(ga, D["d"][1], live, "gather")
    if bc != "open":
        g = D["g"][1]
        N, Ng = g["N"], g["Ng"]
        # reference images, dimension by dimension, images of images included
        R = par["kernrange"] * float(np.ravel(D["f"][0]["t_ghost_range"])[0])
        pos, vel, h, org, box = [x for x in f["r"][:N]], [x for x in f["v"][:N]], list(f["h"][:N]), list(range(N)), (0.0, 1.0)
        near = 0
        for j in range(nd):
            M = len(pos)
            for i in range(M):
                x, vv = pos[i][j], vel[i][j]
                lo = x + min(0, vv * c["tghost"]) - box[0] - R * h[i]
                hi = box[1] - R * h[i] - (x + max(0, vv * c["tghost"]))
                near += (abs(lo) < 1e-12) + (abs(hi) < 1e-12)
                for s_, y in ((lo, x + 1 if bc == "periodic" else -x), (hi, x - 1 if bc == "periodic" else 2 - x)):
                    if s_ < 0:
                        q = pos[i].copy()
                        q[j] = y
                        u_ = vel[i].copy()
                        if bc == "mirror":
                            u_[j] = -u_[j]
                        pos.append(q), vel.append(u_), h.append(h[i]), org.append(org[i])
        if near:
            ctx.label("edge")
        else:
            want = np.round(np.concatenate([np.array(pos[N:]).reshape(-1, nd), np.array(vel[N:]).reshape(-1, nd), np.array(h[N:]).reshape(-1, 1)], 1), 9)
            got = np.round(np.concatenate([g["r"][N:N + Ng], g["v"][N:N + Ng], g["h"][N:N + Ng, None]], 1), 9)
            if len(want) != len(got) or not np.allclose(want[np.lexsort(want.T)], got[np.lexsort(got.T)], atol=1e-8):
                raise Violation("images", "%d images at %s boundaries, %d particles and images come within range of a boundary during %g" % (Ng, bc, len(want), c["tghost"]))
        if Ng:
            ctx.label("ghosts")
            gi = np.arange(N, N + Ng)
            check_tree("ghost build", D["g"][0], "g_", g, gi, nd, fb, tr, par)
            check_tree("ghost restock", D["h"][0], "g_", D["h"][1], gi, nd, fb, tr, par)
            gather(gb, g, np.arange(N + Ng), "gather with images")
    ctx.label(tr, bc, c["kind"])
    if n1 > c["leaf"] and len(live) < n1:
        ctx.nontrivial()


STRAT = st.fixed_dictionaries(dict(seed=st.integers(0, 2 ** 31), nd=st.integers(1, 3), n=st.one_of(st.integers(1, 12), st.integers(2, 120), st.integers(100, 400)), sim=st.sampled_from(["sph", "mfvmuscl"]), tree=st.sampled_from(["kdtree", "octtree", "bruteforce", "kdtree", "octtree"]),
    leaf=st.integers(1, 16), mac=st.sampled_from(["geometric", "eigenmac", "gadget2"]), mult=st.sampled_from(["monopole", "quadrupole", "fast_monopole", "fast_quadrupole"]), theta=logf(.01, 1.0), kernel=st.sampled_from(["m4", "quintic"]),
    kind=st.sampled_from(["random", "cluster", "coincident", "collinear", "grid"]), vel=logf(.01, 10), hs=logf(.1, 1.0), dead0=st.sampled_from([0, 0, .1, .6]), dead1=st.sampled_from([0, .1, .6]), alldead=st.booleans(), scramble=st.booleans(),
    bc=st.sampled_from(["open", "periodic", "mirror"]), tghost=st.sampled_from([0.0, 0.0, .01, .1]), dt=logf(1e-3, 1.0), small=st.integers(0, 1)))

if __name__ == "__main__":
    main("C18", [Sub("trees", STRAT, check, quick=320, thorough=9000)], builds=[("gdrv", "std")],
         rule="particles fill more than one leaf and some of them are removed between a build and a restock")
