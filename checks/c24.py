import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, refkern, c13
from scipy.integrate import quad

TECH = "property-based testing (Hypothesis): generated arrays imported through the Python entry point and read back from the particles, snapshots extracted for every quantity against the particles and an independent unit table, rendered grids against a direct kernel sum"
NOTE = "1-3 dimensions, SPH/MFV/stars, gas, dust and other particle types interleaved, all quantities and unit names; rendering in 2 and 3 dimensions (column) and 3 dimensions (slice), three kernels, any window and resolution"
QU = dict(x="r", y="r", z="r", vx="v", vy="v", vz="v", ax="a", ay="a", az="a", m="m", h="r", rho="rho", u="u", dudt="dudt", gpot="u", iorig=None)
UN = [q for q in c13.U if q != "temp"]
GOOD = {q: sorted(x for x in c13.U[q] if x) for q in c13.U}


def names(nd, typ):
    v = [a + b for a in ("", "v", "a") for b in "xyz"[:nd]] + ["gpot", "m", "h"]
    return v + {"sph": ["rho", "iorig", "u", "dudt"], "dust": ["rho", "iorig"], "star": []}[typ]


def truth(S, typ, nm, sel):
    p = "s_" if typ == "star" else ""
    base, k = (nm[:-1], "xyz".index(nm[-1])) if nm[-1] in "xyz" else (nm, None)
    if nm in "xyz":
        base = "r"
    a = np.asarray(S[p + base], float)
    a = a[:, k] if k is not None else a
    return a[sel] if typ != "star" else a


def arrays(c, rs):
    nd, n, ns = c["nd"], c["n"], c["ns"]
    mag = lambda m: np.exp(rs.uniform(-c["mag"], c["mag"], m)) * rs.choice([-1.0, 1.0], m)
    A = {q: mag(n) for q in [a + b for a in ("", "v") for b in "xyz"[:nd]]}
    A.update({q: abs(mag(n)) for q in ("m", "h", "u", "rho")})
    F = {"a%d" % k: mag(n) for k in range(nd)}
    F.update(gpot=mag(n), dudt=mag(n), iorig=rs.permutation(n) + float(c["iorig0"]))
    ty = np.zeros(n)
    if c["types"]:
        ty = rs.choice([0, 0, 0, 3, 3, 1, 2] if c["types"] == 2 else [0, 0, 3], n).astype(float)
    dead = (rs.uniform(0, 1, n) < c["dead"]).astype(float)
    SA = {q: mag(ns) for q in [a + b for a in ("", "v") for b in "xyz"[:nd]]}
    SA.update({q: abs(mag(ns)) for q in ("m", "h")})
    SF = {"a%d" % k: mag(ns) for k in range(nd)}
    SF.update(gpot=mag(ns))
    return A, F, ty, dead, SA, SF


def script(c, rs, extra=()):
    A, F, ty, dead, SA, SF = arrays(c, rs)
    n, ns, nd = c["n"], c["ns"], c["nd"]
    order = list(A)
    rs.shuffle(order)
    p = dict(ndim=nd, sim=c["sim"])
    if c["sim"] == "mfvmuscl":
        p.update(zero_mass_flux=1)
    if c["units"]:
        p["dimensionless"] = 0
        for q in UN:
            p[q + "outunit"] = GOOD[q][rs.integers(len(GOOD[q]))]
    if c["sim"] == "nbody":
        n = 0
    L, files = sim_lines(p, {q: A[q] for q in order} if n else None, SA if ns else None)
    if n:
        for q, v in list(F.items()) + [("ptype", ty), ("dead", dead)]:
            files["f_" + q] = v
            L.append("field sph %s f_%s" % (q, q))
    if ns:
        for q, v in SF.items():
            files["g_" + q] = v
            L.append("field star %s g_%s" % (q, q))
    return p, A, F, ty, SA, SF, L, files


def data(c, ctx):
    rs = rng(c["seed"])
    p, A, F, ty, SA, SF, L, files = script(c, rs)
    nd = c["nd"]
    n = 0 if c["sim"] == "nbody" else c["n"]
    ns = c["ns"]
    want = []
    sel = dict(sph=np.where(ty[:n] != 3)[0], dust=np.where(ty[:n] == 3)[0], star=np.arange(ns))
    for typ in ("sph", "dust", "star"):
        if len(sel[typ]):
            for nm in names(nd, typ):
                q = QU[nm]
                un = "default" if q is None or not c["units"] or rs.random() < .3 else GOOD[q][rs.integers(len(GOOD[q]))]
                want.append((typ, nm, un))
    rs.shuffle(want)
    with Workdir() as w:
        pre = ["setupunits 0"] if c["units"] else []
        res = run_script(exe("gdrv"), L + pre + ["dump A", "units UA", "snaplive P " + " ".join(":".join(x) for x in want)] + (["writesnap snap.su su"] if c["load"] else []), w, files, cpu=20)
        expect_ok(res)
        S = res.dump("A")
        R = c13.read(os.path.join(w, "UA"))
        # import
        for src, pre_, m in ((A, "sph", n), (SA, "star", ns)):
            for nm, v in src.items():
                if m:
                    got = truth(S, pre_, nm, np.arange(m))
                    if got.shape != v.shape or not (got == v).all():
                        raise Violation("import_" + pre_, "imported array %s of %s: particle %d holds %r instead of %r" % ((nm, pre_) + ((-1, 0, 0) if got.shape != v.shape else (lambda i: (i, got[i], v[i]))(int(np.argmax(got != v))))))
        # code unit of each quantity in SI
        su = [R[q][3] * R[q][4] for q in "rmt"]
        code = lambda q: np.prod([b ** e for b, e in zip(su, c13.DIM[q])])
        info = open(os.path.join(w, "P.info")).read().split()
        sp = dict(zip(info[3::2], [int(x) for x in info[4::2]]))
        exp = {t: len(v) for t, v in sel.items() if len(v)}
        if sp != exp:
            raise Violation("species", "snapshot lists %s instead of %s" % (sp, exp))
        vals = {}
        for typ, nm, un in want:
            d = np.fromfile(os.path.join(w, "P.%s.%s" % (typ, nm)))
            sc, d = d[-1], d[:-1]
            uname = open(os.path.join(w, "P.%s.%s.unit" % (typ, nm))).read().split("\n")[0]
            t = truth(S, typ, nm, sel[typ])
            if d.shape != t.shape:
                raise Violation("size", "%s of %s has %d elements instead of %d" % (nm, typ, len(d), len(t)))
            tol = 2e-7 if c13_single(d, t) else 0.0
            bad = np.abs(d - t) > tol * np.abs(t)
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation("extract_" + nm, "extracted %s of %s particle %d is %r, the particle has %r" % (nm, typ, i, d[i], t[i]))
            q = QU[nm]
            if q is None:
                es = 1.0
            elif not c["units"]:
                es = 1.0
            else:
                un2 = p[q + "outunit"] if un == "default" else un
                if uname != un2:
                    raise Violation("unit_name", "%s of %s is reported in %r instead of %r" % (nm, typ, uname, un2))
                es = code(q) / c13.U[q][un2]
            if not abs(sc - es) <= 1e-3 * abs(es):  # the constants themselves are C13's business
                raise Violation("scale_" + nm, "%s of %s in %s: scaling factor %.10g, expected %.10g" % (nm, typ, un, sc, es))
            vals[(typ, nm)] = d * sc, un
        ctx.label(c["sim"], "units" if c["units"] else "dimensionless", *(["other types"] if len(set(ty)) > 1 and n else []))
        ctx.nontrivial(n + ns > 1)
        if c["load"]:
            pr = {k: v for k, v in p.items()}
            L2 = ["param %s %s" % (k, repr(float(v)) if isinstance(v, float) else v) for k, v in dict(BASE_PARAMS, **dict(pr, Nhydro=0, Nstar=0)).items()] + ["sim"]
            back = [x for x in want if x[1] in ("x", "y", "z", "vx", "vy", "vz", "m", "h", "rho", "u", "iorig")]
            res = run_script(exe("gdrv"), L2 + ["presetup", "snapload snap.su Q " + " ".join(":".join(x) for x in back)], w, {}, cpu=20)
            expect_ok(res, "load")
            for typ, nm, un in back:
                d = np.fromfile(os.path.join(w, "Q.%s.%s" % (typ, nm)))
                d = d[:-1] * d[-1]
                if typ == "dust" and nm == "u":
                    continue
                # dead particles are not written; particles are grouped by type in the file
                t = vals[(typ, nm)][0]
                t = t[files["f_dead"][sel[typ]] == 0] if typ != "star" else t
                if len(d) != len(t):
                    raise Violation("load_size", "%s of %s: %d values after reloading instead of %d" % (nm, typ, len(d), len(t)))
                if nm == "iorig" and typ != "star":
                    continue
                if typ == "sph" and (ty == 1).any() or typ == "sph" and (ty == 2).any():
                    d, t = np.sort(d), np.sort(t)
                if not (np.abs(d - t) <= 1e-12 * np.abs(t)).all():
                    i = int(np.argmax(np.abs(d - t) / np.maximum(np.abs(t), 1e-300)))
                    raise Violation("load_" + nm, "%s of %s after reloading: %r instead of %r" % (nm, typ, d[i], t[i]))
            ctx.label("reloaded")


def c13_single(d, t):
    """is the snapshot stored in single precision?"""
    return bool((d == d.astype(np.float32)).all())


_los = {}


def wlos(kn):
    if kn not in _los:
        K = refkern.kern(kn, 3)
        b = np.linspace(0, K.R, 400)
        x, wt = np.polynomial.legendre.leggauss(64)
        v = []
        for q in b:
            L = np.sqrt(max(K.R ** 2 - q * q, 0.0))
            brk = sorted(set([0.0, L] + [np.sqrt(k * k - q * q) for k in range(1, int(K.R)) if k > q]))
            v.append(2 * sum((hi - lo) / 2 * (wt * K.w0(np.sqrt(q * q + ((hi - lo) / 2 * x + (hi + lo) / 2) ** 2))).sum() for lo, hi in zip(brk, brk[1:])))
        from scipy.interpolate import CubicSpline
        cs = CubicSpline(b, v)
        _los[kn] = lambda s: np.where(s < K.R, cs(np.minimum(s, K.R)), 0.0), float(v[0])
    return _los[kn]


def render(c, ctx):
    rs = rng(c["seed"])
    nd, n = c["nd"], c["n"]
    col = not (c["slice"] and nd == 3)
    r = rs.uniform(0, 1, (n, nd))
    if c["coin"]:
        r[:, rs.integers(nd)] = r[0, 0]
    K = refkern.kern(c["kernel"], nd)
    h = c["h"] * np.exp(rs.uniform(-.8, .8, n))
    if c["equalh"]:
        h[:] = c["h"]
    m, rho, u = (np.exp(rs.uniform(-1, 1, n)) for _ in range(3))
    ty = rs.choice([0., 0., 3.], n) if c["dust"] else np.zeros(n)
    typ = "dust" if c["dust"] and (ty == 3).any() and (rs.random() < .5 or (ty == 3).all()) else "sph"
    ax = list(rs.permutation(nd))
    qs = [q for q in ["m", "rho", "h", "vx", "x"] + (["u"] if typ == "sph" else [])]
    q = qs[rs.integers(len(qs))]
    v = rs.normal(size=(n, nd))
    A = coords(r, v)
    A.update(m=m, rho=rho, h=h, u=u)
    c0 = rs.uniform(-.2, .7, 2)
    sz = np.exp(rs.uniform(np.log(.02), np.log(1.5), 2))
    zs = rs.uniform(-.1, 1.1)
    nx, ny = c["nx"], c["ny"]
    X, Y = "xyz"[ax[0]], "xyz"[ax[1]]
    Z = "xyz"[ax[2]] if nd == 3 else "x"
    L, files = sim_lines(dict(ndim=nd, sim="gradhsph", kernel=c["kernel"], tabulated_kernel=1), A)
    files["f_ty"] = ty
    L.append("field sph ptype f_ty")
    L.append("render OUT %s %d %d %s %s %s %s default %r %r %r %r %r %s" % ("col" if col else "slice", nx, ny, X, Y, Z, q, *(float(z) for z in (c0[0], c0[0] + sz[0], c0[1], c0[1] + sz[1], zs)), typ))
    with Workdir() as w:
        env = {"GANDALF_VERIF_NO_LOS": None} if col and nd == 3 else None
        res = run_script(exe("gdrv"), L, w, files, cpu=60, env=env)
        expect_ok(res)
        d = np.fromfile(os.path.join(w, "OUT"))
    rc, d = d[-1], d[:-2]
    if rc != 1:
        raise Violation("refused", "rendering %s returns %d" % (q, rc))
    s = ty == 3 if typ == "dust" else ty != 3
    A = {k: np.asarray(a)[s] for k, a in A.items()}
    ii, jj = np.meshgrid(np.arange(nx), np.arange(ny - 1, -1, -1))  # first row is the top of the image
    px = c0[0] + (ii.ravel() + .5) * sz[0] / nx
    py = c0[1] + (jj.ravel() + .5) * sz[1] / ny
    d2 = (px[:, None] - A[X]) ** 2 + (py[:, None] - A[Y]) ** 2
    if not col:
        d2 = d2 + (zs - A[Z]) ** 2
    sep = np.sqrt(d2) / A["h"]
    if col and nd == 3:
        f, w00 = wlos(c["kernel"])
        W, pw = f(sep), 2
    else:
        W, w00, pw = K.w0(sep), K.norm, nd
    wt = A["m"] / A["rho"] * A["h"] ** -float(pw)
    # the code looks kernels up in a table of 1000 cells: each value is off by at most one cell
    step = K.R / 1000.
    dev = np.where(sep < K.R + step, np.maximum(1.2 * step * 1.3 * w00, 2e-3 * W), 0.0)
    num, nor = (wt * A[q] * W).sum(1), (wt * W).sum(1)
    err = (wt * dev).sum(1)
    ok = nor > 50 * err + 1e-9
    ref = num / np.maximum(nor, 1e-300)
    spread = (wt * dev * np.abs(A[q][None, :] - ref[:, None])).sum(1)
    tol = np.where(ok, 1.3 * spread / np.where(ok, nor, 1.0), 0.0) + 1e-6 * (np.abs(ref[ok]).max() if ok.any() else 0.0)
    got = d
    bad = ok & ~(np.abs(got - ref) <= tol)
    empty = (wt * np.where(sep < K.R + step, 1, 0)).sum(1) == 0
    ctx.label("column" if col else "slice", "%dd" % nd, c["kernel"], "dust" if typ == "dust" else "gas")
    ctx.nontrivial(int(ok.sum()) > 1)
    if bad.any():
        i = int(np.argmax(np.where(bad, np.abs(got - ref), 0)))
        raise Violation("pixel_%s_%dd" % ("col" if col else "slice", nd), "pixel %d (%g, %g): %s is %.8g, the kernel-weighted mean is %.8g (+-%.2g)" % (i, px[i], py[i], q, got[i], ref[i], tol[i]))
    if (empty & (got != 0)).any():
        i = int(np.argmax(empty & (got != 0)))
        raise Violation("empty_pixel", "pixel %d has no particle within reach but holds %g" % (i, got[i]))


dstrat = st.fixed_dictionaries(dict(sim=st.sampled_from(["gradhsph", "gradhsph", "mfvmuscl", "nbody"]), nd=st.integers(1, 3), n=st.one_of(st.integers(1, 12), st.integers(1, 300)), ns=st.sampled_from([0, 0, 1, 2, 7]), units=st.booleans(),
                                    types=st.integers(0, 2), dead=st.sampled_from([0.0, 0.0, .2]), mag=st.sampled_from([0.0, 2.0, 20.0]), iorig0=st.sampled_from([0, 5, 100000]), load=st.booleans(), seed=st.integers(0, 10 ** 6))).filter(lambda c: c["sim"] != "nbody" or c["ns"])
rstrat = st.fixed_dictionaries(dict(nd=st.integers(2, 3), n=st.one_of(st.integers(1, 5), st.integers(1, 200)), kernel=st.sampled_from(["m4", "quintic", "gaussian"]), slice=st.booleans(), h=st.sampled_from([.02, .1, .3, 1.0]), equalh=st.booleans(), coin=st.booleans(), dust=st.booleans(),
                                    nx=st.integers(1, 24), ny=st.integers(1, 24), seed=st.integers(0, 10 ** 6)))
SUBS = [Sub("data", dstrat, data, 400, 6000), Sub("render", rstrat, render, 200, 3000)]
RULE = "data: more than one particle or star compared; render: more than one pixel with enough kernel weight to be compared"
if __name__ == "__main__":
    main("C24", SUBS, builds=[("gdrv", "std")], rule=RULE, assumptions=["the kernel table may be off by one of its 1000 cells"])
