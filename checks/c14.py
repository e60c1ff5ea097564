import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import c13

TECH = "property-based testing (Hypothesis): generated live states written in every format, decoded by an independent parser, and read back through every reading path (initial file, restart, Python snapshot loader), also into other units"
NOTE = "formats column, sf, su, slite; SPH/MFV/star-only, 1-3 dimensions, mixed and interleaved particle types, dead particles, stars, random units; values between 1e-90 and 1e90"
UN = ["r", "m", "t", "v", "a", "rho", "sigma", "press", "f", "E", "mom", "angmom", "angvel", "dmdt", "L", "kappa", "B", "Q", "Jcur", "u", "temp"]
# relative precision of the formats: 11 digits, double, 6 digits, single
TOL = dict(sf=1.01e-10, su=1e-15, column=1.01e-5, slite=1.3e-7)
TYPES = {1: 3, 0: 4, 2: 5, 3: 6}  # particle type -> header slot
GOOD = {q: sorted(x for x in c13.U[q] if x) for q in UN if q in c13.U}


def rel(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b))).all())


def same(k, what, a, b, tol):
    if tol == TOL["slite"] and np.shape(a) == np.shape(b):  # values outside the range of single precision are not compared
        ok = (np.abs(b) < 3e38) & ((np.abs(b) > 1.2e-38) | (np.asarray(b) == 0))
        a, b = np.where(ok, a, 0.0), np.where(ok, b, 0.0)
    elif np.shape(a) != np.shape(b) and np.size(a) == np.size(b) == 1:
        a, b = np.ravel(a)[0], np.ravel(b)[0]
    if not rel(a, b, tol):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            raise Violation(k, "%s: %s values instead of %s" % (what, a.shape, b.shape))
        i = np.unravel_index(int(np.argmax(np.abs(a - b) / np.maximum(np.maximum(np.abs(a), np.abs(b)), 1e-300))), a.shape) if a.shape else ()
        raise Violation(k, "%s differs: %.17g instead of %.17g at %s" % (what, a[i], b[i], i))


class Bin:
    def __init__(self, b, flt):
        self.b, self.o, self.flt = b, 0, flt

    def get(self, c, n):
        v = struct.unpack_from("<%d%s" % (n, c), self.b, self.o)
        self.o += struct.calcsize("<%d%s" % (n, c))
        return list(v)

    def s(self, n=20):
        v = self.b[self.o:self.o + n].decode("latin1").rstrip()
        self.o += n
        return v


def parse_seren(fn, form, nd):
    """independent decoder of the three SEREN formats -> dict"""
    if form == "sf":
        w = open(fn).read().split()
        it = iter(w)
        S = lambda n: [next(it) for _ in range(n)]
        tag, I, F = S(1)[0], lambda n: [int(x) for x in S(n)], lambda n: [float(x) for x in S(n)]
        pr, d1, d2, d3 = I(4)
        idata, ilp, rd, dd = I(50), I(50), F(50), F(50)
        names = lambda n: S(n)
        L = I
        if tag != "GANDALFASCIIDUMPV1" and "ASCII" not in tag:
            raise Violation("tag", "file starts with %r" % tag)
    else:
        B = Bin(open(fn, "rb").read(), "d" if form == "su" else "f")
        tag = B.s()
        I, F = lambda n: B.get("i", n), lambda n: B.get(B.flt, n)
        pr, d1, d2, d3 = I(4)
        idata, ilp, rd, dd = I(50), B.get("q", 50), F(50), B.get("d", 50)
        names = lambda n: [B.s() for _ in range(n)]
        if pr != (8 if form == "su" else 4):
            raise Violation("precision", "precision field %d" % pr)
    if (d1, d2, d3) != (nd, nd, nd):
        raise Violation("dims", "dimension fields %s" % [d1, d2, d3])
    R = dict(idata=idata, ilp=ilp, rd=rd, dd=dd, units=names(idata[19]), ids=names(idata[20]))
    R["td"] = [I(5) for _ in range(idata[20])]
    N, Ns = idata[0], idata[1]
    for q in R["ids"]:
        if q == "porig":
            R[q] = np.array(I(N))
        elif q == "sink_v1":
            n = 12 + 2 * nd
            hd = I(6)
            if hd != [2, 2, 0, n, 0, 0]:
                raise Violation("sink_header", "sink block header %s" % hd)
            out = []
            for i in range(Ns):
                if form == "sf":
                    b = ""
                    while len(b) < 2:
                        b += S(1)[0]
                else:
                    I(2)
                k = I(2)
                if k[0] != i + 1:
                    raise Violation("sink_id", "sink id %d instead of %d" % (k[0], i + 1))
                out.append(F(n))
            R[q] = np.array(out).reshape(Ns, n)
        elif q in ("r", "v"):
            R[q] = np.array(F(N * nd)).reshape(N, nd)
        else:
            R[q] = np.array(F(N))
    if form == "sf":
        if list(it):
            raise Violation("trailing", "data after the end of the snapshot")
    elif B.o != len(B.b):
        raise Violation("trailing", "%d bytes after the end of the snapshot" % (len(B.b) - B.o))
    return R


def parse_column(fn, nd):
    w = open(fn).read().split()
    N, Ns, n = int(w[0]), int(w[1]), int(w[2])
    d = np.array([float(x) for x in w[4:]])
    k = 2 * nd + 4
    if n != nd or len(d) != k * (N + Ns):
        raise Violation("column_shape", "%d values for %d particles and %d stars in %d dimensions" % (len(d), N, Ns, n))
    d = d.reshape(N + Ns, k)
    g, s = d[:N], d[N:]
    return dict(t=float(w[3]), r=g[:, :nd], v=g[:, nd:2 * nd], m=g[:, 2 * nd], h=g[:, 2 * nd + 1], rho=g[:, 2 * nd + 2], u=g[:, 2 * nd + 3], s_r=s[:, :nd], s_v=s[:, nd:2 * nd], s_m=s[:, 2 * nd], s_h=s[:, 2 * nd + 1])


def units_param(rs, on):
    if not on:
        return dict(dimensionless=1)
    p = dict(dimensionless=0)
    for q in UN:
        if q != "t" or True:
            p[NAME.get(q, q) + "outunit"] = str(rs.choice(GOOD[q]))
    return p


NAME = {}


def U(fn):
    R = {}
    for l in open(fn):
        w = l.split()
        R[w[0]] = (float(w[4]), float(w[5]), float(w[4]) * float(w[5]))
    return R


def build(c):
    rs = rng(c["seed"])
    nd, N, Ns = c["nd"], c["n"], c["ns"]
    if c["sim"] == "nbody":
        N, Ns = 0, max(1, Ns)
    g = lambda *s: rs.normal(size=s) * 10.0 ** rs.uniform(-c["mag"], c["mag"], size=s) if c["mag"] else rs.normal(size=s)
    p = dict(ndim=nd, sim=c["sim"], run_id="A", out_file_form=c["form"], dt_snap=float(rs.uniform(.1, 2)), dt_litesnap=float(rs.uniform(.1, 2)))
    p.update(units_param(rs, c["units"]))
    pos = lambda n: np.abs(g(n)) + 1e-89
    arr = None
    if N:
        arr = coords(g(N, nd), g(N, nd))
        arr.update(m=pos(N), h=pos(N), u=np.where(rs.random(N) < .1, 0.0, pos(N)), rho=pos(N), iorig=rs.permutation(N), ptype=rs.choice([0, 1, 2, 3], N) if c["types"] == 2 else rs.choice([0, 0, 2], N) if c["types"] else np.zeros(N), dead=(rs.random(N) < c["dead"]) * 1.0)
    star = None
    if Ns:
        star = coords(g(Ns, nd), g(Ns, nd))
        star.update(m=pos(Ns), h=pos(Ns), radius=pos(Ns))
    sd = dict(t=float(abs(g(1)[0])), tsnaplast=float(abs(g(1)[0])), tlitesnaplast=float(abs(g(1)[0])), Noutsnap=int(rs.integers(0, 99999)), Noutlitesnap=int(rs.integers(0, 99999)), Nsteps=int(rs.integers(0, 10 ** 8)), mmean=float(abs(g(1)[0])))
    return rs, p, arr, star, sd, N, Ns


def write(c, w):
    rs, p, arr, star, sd, N, Ns = build(c)
    files = {}
    L = ["param %s %s" % (k, repr(v) if isinstance(v, float) else v) for k, v in dict(BASE_PARAMS, Nhydro=N, Nstar=Ns, **{k: v for k, v in p.items()}).items() if k not in p or True]
    q = dict(BASE_PARAMS)
    q.update(p)
    q.update(Nhydro=N, Nstar=Ns, ic="python")
    L = ["param %s %s" % (k, repr(float(v)) if isinstance(v, float) else v) for k, v in q.items()] + ["sim", "presetup"]
    for typ, a in (("sph", arr), ("star", star)):
        for k, v in (a or {}).items():
            fn = "%s_%s.f64" % (typ, k)
            files[fn] = np.asarray(v, float)
            L.append(("field %s %s %s" if k in ("ptype", "dead", "iorig", "radius", "rho", "u") or (typ, k) == ("sph", "h") else "import %s %s %s") % ((typ, k, fn) if k in ("ptype", "dead", "iorig", "radius", "rho", "u") or (typ, k) == ("sph", "h") else (k, typ, fn)))
    if star:
        L.append("field star h star_h.f64")
    L += ["state %r %r %r %d %d %d %r" % (sd["t"], sd["tsnaplast"], sd["tlitesnaplast"], sd["Noutsnap"], sd["Noutlitesnap"], sd["Nsteps"], sd["mmean"]), "dump A", "units UA"]
    L += ["writesnap %s %s" % (f, f2) for f, f2 in (("snap." + c["form"], c["form"]), ("lite", "slite"))] + ["readheader snap.%s %s" % (c["form"], c["form"])]
    res = expect_ok(run_script(exe("gdrv"), L, w, files, cpu=20))
    A = res.dump("A")
    A.sd, A.p, A.N, A.Ns = sd, q, N, Ns
    A.U = U(os.path.join(w, "UA"))
    A.head = [l for l in res.err.split("\n") if l.startswith("HEADER")][0].split()[1:]
    if N == 0:
        nd = c["nd"]
        A.r, A.v, A.m, A.h, A.rho, A.u, A.ptype, A.flags, A.iorig = (np.zeros((0, nd)), np.zeros((0, nd))) + (np.zeros(0),) * 7
    dead = (arr["dead"] != 0) if arr else np.zeros(0, bool)
    o = [i for t in (1, 0, 2, 3) for i in range(N) if A.ptype[i] == t and not dead[i]]
    A.order = np.array(o, int)
    A.live = np.where(~dead)[0]
    A.dead = dead
    return A


def check_file(k, A, R, form, nd):
    """content of the file (decoded independently) against the live state"""
    tol, u = TOL[form], {q: A.U[q][0] for q in A.U}
    o = A.live if form == "column" else A.order
    if form == "slite":
        o = A.order
    S = (("r", A.r[o] * u["r"]), ("v", A.v[o] * u["v"]), ("m", A.m[o] * u["m"]), ("h", A.h[o] * u["r"]), ("rho", A.rho[o] * u["rho"]), ("u", A.u[o] * u["u"]))
    if form == "column":
        same(k + "_time", "time", R["t"], A.t * u["t"], tol)
        for q, e in S:
            same(k + "_" + q, q, R[q], e, tol)
        for q, e in (("s_r", A.s_r * u["r"]), ("s_v", A.s_v * u["v"]), ("s_m", A.s_m * u["m"]), ("s_h", A.s_h * u["r"])):
            same(k + "_" + q, q, R[q], e, tol)
        return
    idt = R["idata"]
    cnt = {3: int((A.ptype[o] == 1).sum()), 4: int((A.ptype[o] == 0).sum()), 5: int((A.ptype[o] == 2).sum()), 6: int((A.ptype[o] == 3).sum())}
    if [idt[0], idt[1]] != [len(o), A.Ns] or [idt[i] for i in (3, 4, 5, 6)] != [cnt[i] for i in (3, 4, 5, 6)]:
        raise Violation(k + "_counts", "counts in the file %s, live state %s" % (idt[:7], [len(o), A.Ns, cnt]))
    dt = 1e-15 if form != "sf" else tol
    sd = A.sd
    same(k + "_time", "time", R["dd"][0], sd["t"] * u["t"], dt)
    same(k + "_tsnaplast", "last snapshot time", R["dd"][1], sd["tsnaplast"] * u["t"], dt)
    same(k + "_mmean", "mean mass", R["dd"][2], sd["mmean"] * u["m"], dt)
    if form != "slite":
        same(k + "_tlite", "last lite snapshot time", R["dd"][10], sd["tlitesnaplast"] * u["t"], dt)
        if R["ilp"][10] != sd["Noutlitesnap"]:
            raise Violation(k + "_nlite", "number of lite snapshots")
    if [R["ilp"][0], R["ilp"][1]] != [sd["Noutsnap"], sd["Nsteps"]]:
        raise Violation(k + "_numbers", "snapshot/step number in the file %s instead of %s" % (R["ilp"][:2], [sd["Noutsnap"], sd["Nsteps"]]))
    if not A.p["dimensionless"]:
        e = [A.p[q + "outunit"] for q in UN]
        if R["units"] != e:
            raise Violation(k + "_units", "units in the file %s instead of %s" % (R["units"], e))
    for q, e in S:
        if form == "slite" and q == "v":
            continue
        if len(o):
            same(k + "_" + q, q, R[q], e, tol)
    if form != "slite" and len(o) and not (R["porig"] == A.iorig[o]).all():
        raise Violation(k + "_porig", "original numbers differ")
    if A.Ns:
        s = R["sink_v1"]
        same(k + "_s_r", "star positions", s[:, 1:1 + nd], A.s_r * u["r"], tol)
        same(k + "_s_v", "star velocities", s[:, 1 + nd:1 + 2 * nd], A.s_v * u["v"], tol)
        for j, (q, e) in enumerate((("m", A.s_m * u["m"]), ("h", A.s_h * u["r"]), ("radius", A.s_radius * u["r"]))):
            same(k + "_s_" + q, "star " + q, s[:, 1 + 2 * nd + j], e, tol)


def check_back(k, A, B, form, nd, restart, B_U):
    tol = TOL[form] + 1e-14
    f = lambda q: A.U[q][2] / B_U[q][2] if not A.p["dimensionless"] else 1.0
    o = A.live if form == "column" else A.order
    if B.Nhydro != len(o) or B.Nstar != A.Ns:
        raise Violation(k + "_counts", "%d particles and %d stars read, %d and %d written" % (B.Nhydro, B.Nstar, len(o), A.Ns))
    same(k + "_time", "time", B.t, A.t * f("t"), tol)
    if len(o):
        for q, un in (("r", "r"), ("v", "v"), ("m", "m"), ("h", "r"), ("rho", "rho"), ("u", "u")):
            same(k + "_" + q, q, getattr(B, q), getattr(A, q)[o] * f(un), tol)
        if form != "column":
            if not (B.ptype == A.ptype[o]).all():
                raise Violation(k + "_types", "particle types changed: %s written, %s read" % (A.ptype[o].astype(int).tolist()[:30], B.ptype.astype(int).tolist()[:30]))
            if not (B.iorig == A.iorig[o]).all():
                raise Violation(k + "_porig", "original numbers changed")
    if A.Ns:
        for q, un in (("s_r", "r"), ("s_v", "v"), ("s_m", "m"), ("s_h", "r")) + ((("s_radius", "r"),) if form != "column" else ()):
            same(k + "_" + q, q, getattr(B, q), getattr(A, q) * f(un), tol)
    if restart and form != "column":
        sd = A.sd
        for q, un in (("tsnaplast", "t"), ("tlitesnaplast", "t"), ("mmean", "m")):
            if q == "mmean" and A.p["sim"] == "nbody":
                continue
            same(k + "_" + q, q, getattr(B, q), sd[q] * f(un), tol)
        for q in ("Noutsnap", "Noutlitesnap", "Nsteps"):
            if int(np.ravel(getattr(B, q))[0]) != sd[q]:
                raise Violation(k + "_" + q, "%s = %d after restart, %d before" % (q, getattr(B, q), sd[q]))


def snapshots(c, ctx):
    nd, form = c["nd"], c["form"]
    ctx.label(form, c["sim"], c["path"], "%dd" % nd, "units" if c["units"] else "dimensionless")
    with Workdir() as w:
        A = write(c, w)
        ctx.nontrivial(len(A.order) + A.Ns >= 2)
        fn = os.path.join(w, "snap." + form)
        try:
            R = parse_column(fn, nd) if form == "column" else parse_seren(fn, form, nd)
        except (StopIteration, struct.error, ValueError, IndexError) as e:
            raise Violation("write_malformed_" + form, "the file cannot be decoded: %r" % e)
        check_file("write_" + form, A, R, form, nd)
        try:
            R = parse_seren(os.path.join(w, "lite"), "slite", nd)
        except (struct.error, ValueError, IndexError) as e:
            raise Violation("write_malformed_slite", "the lite file cannot be decoded: %r" % e)
        check_file("write_slite", A, R, "slite", nd)
        h = A.head
        n = len(A.live)
        if [int(h[0]), int(h[1]), int(h[2])] != [nd, n, A.Ns]:
            raise Violation("header_" + form, "header gives %s, state has %s" % (h[:3], [nd, n, A.Ns]))
        same("header_time_" + form, "time in the header", float(h[3]), A.t, TOL[form] + 1e-14)
        # read back
        p = dict(A.p)
        if c["other"] and c["units"] and c["path"] != "restart" and form != "column":
            p.update(units_param(rng(c["seed"] + 1), True))
        L = []
        p.update(Nhydro=0, Nstar=0)
        if c["path"] == "file":
            p.update(ic="file", in_file="snap." + form, in_file_form=form)
        L = ["param %s %s" % (k, repr(float(v)) if isinstance(v, float) else v) for k, v in p.items()] + ["sim"]
        if c["path"] == "restart":
            open(os.path.join(w, "A.restart"), "w").write("%s\nsnap.%s\n" % (form, form))
            L += ["restart", "genic"]
        elif c["path"] == "file":
            L += ["genic"]
        else:
            L += ["presetup", "snapload snap.%s P" % form]
        res = run_script(exe("gdrv"), L + ["dump B", "units UB"], w, {}, cpu=20)
        if res.rc or res.hang:
            raise Violation("read_fails_" + form + "_" + c["path"], "reading the snapshot back fails (exit %s): %s" % (res.rc, res.tail()[-250:]))
        B = res.dump("B")
        BU = U(os.path.join(w, "UB"))
        check_back("read_%s_%s" % (form, c["path"]), A, B, form, nd, c["path"] == "restart", BU)
        if c["path"] == "load":
            t = open(os.path.join(w, "P.info")).read().split()
            ft = A.U["t"][2] / BU["t"][2] if c["units"] else 1.0
            same("read_%s_snapshot_time" % form, "time of the loaded snapshot", float(t[1]), A.t * ft, TOL[form] + 1e-14)


strat = st.fixed_dictionaries(dict(sim=st.sampled_from(["gradhsph", "gradhsph", "mfvmuscl", "nbody"]), nd=st.integers(1, 3), n=st.one_of(st.integers(1, 12), st.integers(1, 200)), ns=st.sampled_from([0, 0, 1, 2, 5]), form=st.sampled_from(["column", "sf", "su"]), units=st.booleans(), other=st.booleans(),
                                   types=st.integers(0, 2), dead=st.sampled_from([0.0, 0.0, .2, .9]), mag=st.sampled_from([0, 3, 30]), path=st.sampled_from(["file", "restart", "load"]), seed=st.integers(0, 10 ** 6)))
corners = [dict(sim=s, nd=d, n=20, ns=3, form=f, units=u, other=False, types=2, dead=.2, mag=0, path=q, seed=d) for s in ("gradhsph", "nbody") for f in ("column", "sf", "su") for u in (False, True) for q in ("file", "restart", "load") for d in (1, 3)]
SUBS_ = [Sub("snapshots", strat, snapshots, quick=1500, thorough=40000, corners=corners)]
if __name__ == "__main__":
    main("C14", SUBS_, builds=[("gdrv", "std")],
         rule="a case is a generated state written in one format and read back on one path; non-trivial if it has at least two live particles or stars",
         assumptions=["magnitudes between 1e-90 and 1e90 (three-digit exponents overflow the fixed columns of the sf format)", "the column format has no particle types, star radii or numbers", "boundary particles cannot be written (rejected)"])
