import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen

TECH = "property-based testing (Hypothesis): generated parameter files against a reference parser, record/re-read round trips, and generated invalid options that must be refused"
NOTE = "files of up to 40 lines over all ~300 parameters: spacing, tabs, CRLF, comments, label text, repeats, malformed lines, order, missing final newline; set/get through the interface; unknown option names"
WS = ["", " ", "  ", "\t", " \t "]
TXT = "#abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+/.,()[]'\"!?&*%$@~^<>|;"


def load(fn):
    P = {}
    for l in open(fn):
        t, k, v = (l.rstrip("\n").split(" ", 2) + [""])[:3]
        P[k] = (t, v)
    return P


_D = {}


def defaults():
    if not _D:
        with Workdir() as w:
            expect_ok(run_script(exe("gdrv"), ["getparams P"], w, {}, cpu=10))
            _D.update(load(os.path.join(w, "P")))
    return _D


NAMES = None


def name(i):
    global NAMES
    if NAMES is None:
        NAMES = sorted(defaults())
    return NAMES[i % len(NAMES)]


def ref_parse(text, P):
    """the documented format: 'comment : name = value' or 'name = value', '#' starts a comment line"""
    for l in text.split("\n"):
        l = "".join(ch for ch in l if ch not in " \t\r\v\f")
        if not l or l[0] == "#" or "=" not in l:
            continue
        e = l.index("=")
        c = l.find(":")
        if c > e:
            continue
        k, v = l[c + 1:e], l[e + 1:]
        if k in P:
            t = P[k][0]
            P[k] = (t, v)
    return P


def num(t, v):
    return int(v) if t == "i" else float(v) if t == "f" else v


def value(t, x):
    """text of a value of parameter type t"""
    if t == "i":
        return str(x["int"])
    if t == "f":
        f = x["flt"]
        return ["%r" % f, "%.17g" % f, "%e" % f, "%.3f" % f if abs(f) < 1e10 else "%r" % f, ("+" if repr(f)[0] != "-" else "") + "%r" % f, ("%E" % f), "%d" % int(f) if abs(f) < 1e9 else "%r" % f][x["fmt"] % 7]
    return x["txt"]


def render(c):
    out = []
    run = False
    for x in c["lines"]:
        w = [WS[i % len(WS)] for i in x["ws"]]
        n = name(x["i"])
        t = defaults()[n][0]
        v = value(t, x)
        k = x["kind"]
        if k == "set":
            l = w[0] + n + w[1] + "=" + w[2] + v + w[3]
        elif k == "label":
            l = w[0] + x["lab"] + w[1] + ":" + w[2] + n + w[3] + "=" + w[4] + v + w[0]
            if l.lstrip().startswith("#"):
                l = "a" + l
        elif k == "comment":
            l = w[0] + "#" + w[1] + n + " = " + v
        elif k == "noeq":
            l = w[0] + n + w[1] + v.replace("=", "")
        elif k == "unknown":
            l = w[0] + n + "_x" + w[1] + "=" + w[2] + v
        elif k == "colonlate":
            l = w[0] + n + w[1] + "=" + w[2] + v.replace("=", "") + w[3] + ": text"
        elif k == "text":
            l = w[0] + x["lab"].replace("=", "")
        else:
            l = w[0]
        out.append(l)
    pos = c["runpos"] % (len(out) + 1)
    if c["hasrun"]:
        out.insert(pos, "run_id = " + c["run"])
    text = c["eol"].join(out) + (c["eol"] if c["final"] else "")
    return text


def files(c, ctx):
    D = defaults()
    text = render(c)
    exp = ref_parse(text, dict(D))
    if not exp["run_id"][1] or exp["sim"][1] == "sm2012sph":
        ctx.label("must be refused")
        with Workdir() as w:
            open(os.path.join(w, "a.param"), "w", newline="").write(text)
            res = run_script(exe("gdrv"), ["paramfile a.param", "mark end"], w, {}, cpu=10)
        if "MARK end" in res.err:
            raise Violation("refuse", "parameter file without a run id (or with the disabled sm2012sph) is accepted")
        return
    changed = [k for k in D if exp[k][1] != D[k][1]]
    ctx.label("crlf" if c["eol"] == "\r\n" else "lf", "%d0+ changed" % min(3, len(changed) // 10))
    ctx.nontrivial(len(changed) >= 3)
    with Workdir() as w:
        open(os.path.join(w, "a.param"), "w", newline="").write(text)
        pre = []
        if c["before"]:
            open(os.path.join(w, "b.param"), "w").write("run_id = other\nndim = 1\ntend = 3.25\nkernel = quintic\nNlevels = 7\n")
            pre = ["paramfile b.param"]
        rid = exp["run_id"][1]
        safe = all(ch.isalnum() or ch in "_-" for ch in rid) and len(rid) < 60
        L = pre + ["paramfile a.param", "getparams P"]
        if safe:
            L += ["recordparams", "paramfile %s.param" % rid, "getparams R"]
        res = run_script(exe("gdrv"), L, w, {}, cpu=10)
        expect_ok(res)
        P = load(os.path.join(w, "P"))
        R = load(os.path.join(w, "R")) if safe else None
        cmp(P, exp, D, "read", text)
        if R is not None and not any(":" in P[k][1] for k in P if P[k][0] == "s"):
            for k in P:
                if P[k] != R[k]:
                    raise Violation("record", "%s = %s is recorded and re-read as %s" % (k, P[k][1], R[k][1]))


def cmp(P, exp, D, key, text):
    if set(P) != set(D):
        raise Violation("names", "parameter set changed: %s" % (set(P) ^ set(D)))
    for k in D:
        t, v = exp[k]
        a = num(t, P[k][1])
        b = num(t, v)
        if P[k][0] != t or (a != b and not (t == "f" and abs(a - b) <= 1e-15 * abs(b))):
            raise Violation(key, "%s is %r, the file says %r (default %r)" % (k, P[k][1], v, D[k][1]))


LINE = st.fixed_dictionaries({
    "kind": st.sampled_from(["set"] * 6 + ["label"] * 5 + ["comment", "noeq", "unknown", "colonlate", "text", "blank"]), "i": st.integers(0, 10 ** 6), "ws": st.lists(st.integers(0, 4), min_size=5, max_size=5),
    "int": st.integers(-2 ** 31 + 1, 2 ** 31 - 1) | st.integers(-10, 100), "flt": st.floats(-1e30, 1e30).filter(lambda x: x == 0 or abs(x) > 1e-30) | st.floats(-10, 10).filter(lambda x: x == 0 or abs(x) > 1e-30), "fmt": st.integers(0, 6),
    "txt": st.text(TXT, min_size=0, max_size=12) | st.sampled_from(["a=b", "x#y", "path/to/file.dat", "mfvmuscl"]), "lab": st.text(TXT + " #", min_size=0, max_size=30)})
F = st.fixed_dictionaries({"lines": st.lists(LINE, min_size=0, max_size=40), "run": st.text("abcXYZ019_-", min_size=1, max_size=12), "runpos": st.integers(0, 50), "eol": st.sampled_from(["\n", "\n", "\r\n"]), "final": st.booleans(), "before": st.booleans(), "hasrun": st.integers(0, 19).map(lambda x: x > 0)})


def setget(c, ctx):
    """values set through the interface are the values used, read back and recorded"""
    D = defaults()
    L, exp = [], dict(D)
    for x in c["lines"]:
        n = name(x["i"])
        t = D[n][0]
        v = value(t, x)
        if t == "s" and (v == "" or n in ("run_id", "sim")):
            continue
        exp[n] = (t, v)
        L.append("param %s %s" % (n, v))
    ctx.nontrivial(len(L) >= 3)
    with Workdir() as w:
        L += ["param run_id rr", "getparams P", "recordparams", "paramfile rr.param", "getparams R"]
        L += ["getparam %s" % k for k in sorted(set(l.split()[1] for l in L if l.startswith("param ")))]
        exp["run_id"] = ("s", "rr")
        res = run_script(exe("gdrv"), L, w, {}, cpu=10)
        expect_ok(res)
        P, R = load(os.path.join(w, "P")), load(os.path.join(w, "R"))
        cmp(P, exp, D, "set", "")
        got = dict(l[6:].split("=", 1) for l in res.err.split("\n") if l.startswith("PARAM "))
        for k, v in got.items():
            # (the recorded copy has been read back by now, so this covers writing, reading and reporting)
            if num(exp[k][0], v) != num(exp[k][0], P[k][1]) and ":" not in v:
                raise Violation("get", "%s set to %s is reported as %s" % (k, exp[k][1], v))
        for k in P:
            if P[k] != R[k] and not (P[k][0] == "s" and (":" in P[k][1])):
                raise Violation("record", "%s = %s is recorded and re-read as %s" % (k, P[k][1], R[k][1]))


OPTS = dict(sph=["sim", "kernel", "gas_eos", "neib_search", "avisc", "acond", "dust_forces", "radiation", "energy_integration", "supernova_feedback", "nbody", "external_potential", "sph_integration", "gravity_mac", "multipole", "time_dependent_avisc", "out_file_form", "ic", "rand_algorithm", "boundary_lhs[0]", "boundary_rhs[1]"],
            mfv=["sim", "kernel", "gas_eos", "neib_search", "riemann_solver", "slope_limiter", "time_step_limiter", "energy_integration", "supernova_feedback", "nbody", "gravity_mac", "multipole", "ic", "rand_algorithm", "boundary_lhs[0]"], nbody=["sim", "nbody", "kernel", "external_potential", "ic", "rand_algorithm"])


def options(c, ctx):
    k = OPTS[c["sys"]][c["i"] % len(OPTS[c["sys"]])]
    if defaults().get(k, ("", ""))[0] != "s":
        raise Inconclusive("not a string parameter: " + k)
    rs = np.random.default_rng(3)
    nd = c["nd"]
    if k == "boundary_rhs[1]" and nd == 1:
        nd = 2
    r = rs.random((30, nd))
    p = dict(ndim=nd, sim=dict(sph="sph", mfv="mfvmuscl", nbody="nbody")[c["sys"]], nbody="lfkdk", self_gravity=0 if k != "gravity_mac" and k != "multipole" else 1, hydro_forces=1, zero_mass_flux=1)
    if p["self_gravity"]:
        nd = p["ndim"] = 3
        r = rs.random((30, nd))
    p.update(gen.bc_params("p" * nd, nd) if k.startswith("boundary") else {})
    good = dict(p)
    bad = dict(p)
    bad[k] = c["val"]
    star = dict(coords(rs.random((3, nd)), rs.random((3, nd))), m=np.ones(3), h=np.full(3, .1)) if c["sys"] == "nbody" else None
    arr = None if star else dict(coords(r, 0 * r), m=np.full(30, 1 / 30.), u=np.ones(30))
    for which, q in (("good", good), ("bad", bad)):
        L, files_ = sim_lines(q, arrays=arr, star=star)
        if k == "ic":
            # the driver supplies the particles itself only for ic=python; anything else must be generated
            L = [l for l in L if not l.startswith(("import", "field"))] if which == "bad" else L
        with Workdir() as w:
            L += ["setup"] + (["writesnap s.x %s" % q.get("out_file_form", "su")] if k == "out_file_form" else []) + ["mark end"]
            res = run_script(exe("gdrv"), L, w, files_, cpu=20)
        ok = "DONE" in res.err and not (k == "out_file_form" and "WRITE 0" in res.err)
        if which == "good" and not ok:
            raise Inconclusive("baseline: " + res.tail())
        if which == "bad" and ok:
            raise Violation("accepted:" + k, "%s = %s is run as if it were a valid option (%s)" % (k, c["val"], c["sys"]))
    ctx.label(k)
    ctx.nontrivial(True)


O = st.fixed_dictionaries({"sys": st.sampled_from(["sph", "sph", "mfv", "nbody"]), "i": st.integers(0, 40), "nd": st.integers(1, 3), "val": st.sampled_from(["foo", "M4", "kdtre", "sphh", "nonsense", "none_", "x1"])})

if __name__ == "__main__":
    main("C16", [Sub("files", F, files, 900, 30000), Sub("setget", F, setget, 300, 10000), Sub("options", O, options, 200, 1500)], builds=[("gdrv", "std")],
         rule="files/setget: at least three parameters end up different from their defaults; options: an unknown name of one option",
         assumptions=["numeric parameters are given numeric text (anything else is outside the format)", "values containing a colon are outside the format (such a line is skipped)"])
