import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from refkern import kern
NF = ["w0", "w1", "womega", "wzeta", "wgrav", "wpot", "wdrag", "w0_s2", "womega_s2", "wzeta_s2", "wLOS"]


def evaluate(kname, ndim, res, s):
    with Workdir() as d:
        np.asarray(s, "<f8").tofile(os.path.join(d, "s"))
        r = run_exe(exe("kern"), [kname, str(ndim), str(res), "s", "o"], d)
        expect_ok(r)
        o = np.fromfile(os.path.join(d, "o"))
    return o[:8], o[8:].reshape(len(s), 2, 11)


def ref(K, name, s):
    return {"w0": K.w0, "w1": K.w1, "womega": K.womega, "wzeta": K.wzeta, "wgrav": K.wgrav, "wpot": K.wpot,
            "w0_s2": K.w0, "womega_s2": K.womega, "wzeta_s2": K.wzeta,
            "wdrag": lambda x: (K.dragnorm() if K.name != "gaussian" else 2.0 / K.ndim) * x * x * K.w0(x)}[name](s)


GRAV = ("wzeta", "wgrav", "wpot", "wzeta_s2")


def points(c):
    s = []
    for x in c["s"]:
        s.append(x)
    for k, d in c["edges"]:
        e = float(k)
        for _ in range(abs(d)):
            e = np.nextafter(e, np.inf if d > 0 else 0.0)
        s.append(float(e))
    return np.array(s, float)


def check(c, ctx):
    K = kern(c["kernel"], c["ndim"])
    s = points(c)
    hd, v = evaluate(c["kernel"], c["ndim"], c["res"], s)
    close(hd[[0, 4]], K.R, 1e-14, 0, "range", "kernrange")
    close(hd[[1, 5]], 1 / K.R, 1e-12, 0, "range", "invkernrange")
    close(hd[[2, 6]], K.R ** 2, 1e-14, 0, "range", "kernrangesqd")
    grid = c["res"]
    ctx.nontrivial(((s > 0) & (s < K.R)).any())
    ctx.label(c["kernel"], "ndim%d" % c["ndim"], "edge" if c["edges"] else "noedge")
    for i, nm in enumerate(NF):
        if nm in GRAV and K.name == "gaussian":
            continue
        if nm != "wLOS":
            sel = s > 0 if nm in ("wgrav", "wpot", "wzeta") else s >= 0
            x = s[sel]
            e = ref(K, nm, x)
            sc = {"w0": K.norm, "wdrag": 1.0}.get(nm, 1.0)
            tol = 1e-9
            close(v[sel, 0, i], e, tol, tol * (K.norm if nm[:2] != "wp" and nm not in GRAV else 1.0) * (40 if K.name == "quintic" else 4), nm,
                  "analytic %s %s ndim=%d (s=%s)" % (K.name, nm, K.ndim, x[:8]))
        # tables: value within the analytic range over one table cell either side
        step = K.R / grid
        if nm.endswith("_s2"):
            x2 = s * s
            lo = np.sqrt(np.maximum(x2 - 1.01 * K.R ** 2 / grid, 0))
            hi = np.sqrt(x2 + 1.01 * K.R ** 2 / grid)
        else:
            lo, hi = np.maximum(s - 1.01 * step, 0), s + 1.01 * step
        pts = np.linspace(lo, hi, 21)
        if nm == "wLOS":
            if c["res"] < 40:
                continue
            e = K.wlos(pts[::5].ravel()).reshape(5, -1)
        else:
            pp = np.maximum(pts, 1e-12) if nm in GRAV or nm == "wpot" else pts
            e = ref(K, nm, pp.ravel()).reshape(pts.shape)
        mn, mx = e.min(0), e.max(0)
        # kernels are zero beyond the range (gravity ones Newtonian)
        t = v[:, 1, i]
        pad = (2e-3 if nm == "wLOS" else 2e-6) * (np.abs(e).max() + 1e-4) + 0.01 * (mx - mn)
        if nm in ("wgrav", "wpot"):
            m = s > 0
        else:
            m = np.ones(len(s), bool)
        bad = m & ~((t >= mn - pad) & (t <= mx + pad))
        if bad.any():
            j = int(np.argmax(bad))
            raise Violation("table_" + nm, "tabulated %s %s ndim=%d res=%d s=%.17g: %.12g outside [%.12g,%.12g]" %
                            (K.name, nm, K.ndim, c["res"], s[j], t[j], mn[j], mx[j]))
        out = (s * s >= K.R ** 2) if nm.endswith("_s2") else (s >= K.R)
        if nm not in ("wgrav", "wpot") and (v[out, 1, i] != 0).any() or (nm not in ("wgrav", "wpot", "wLOS") and (v[out, 0, i] != 0).any()):
            raise Violation("support_" + nm, "non-zero at or beyond the kernel range")
    if (v[:, :, 0] < -1e-12 * K.norm).any():
        raise Violation("negative", "negative kernel value")


strat = st.fixed_dictionaries(dict(
    kernel=st.sampled_from(["m4", "quintic", "gaussian"]), ndim=st.integers(1, 3), res=st.sampled_from([50, 100, 200, 500, 1000]),
    s=st.lists(st.one_of(st.floats(0, 3.3), st.floats(0, 1e-3), st.floats(2.9, 3.05), st.floats(1.95, 2.05)), min_size=1, max_size=30),
    edges=st.lists(st.tuples(st.sampled_from([1, 2, 3]), st.integers(-3, 3)), max_size=4).map(lambda l: [list(x) for x in l])))

corners = [dict(kernel=k, ndim=n, res=1000, s=[0.0] + [round(0.01 * i, 4) for i in range(1, 330)], edges=[[j, d] for j in (1, 2, 3) for d in (-2, -1, 0, 1)])
           for k in ("m4", "quintic", "gaussian") for n in (1, 2, 3)]
SUBS_ = [Sub("kernel", strat, check, quick=1600, thorough=40000, corners=corners)]
if __name__ == "__main__":
    main("C09", SUBS_, builds=[("kern", "std")],
         rule="a case is a kernel, a dimension, a table size and a list of separations s (incl. floats next to the knots); non-trivial if some 0<s<range",
         assumptions=["gravity functions of the Gaussian kernel are not implemented by the code (identically zero) and are not checked"])
