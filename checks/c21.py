import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import iccases, hashlib

TECH = "property-based testing (Hypothesis): generated parameter files run twice by the main program with the process environment perturbed and compared byte by byte; generator streams against a reference implementation, with seeds also constructed by inverting the generator"
NOTE = "24 built-in set-ups x schemes x dimensions x levels x output formats, a few steps each; 64-bit seeds, streams of up to 20000 numbers"
M = 2 ** 64 - 1
AMOD = 4768777513237032717
INV = pow(AMOD, -1, 2 ** 64)


def nxt(x):
    x ^= x >> 21
    x = (x ^ (x << 35)) & M
    return x ^ (x >> 4)


def inv(x):
    for sh, left in ((4, 0), (35, 1), (21, 0)):
        y = x
        for _ in range(64 // sh + 1):
            y = x ^ (((y << sh) & M) if left else (y >> sh))
        x = y
    return x


def seed_for(out, k):
    """seed whose k-th number (from 0) is `out` (64-bit), or None"""
    x = out * INV & M
    if x == 0:
        return None
    for _ in range(10 + k + 1):
        x = inv(x)
    return x or None


def stream(seed, n):
    x = seed if seed else 4101842887655102017
    for _ in range(10):
        x = nxt(x)
    r = []
    for _ in range(n):
        x = nxt(x)
        r.append(x * AMOD & M)
    return r


def streams(c, ctx):
    if c["how"] == "target":
        seed = seed_for(c["seed"], c["k"])
        if seed is None:
            return
    else:
        seed = c["seed"]
    n = c["n"]
    other = (seed ^ (1 << c["bit"])) & M
    kinds = ["float", "double", "int", "long", "gauss"]
    a, b = c["a"], c["b"]
    ctx.label(c["how"])
    ctx.nontrivial(n > 100)
    ref = stream(seed, 2 * n + 200)
    with Workdir() as w:
        L = ["xrand %d %d %s %s %r %r" % (seed, n, k, k, a, b) for k in kinds] + ["xrand %d %d again double 0 1" % (seed, n), "xrand %d %d other long 0 1" % (other, n)]
        # the simulation's own generator, seeded by the parameter file
        ps = c["pseed"]
        L += ["param randseed %d" % ps, "param rand_algorithm xorshift", "param run_id R", "param ndim 1", "param sim gradhsph", "param ic python", "sim", "process", "rand %d own float 0 1" % min(n, 200)]
        res = expect_ok(run_script(exe("gdrv"), L, w, {}, cpu=10)) or None
        D = {k: np.fromfile(os.path.join(w, k), dtype=np.int64 if k in ("int", "long", "other") else np.float64) for k in kinds + ["again", "other", "own"]}
    R = np.array(ref[:n], dtype=np.uint64)
    if not np.array_equal(D["long"].astype(np.uint64), R):
        raise Violation("stream_long", "64-bit stream of seed %d differs from xorshift(21,35,4)*4768777513237032717 at number %d" % (seed, int(np.argmax(D["long"].astype(np.uint64) != R))))
    if not np.array_equal(D["int"], R.astype(np.uint32).astype(np.int32).astype(np.int64)):
        raise Violation("stream_int", "integer stream is not the low 32 bits of the generator")
    f = R.astype(np.float64) / 2.0 ** 64
    for k in ("float", "double"):
        d = np.abs(D[k] - f)
        if len(D[k]) != n or not (d <= 1e-14).all():
            raise Violation("stream_" + k, "uniform stream of seed %d differs from the generator at number %d: %.17g" % (seed, int(np.argmax(d)), D[k][int(np.argmax(d))]))
        if not ((D[k] >= 0) & (D[k] <= 1)).all():
            raise Violation("range_" + k, "uniform number %.17g outside [0,1] (seed %d)" % (D[k][int(np.argmax((D[k] < 0) | (D[k] > 1)))], seed))
    if not np.array_equal(D["double"], D["again"]):
        raise Violation("repeat", "same seed gives a different stream")
    if np.intersect1d(D["other"], D["long"]).size > 0 and np.array_equal(D["other"], D["long"]):
        raise Violation("seeds", "seeds %d and %d give the same stream" % (seed, other))
    fo = np.array(stream(ps & M, min(n, 200)), dtype=np.uint64).astype(np.float64) / 2.0 ** 64
    if not (np.abs(D["own"] - fo) <= 1e-14).all():
        raise Violation("own_seed", "the simulation's generator does not follow randseed=%d" % ps)
    # gaussian numbers: Box-Muller of the uniform ones
    uv = np.array(ref, dtype=np.uint64).astype(np.float64) / 2.0 ** 64
    U, V = uv[0:2 * n:2], uv[1:2 * n:2]
    if (U > 0).all():
        # cosine evaluated with the code's own value of pi (only mean and spread are specified)
        g = D["gauss"]
        e = a + b * np.sqrt(-2 * np.log(U)) * np.cos(2 * np.pi * V)
        if len(g) != n or not (np.abs(g - e) <= 1e-6 * (abs(b) * (1 + np.sqrt(-2 * np.log(U)))) + 1e-12 * abs(a)).all():
            raise Violation("gauss", "Gaussian numbers are not mean + sigma*N(0,1) of the stream (seed %d)" % seed)
    if n >= 5000 and c["how"] == "random" and seed not in (0,):
        from math import sqrt
        x = D["double"]
        z = [(x.mean() - 0.5) * sqrt(12 * n), (x.var() - 1 / 12.) / sqrt(1 / 180. / n), np.mean((x[1:] - .5) * (x[:-1] - .5)) * 12 * sqrt(n)]
        y = (D["gauss"] - a) / b
        z += [y.mean() * sqrt(n), (y.var() - 1) * sqrt(n / 2.), np.mean(y ** 3) * sqrt(n / 15.)]
        h = np.histogram(x, 16, (0, 1))[0]
        z.append((((h - n / 16.) ** 2).sum() / (n / 16.) - 15) / sqrt(30))
        if max(abs(t) for t in z) > 7.5:
            raise Violation("statistics", "moments of the streams are off by %s standard deviations (seed %d)" % (np.round(z, 1), seed))
        ctx.label("statistics")


def outputs(w):
    o = {}
    for dp, dn, fn in os.walk(w):
        for f in fn:
            if f in (".stdout", ".stderr") or f.endswith(".timing") or f == "p.dat":
                continue
            o[os.path.relpath(os.path.join(dp, f), w)] = open(os.path.join(dp, f), "rb").read()
    return o


def runs(c, ctx):
    p = iccases.params(c)
    p.update(run_id=["A", "run_with_a_longer_name"][c["seed"] % 2], Nstepsmax=c["steps"], tend=1e9, out_file_form=["sf", "su", "column"][c["form"]], noutputstep=1, dt_snap=1e-12, tsnapfirst=0.0, rand_algorithm=c["alg"])
    if p["sim"] == "nbody" or c["ic"] == "hybridplummer":
        p["out_file_form"] = ["sf", "su"][c["form"] % 2]
    ctx.label(c["ic"], p["sim"], "%dd" % p["ndim"])
    R = []
    for k in range(2):
        with Workdir() as w0:
            w = w0 if k == 0 else os.path.join(w0, "another_folder_with_a_longer_name")
            os.makedirs(w, exist_ok=True)
            iccases.write(p, os.path.join(w, "p.dat"))
            env = [{"MALLOC_PERTURB_": "85"}, {"MALLOC_PERTURB_": "%d" % (1 + c["seed"] % 250), "GANDALF_VERIF_PAD": "x" * (17 + c["seed"] % 3000), "MALLOC_TOP_PAD_": "%d" % (4096 * (c["seed"] % 7))}][k]
            env["OMP_NUM_THREADS"] = "1"
            res = run_exe(MAIN(), ["p.dat"], w, cpu=40, env=env)
            R.append((res.rc, outputs(w), res.err[-300:] + res.out[-200:]))
            if k == 0 and res.hang:
                raise Inconclusive("slow")
    (r0, o0, e0), (r1, o1, e1) = R
    if r0 != r1:
        raise Violation("exit", "%s: exit status %s in one run, %s in the other: %s | %s" % (c["ic"], r0, r1, e0, e1))
    if set(o0) != set(o1):
        raise Violation("files", "%s: different sets of output files: %s" % (c["ic"], sorted(set(o0) ^ set(o1))))
    snaps = [f for f in o0 if f.startswith(p["run_id"] + ".") and any(("." + s + ".") in f for s in ("sf", "su", "column"))]
    ctx.nontrivial(len(snaps) >= 2 and r0 == 0)
    ctx.label("ended with error" if r0 else "completed")
    for f in sorted(o0):
        if o0[f] != o1[f]:
            x, y = o0[f], o1[f]
            j = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            raise Violation("bytes", "%s (%s, %dd): file %s differs between two identical runs at byte %d of %d" % (c["ic"], p["sim"], p["ndim"], f, j, len(x)))


def MAIN():
    return exe("gandalf", "std", "Common/gandalf.cpp")


seeds = st.one_of(st.integers(0, M), st.integers(0, 50), st.sampled_from([0, 1, M, 2 ** 63, 2 ** 31, 2 ** 32]))
SUBS_ = [
    Sub("streams", st.fixed_dictionaries(dict(how=st.sampled_from(["random", "random", "random", "target"]), seed=seeds, k=st.integers(0, 50), n=st.sampled_from([10, 500, 6000]), bit=st.integers(0, 63),
                                              a=lin(-5, 5), b=lin(0.1, 4), pseed=st.integers(-2 ** 31, 2 ** 31 - 1))), streams, quick=240, thorough=6000,
        corners=[dict(how="target", seed=t, k=k, n=500, bit=3, a=0.0, b=1.0, pseed=ps) for t in (M, M - 1, 1, 2 ** 63) for k in (0, 7) for ps in (0, 1, -1)]),
    Sub("runs", st.fixed_dictionaries(dict(iccases.strategy([i for i in iccases.ICS if i != "gaussianring"]), steps=st.integers(2, 6), form=st.integers(0, 2), alg=st.sampled_from(["xorshift", "xorshift", "none"]))), runs, quick=300, thorough=4000),
]
if __name__ == "__main__":
    main("C21", SUBS_, builds=[("gdrv", "std"), ("gandalf", "std", "Common/gandalf.cpp")],
         rule="a stream case is non-trivial if more than 100 numbers are compared; a run case if both runs completed and wrote at least two snapshots",
         assumptions=["single-threaded build (OpenMP and MPI are off in the repository's build)", "timing reports are excluded"])
