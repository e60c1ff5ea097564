"""Property-based testing runtime: generated cases -> harness process -> oracle, with sharding over
worker processes, Hypothesis shrinking, replay files, known findings and evidence files."""
import os, sys, json, time, hashlib, tempfile, shutil, subprocess, signal, resource, traceback, argparse
import multiprocessing as mp
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

import hypothesis
from hypothesis import strategies as st, settings, given, Phase, HealthCheck, seed as hseed
import hypothesis.internal.conjecture.engine as _eng
_eng.MAX_SHRINKING_SECONDS = 40


class Violation(Exception):
    def __init__(self, key, msg=""):
        super().__init__("%s: %s" % (key, msg))
        self.key, self.msg = key, msg


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------------------------------------
#  Running the code under test
# ---------------------------------------------------------------------------------------------
class State(dict):
    """Contents of one dump file (name -> array); scalars are floats."""
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


SCALARS = {"t", "timestep", "n", "nresync", "Nsteps", "Nblocksteps", "Nfullsteps", "level_max", "level_step", "dt_max",
           "Noutsnap", "tsnapnext", "tsnaplast", "tend", "Nlevels", "integration_step", "Nhydro", "Ntot", "NPeriodicGhost",
           "Nstar", "Nsink", "mmean", "h_fac", "kernrange", "diag0_Etot", "Norbit", "Nbinary", "Ntriple", "Nquadruple"}
VECTORS = {"r", "v", "a", "atree", "r0", "v0", "a0", "Wprim", "Qcons0", "dQ", "dQdt", "alpha_slope", "rdmdt", "rdmdt0", "B", "grad", "s_r", "s_v", "s_a",
           "s_adot", "s_a2dot", "s_a3dot", "s_r0", "s_v0", "s_a0", "k_angmom", "box", "orbit", "units", "diag"}


def load_dump(fn):
    d = open(fn, "rb").read()
    out, p = State(), 0
    while p < len(d):
        e = d.index(b"\n", p)
        name, n, c = d[p:e].decode().split()
        n, c = int(n), int(c)
        nb = n * c * 8
        a = np.frombuffer(d, dtype="<f8", count=n * c, offset=e + 1).copy() if nb else np.zeros(0)
        p = e + 1 + nb + 1
        if name in SCALARS:
            out[name] = float(a[0])
        elif name in VECTORS:
            out[name] = a.reshape(n, c)
        else:
            out[name] = a
    return out


class Result:
    def __init__(self, rc, out, err, cwd, cpu_exceeded):
        self.rc, self.out, self.err, self.cwd, self.hang = rc, out, err, cwd, cpu_exceeded

    def dump(self, name):
        p = os.path.join(self.cwd, name)
        if not os.path.exists(p):
            return None
        return load_dump(p)

    def tail(self):
        return (self.out[-600:] + " | " + self.err[-800:]).replace("\n", " / ")


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix="vf_", dir=os.environ.get("VERIF_TMP", "/tmp")))
    return SCRATCH[1]


class Workdir:
    """A fresh scratch directory for one case; removed afterwards."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=scratch())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def run_exe(exe, args, cwd, cpu=60, stdin=None, env=None):
    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": cwd, "OMP_NUM_THREADS": "1", "GANDALF_VERIF_NO_LOS": "1",
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
         "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=78"}
    if os.path.basename(exe).startswith("kern"):
        del e["GANDALF_VERIF_NO_LOS"]
    for k, x in (env or {}).items():
        if x is None:
            e.pop(k, None)
        else:
            e[k] = x
    out, err = os.path.join(cwd, ".stdout"), os.path.join(cwd, ".stderr")
    with open(out, "wb") as fo, open(err, "wb") as fe:
        try:
            r = subprocess.run([exe] + list(args), cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=e,
                               preexec_fn=lim, timeout=cpu * 6)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise Inconclusive("wall clock")

    def rd(p):
        with open(p, "rb") as f:
            b = f.read(4 << 20)
        return b.decode(errors="replace")
    res = Result(rc, rd(out), rd(err), cwd, rc in (-signal.SIGXCPU, -signal.SIGKILL))
    return res


def write_arrays(cwd, arrays):
    for k, a in arrays.items():
        np.ascontiguousarray(a, dtype="<f8").tofile(os.path.join(cwd, k))


def run_script(exe, lines, cwd, arrays=None, cpu=60, env=None):
    if arrays:
        write_arrays(cwd, arrays)
    with open(os.path.join(cwd, "script"), "w") as f:
        f.write("\n".join(lines) + "\n")
    return run_exe(exe, ["script"], cwd, cpu, env=env)


def expect_ok(res, key="crash"):
    """A valid case must run to the end of its script."""
    if res.hang:
        raise Violation("hang", "no result within the processor-time limit")
    if res.rc != 0 or "DONE" not in res.err[-200:]:
        if "HARNESS" in res.err:
            raise RuntimeError("harness misuse: " + res.err[-500:])
        raise Violation(key, "exit status %d: %s" % (res.rc, res.tail()))
    return res


BASE_PARAMS = dict(tabulated_kernel=0, run_id="T", out_file_form="su", dimensionless=1, ic="python", tend=1e30, dt_snap=1e30, tsnapfirst=1e30,
                   noutputstep=1000000, ndiagstep=1000000, nrestartstep=1000000, Nstepsmax=2000000000)


def sim_lines(params, arrays=None, star=None, extra_fields=()):
    """Script prefix: parameters, simulation object, imported arrays. Returns (lines, files)."""
    p = dict(BASE_PARAMS)
    p.update(params)
    L, files = [], {}
    if arrays:
        p["Nhydro"] = len(next(iter(arrays.values())))
    else:
        p.setdefault("Nhydro", 0)
    if star:
        p["Nstar"] = len(next(iter(star.values())))
    else:
        p.setdefault("Nstar", 0)
    for k, v in p.items():
        L.append("param %s %s" % (k, repr(float(v)) if isinstance(v, (float, np.floating)) else v))
    L.append("sim")
    L.append("presetup")
    FIELD = {"ptype", "dead", "iorig", "radius"}
    for typ, arr in (("sph", arrays), ("star", star)):
        for q, a in (arr or {}).items():
            fn = "%s_%s.f64" % (typ, q)
            files[fn] = np.asarray(a, dtype=float)
            L.append(("field %s %s %s" % (typ, q, fn)) if q in FIELD else "import %s %s %s" % (q, typ, fn))
    return L, files


def coords(r, v=None):
    d = {}
    for k, q in enumerate("xyz"[:r.shape[1]]):
        d[q] = r[:, k]
        if v is not None:
            d["v" + q] = v[:, k]
    return d


# ---------------------------------------------------------------------------------------------
#  Checks
# ---------------------------------------------------------------------------------------------
class Sub:
    """One generated test: strategy of JSON-able cases, check(case, ctx) raising Violation."""
    def __init__(self, name, strategy, check, quick, thorough=None, corners=(), shards=8, shrink=True):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 10
        self.corners, self.shards, self.shrink = list(corners), shards, shrink


class Ctx:
    def __init__(self):
        self.labels = {}
        self.nt = False

    def nontrivial(self, flag=True):
        self.nt = self.nt or bool(flag)

    def label(self, *names):
        for n in names:
            self.labels[str(n)] = self.labels.get(str(n), 0) + 1


def canon(case):
    return json.dumps(case, sort_keys=True)


def run_case(sub, case):
    """-> (ctx, violation or None, inconclusive?)"""
    ctx = Ctx()
    try:
        sub.check(case, ctx)
        return ctx, None, False
    except Violation as v:
        return ctx, v, False
    except Inconclusive:
        return ctx, None, True


class _Stop(BaseException):
    pass


def _worker(task):
    prop, subi, shard, n, seed, deadline = task
    sub = SUBS[subi]
    st_ = dict(sub=sub.name, evals=0, nt=set(), labels={}, samples=[], fail=None, inconcl=0, known={}, err=None, cpu=0.0)
    t0 = time.time()
    failing = {}

    def one(case, from_corner=False):
        if STOP.is_set() and not failing:
            raise _Stop()
        if time.time() > deadline and not failing:
            raise _Stop()
        ctx, v, inc = run_case(sub, case)
        st_["evals"] += 1
        if inc:
            st_["inconcl"] += 1
            return
        for k, c in ctx.labels.items():
            st_["labels"][k] = st_["labels"].get(k, 0) + c
        if ctx.nt:
            h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
            if h not in st_["nt"]:
                st_["nt"].add(h)
                if len(st_["samples"]) < 2:
                    st_["samples"].append(case)
        if v is not None:
            kf = known_match(prop, sub.name, case, v)
            if kf:
                st_["known"][kf] = st_["known"].get(kf, 0) + 1
                return
            failing["case"], failing["key"], failing["msg"] = case, v.key, v.msg
            raise v

    try:
        if shard == 0:
            for c in sub.corners:
                try:
                    one(c)
                except Violation as v:
                    st_["fail"] = dict(case=c, key=v.key, msg=v.msg)
                    break
        if st_["fail"] is None and n > 0:
            phases = [Phase.generate] + ([Phase.shrink] if sub.shrink else [])
            h = int(hashlib.sha256(("%s/%s/%d/%d" % (prop, sub.name, shard, seed)).encode()).hexdigest()[:12], 16)

            @hseed(h)
            @settings(max_examples=n, database=None, deadline=None, phases=phases, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), print_blob=False, verbosity=hypothesis.Verbosity.quiet)
            @given(sub.strategy)
            def go(case):
                one(case)
            try:
                go()
            except Violation:
                st_["fail"] = dict(failing)
    except _Stop:
        pass
    except BaseException as e:
        if failing:
            st_["fail"] = dict(failing)
        else:
            st_["err"] = traceback.format_exc()[-3000:]
    if st_["fail"]:
        STOP.set()
    st_["wall"] = time.time() - t0
    if SCRATCH and SCRATCH[0] == os.getpid():
        shutil.rmtree(SCRATCH[1], ignore_errors=True)
    return st_


KNOWN = []


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def known_match(prop, sub, case, v):
    """A listed finding matches by property, sub-test, violation key and a predicate over the case."""
    for k in KNOWN:
        if k.get("status") == "fixed" or k["property"] != prop or k["sub"] != sub or k["key"] != v.key:
            continue
        if all(case.get(a) in b for a, b in k.get("when", {}).items()):
            return k["id"]
    return None


SUBS = []
STOP = None


def main(prop, subs, level="exploration", rule="", assumptions=(), builds=(), budget=None):
    """builds: list of (harness, variant) built first (path via exe())."""
    global SUBS, STOP, KNOWN
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--sub")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    t0 = time.time()
    SUBS = [s for s in subs if not a.sub or s.name in a.sub.split(",")]
    KNOWN = load_known()
    try:
        for h in builds:
            exe(*h)
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        sys.exit(2)
    tb = time.time() - t0
    if a.replay:
        d = json.load(open(a.replay))
        sub = [s for s in subs if s.name == d["sub"]][0]
        ctx, v, inc = run_case(sub, d["case"])
        print("replay:", v or ("inconclusive" if inc else "holds"))
        sys.exit(1 if v else 0)
    STOP = mp.Event()
    budget = budget or (420 if a.tier == "quick" else 5 * 3600)
    deadline = time.time() + budget
    tasks = []
    for i, s in enumerate(SUBS):
        n = int((s.quick if a.tier == "quick" else s.thorough) * a.scale + 0.5)
        sh = max(1, min(s.shards, n))
        for k in range(sh):
            tasks.append((prop, i, k, n // sh + (1 if k < n % sh else 0), a.seed, deadline))
    # interleave the sub-tests over the pool
    tasks.sort(key=lambda t: t[2])
    res = []
    with mp.get_context("fork").Pool(a.j, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_worker, tasks, chunksize=1):
            res.append(r)
    errs = [r["err"] for r in res if r["err"]]
    fails = [r for r in res if r["fail"]]
    labels, known, nt, ev, inc, samples = {}, {}, set(), 0, 0, []
    per = {}
    for r in res:
        ev += r["evals"]
        inc += r["inconcl"]
        nt |= {(r["sub"], x) for x in r["nt"]}
        p = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, labels={}, cpu_s=0))
        p["evaluations"] += r["evals"]
        p["nontrivial"] += len(r["nt"])
        p["cpu_s"] = round(p["cpu_s"] + r["wall"], 1)
        for k, c in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + c
        for k, c in r["known"].items():
            known[k] = known.get(k, 0) + c
        for s_ in r["samples"][:1]:
            if len([x for x in samples if x["sub"] == r["sub"]]) < 2:
                samples.append(dict(sub=r["sub"], case=s_))
    # listed findings: replay each listed input
    for k in KNOWN:
        if k["property"] == prop and k.get("status") != "fixed" and "case" in k:
            sub = [s for s in subs if s.name == k["sub"]]
            if sub:
                _, v, _ = run_case(sub[0], k["case"])
                if v is not None and v.key == k["key"]:
                    known.setdefault(k["id"], 0)
    for kid in known:
        k = [x for x in KNOWN if x["id"] == kid][0]
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    viol = []
    for f in fails:
        sub = [s for s in SUBS if s.name == f["sub"]][0]
        case = f["fail"]["case"]
        vs = [run_case(sub, case)[1] for _ in range(3)]
        if all(v is not None for v in vs):
            viol.append((sub.name, case, vs[0]))
        else:
            print("NOTE: failure in %s did not reproduce on replay: %s" % (sub.name, f["fail"]["msg"][:300]))
    if SCRATCH and SCRATCH[0] == os.getpid():
        shutil.rmtree(SCRATCH[1], ignore_errors=True)
    out = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed, level=level,
               coverage=dict(evaluations=ev, distinct_nontrivial=len(nt), rule=rule, samples=samples or [dict(note="none")],
                             inconclusive=inc, per_subtest=per, known_findings=known, build_s=round(tb, 1)),
               assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.sub:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(out, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d cases, %d distinct non-trivial, %d inconclusive, build %.0fs, total %.0fs" % (prop, ev, len(nt), inc, tb, time.time() - t0))
    for k, p in per.items():
        print("   %-24s n=%-6d nt=%-6d cpu=%-7s %s" % (k, p["evaluations"], p["nontrivial"], p["cpu_s"],
              " ".join("%s=%d" % kv for kv in sorted(p["labels"].items()))))
    rc = 0
    seen = set()
    for name, case, v in viol:
        if (name, v.key) in seen:
            continue
        seen.add((name, v.key))
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "replay", "%s-%s-%s.json" % (prop, name, hashlib.sha1(canon(case).encode()).hexdigest()[:8]))
        json.dump(dict(property=prop, sub=name, key=v.key, msg=v.msg, case=case), open(rp, "w"), indent=1)
        print("  %s/%s: %s" % (name, v.key, v.msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    if errs and rc == 0:
        print("CHECK-ERROR", errs[0])
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


_exe = {}


def exe(h, variant="std", main=None):
    if (h, variant) not in _exe:
        _exe[(h, variant)] = B.build(h, variant, main=main)
    return _exe[(h, variant)]


def rng(seed):
    return np.random.default_rng(seed)


def close(a, b, rtol, atol, key, what):
    """Violation unless |a-b| <= atol + rtol*|b| elementwise; NaNs are violations."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if b.ndim == 0:
        b = np.full(a.shape, float(b))
    if a.shape != b.shape:
        raise Violation(key, "%s: shapes %s and %s" % (what, a.shape, b.shape))
    bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(np.abs(a - b), nan=1e300), -1)), a.shape) if a.shape else ()
        raise Violation(key, "%s: got %.12g expected %.12g at %s (%d of %d bad)" %
                        (what, a[i], b[i], i, int(bad.sum()), a.size))


def logf(lo, hi):
    """Log-uniform floats, rounded so that cases stay readable."""
    return st.floats(np.log10(lo), np.log10(hi)).map(lambda e: float("%.6g" % 10.0 ** e))


def lin(lo, hi):
    return st.floats(lo, hi).map(lambda x: float("%.6g" % x))
