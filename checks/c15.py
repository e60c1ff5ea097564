import os, sys, re, glob, hashlib, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen

TECH = "property-based testing (Hypothesis): generated runs of the main program interrupted after arbitrary steps (once or twice) and resumed with the restart flag, compared with the uninterrupted run (differential); snapshot numbering, schedule and run counters exactly, particle data within the truncation error of one resynchronisation"
NOTE = "grad-h SPH, MFV, pure N-body (leapfrog, Hermite); gas, cdm and icm particles, stars, gravity; 1-3 dimensions, 1-4 levels; restart from full snapshots and from temporary restart dumps, text and binary snapshots, several unit systems, lite snapshots"


def MAIN():
    return exe("gandalf", "std", "Common/gandalf.cpp")


def resume(c, ctx):
    d = dict(c["p"])
    nd, n = d["ndim"], d["n"]
    rs = rng(c["seed"])
    nbody = c["sim"] == "nbody"
    mfv = c["sim"] == "mfvmuscl"
    S = gen.system(d)
    grav = c["grav"] and not nbody
    form = c["form"]
    ns = max(2, c["ns"]) if nbody else c["ns"]
    P = dict(ndim=nd, sim=c["sim"], run_id="A", Nlevels=c["levels"], gas_eos="energy_eqn", hydro_forces=1, self_gravity=int(grav), courant_mult=.01, accel_mult=.01, nbody_mult=.003, nbody=c["nbody"], nbody_softening=1,
             zero_mass_flux=int(mfv and (grav or ns > 0)), h_fac=1.2, h_converge=1e-6, ndiagstep=7, nrestartstep=10 ** 6, noutputstep=10 ** 6, tend=1e99, dt_snap=1e99, tsnapfirst=1e99, Nstepsmax=99999999, out_file_form=form, dt_python=1e9)
    if not nbody:
        P["nbody"] = "lfkdk"
    P.update(gen.bc_params("ooo"[:nd], nd, -.5, 1.0))
    if c["units"]:
        P.update(dimensionless=0, routunit=str(rs.choice(["pc", "au", "km"])), moutunit=str(rs.choice(["m_sun", "g", "m_jup"])), toutunit=str(rs.choice(["yr", "myr", "s"])), Eoutunit=str(rs.choice(["J", "erg"])), voutunit=str(rs.choice(["km_s", "m_s", "cm_s"])), uoutunit=str(rs.choice(["J_kg", "erg_g"])),
                 rinunit="pc", minunit="m_sun", tinunit="myr", vinunit="km_s", uinunit="J_kg", rhoinunit="g_cm3")
    arr, star = None, None
    if not nbody:
        v = S["v"] * .3
        arr = dict(coords(S["r"] - .5, v), m=S["m"], u=S["u"])
        pt = np.zeros(n)
        if c["types"] and not mfv and grav:
            pt = rs.choice([0, 0, 1, 2], n).astype(float)
            pt[:1] = 0
            arr["ptype"] = pt
    if ns:
        star = dict(coords(rs.uniform(-.8, .8, (ns, nd)), rs.normal(size=(ns, nd)) * .3), m=rs.uniform(.1, 1, ns), h=rs.uniform(.1, .3, ns))
    ctx.label(c["sim"], form, "levels%d" % min(c["levels"], 2), "units" if c["units"] else "dimensionless", "grav%d" % grav, "stars%d" % min(ns, 2), "cuts%d" % len(c["cuts"]))
    K = c["steps"]
    with Workdir() as w:
        L, F = sim_lines(P, arr, star)
        a = os.path.join(w, "a")
        os.makedirs(a)
        # probe of the run: times of the steps; initial conditions file
        res = run_script(exe("gdrv"), L + ["writesnap IC sf"] + ["setup", "dump S0", "steptrace %d S" % K, "units UU"], a, F, cpu=30)
        if res.hang:
            raise Inconclusive("slow")
        if res.rc:
            ctx.label("probe run stops")
            return
        D = [res.dump("S0")] + [res.dump("S.%d" % i) for i in range(K)]
        T = np.array([float(np.ravel(s.t)[0]) for s in D])
        U = np.ravel(D[0].units)[0]
        dt = T[-1] / K
        unit = np.diff(T).max()
        ddt = np.abs(np.diff(np.diff(T))).max()
        tie = any(min(abs(T[1:] - (first_ + q * c["snap"] * unit))) < .04 * dt + ddt for first_ in [{"zero": 0.0, "same": c["snap"] * unit, "late": 2.4 * c["snap"] * unit}[c["first"]]] for q in range(int(T[-1] / unit / c["snap"]) + 2) if first_ + q * c["snap"] * unit > 0)
        if nbody and c["nbody"] != "lfkdk":
            tie = True          # the first Hermite step after a start is a special, shorter one
        elif tie:
            ctx.label("snapshot due at a step: times not compared")
        Q = dict(P, ic="file", in_file="IC", in_file_form="sf")
        snap = c["snap"] * unit
        first = {"zero": 0.0, "same": snap, "late": 2.4 * snap}[c["first"]]
        j = max(1, K - 2)
        Q.update(tend=float(.5 * (T[j - 1] + T[j]) * U), dt_snap=float(snap * U), tsnapfirst=float(first * U), nrestartstep=c["nrestart"])
        if c["lite"]:
            Q.update(litesnap=1, dt_litesnap=float(snap * 1.3 * U), tlitesnapfirst=float(first * 1.1 * U))

        def write(dr, **kw):
            q = dict(Q, **kw)
            q.pop("ic"), q.update(ic="file")
            with open(os.path.join(dr, "p.dat"), "w") as f:
                f.write("Simulation parameters\n")
                for k in sorted(dict(BASE(), **q)):
                    v = dict(BASE(), **q)[k]
                    f.write("%s : %s = %s\n" % (k, k, repr(v) if isinstance(v, float) else v))

        def go(dr, *args):
            r = run_exe(MAIN(), list(args) + ["p.dat"], dr, cpu=30, env={"OMP_NUM_THREADS": "1"})
            if r.hang:
                raise Inconclusive("slow")
            return r
        A, B = os.path.join(w, "A"), os.path.join(w, "B")
        for x in (A, B):
            os.makedirs(x)
            shutil.copy(os.path.join(a, "IC"), x)
        write(A)
        r = go(A)
        if r.rc:
            raise Violation("crash", "the uninterrupted run fails although the same run in one process does not: " + r.tail()[-300:])

        def snaps(dr):
            return sorted(os.path.basename(f) for f in glob.glob(os.path.join(dr, "A.%s.?????" % form)) + glob.glob(os.path.join(dr, "A.slite.?????")))

        def digest(dr):
            return {f: hashlib.sha1(open(os.path.join(dr, f), "rb").read()).hexdigest() for f in snaps(dr)}
        used = []
        for cut in c["cuts"]:
            k = 1 + int(cut * (j - 1))
            write(B, Nstepsmax=k)
            before = digest(B)
            r = go(B, *(["-r"] if used else []))
            if r.rc:
                raise Violation("crash_resume", "run interrupted after step %d fails: %s" % (k, r.tail()[-300:]))
            check_log(B, form, used, before, digest(B))
            rl = os.path.join(B, "A.restart")
            used.append(open(rl).read().split()[1] if os.path.exists(rl) else None)
        before = digest(B)
        write(B)
        r = go(B, "-r")
        if r.rc:
            raise Violation("crash_resume", "run resumed from %s fails: %s" % (used[-1], r.tail()[-300:]))
        check_log(B, form, used, before, digest(B))
        ctx.label("from " + ("nothing" if used[-1] is None else "dump" if used[-1].endswith("tmp") else "snapshot"))
        sA, sB = snaps(A), snaps(B)
        full = [f for f in sA if "slite" not in f]
        ctx.nontrivial(len(full) >= 3 and used[-1] is not None)
        if sA != sB:
            if (c["levels"] == 1 and not tie) or abs(len(sA) - len(sB)) > (2 if c["lite"] else 1):
                raise Violation("snapshots", "snapshots of the resumed run (cut %s, resumed from %s): %s; uninterrupted: %s" % (c["cuts"], used, sB, sA))
        common = [f for f in sA if f in sB and "slite" not in f]
        if not common:
            return
        # read all snapshots back
        q = dict(P)
        L3, F3 = sim_lines(q, arr, star)
        L3 = [x for x in L3 if not x.startswith(("import", "field"))]
        X = {}
        for tag, dr in (("ra", A), ("rb", B)):
            os.makedirs(os.path.join(w, tag))
            C = L3 + ["restart"]
            for f in common:
                C += ["readsnap %s %s" % (os.path.join(dr, f), form), "convert", "dump %s" % f.replace(".", "_")]
            rr = run_script(exe("gdrv"), C, os.path.join(w, tag), F3, cpu=30)
            expect_ok(rr)
            X[tag] = [rr.dump(f.replace(".", "_")) for f in common]
        prev = None
        for f, x, y in zip(common, X["ra"], X["rb"]):
            g = lambda s, k: float(np.ravel(s[k])[0])
            tx, ty = g(x, "t"), g(y, "t")
            num = int(f[-5:])
            for s, who in ((x, "uninterrupted"), (y, "resumed")):
                if int(g(s, "Noutsnap")) != num:
                    raise Violation("number", "%s run: %s carries number %d" % (who, f, int(g(s, "Noutsnap"))))
                sched = first + (num - 1) * snap
                if not abs(g(s, "tsnaplast") - sched) <= 1e-5 * abs(sched) + 1e-12 * dt:
                    raise Violation("schedule", "%s run: %s belongs to scheduled time %.9g, not %.9g (resumed from %s)" % (who, f, g(s, "tsnaplast"), sched, used))
                if g(s, "t") < sched * (1 - 1e-5) - 1e-12:
                    raise Violation("early", "%s run: %s written at t=%.9g before its time %.9g" % (who, f, g(s, "t"), sched))
            steptol = 0 if c["levels"] == 1 else None
            if steptol is not None and abs(int(g(x, "Nsteps")) - int(g(y, "Nsteps"))) > steptol:
                i = int(g(x, "Nsteps"))
                if not tie:
                    raise Violation("steps", "%s is step %d of the resumed run, step %d of the uninterrupted one (resumed from %s)" % (f, int(g(y, "Nsteps")), i, used))
            if abs(tx - ty) > (2 ** c["levels"] if c["levels"] > 1 else 1.3 if tie else .03) * dt + (2 if tie else 1) * ddt:
                raise Violation("time", "%s: t=%.9g resumed, %.9g uninterrupted (step %.3g, resumed from %s)" % (f, ty, tx, dt, used))
            compare(f, x, y, ty - tx, dt + 30 * ddt, nd, D, c, used, ctx)


def BASE():
    import pbt
    return dict(pbt.BASE_PARAMS)


def check_log(dr, form, used, before, after):
    lost = sorted(set(before) - set(after))
    if lost:
        raise Violation("lost", "snapshots %s disappear when resuming from %s" % (lost, used[-1:]))
    if used and used[-1] and not used[-1].endswith("tmp"):
        for f in before:
            if "slite" not in f and f <= used[-1] and before[f] != after[f]:
                raise Violation("overwritten", "%s, written before the restart point %s, is overwritten" % (f, used[-1]))


def compare(f, x, y, dT, dt, nd, D, c, used, ctx):
    T = [float(np.ravel(s.t)[0]) for s in D]
    tx = float(np.ravel(x.t)[0])
    for pre, num in (("", "Nhydro"), ("s_", "Nstar")):
        n, n2 = int(np.ravel(x[num])[0]), int(np.ravel(y[num])[0])
        if n != n2:
            raise Violation("count", "%s: %d particles (%s) in the resumed run, %d in the uninterrupted one" % (f, n2, num, n))
        if n == 0:
            continue
        ox = oy = np.arange(n)
        if pre == "":
            ox, oy = np.argsort(x.iorig, kind="stable"), np.argsort(y.iorig, kind="stable")
            if not np.array_equal(x.iorig[ox], y.iorig[oy]):
                raise Violation("identity", "%s: particle identities differ from the uninterrupted run (resumed from %s)" % (f, used))
            if not np.array_equal(x.ptype[ox], y.ptype[oy]):
                raise Violation("type", "%s: types of particles change on resuming from %s" % (f, used))
        # change of each quantity over one step, from the traced run
        i0 = int(np.searchsorted(T, tx))
        lo, hi = max(0, i0 - 2), min(len(D) - 1, i0 + 2)
        for k in ("m", "r", "v", "u", "h"):
            if pre and k in ("u",):
                continue
            p, q = np.atleast_1d(x[pre + k]), np.atleast_1d(y[pre + k])
            p, q = p.reshape(n, -1)[ox], q.reshape(n, -1)[oy]
            # the uninterrupted run as traced, by particle identity, interpolated to the time of the snapshot
            series = np.array([np.asarray(s[pre + k]).reshape(n, -1)[np.argsort(s.iorig, kind="stable") if not pre else slice(None)] for s in D])
            ch = np.abs(np.diff(series, axis=0)).max()
            ch2 = np.abs(np.diff(series, 2, axis=0)).max() if len(T) > 2 else ch
            ty = tx + dT
            j = min(max(int(np.searchsorted(T, ty)), 1), len(T) - 1)
            z = (ty - T[j - 1]) / (T[j] - T[j - 1])
            p = series[j - 1] * (1 - z) + series[j] * z
            d = np.abs(p - q).max()
            lim = (.05 if c["levels"] == 1 else .3) * ch + 2 * ch2 * (1 if c["levels"] == 1 else 3) + 1e-5 * np.abs(p).max()
            ctx.stat = getattr(ctx, "stat", {})
            ctx.stat[(pre + k)] = max(ctx.stat.get(pre + k, 0), d / lim if lim else 0)
            if os.environ.get("C15_STAT"):
                sys.stderr.write("STAT %s %s lev%d %s %.3g\n" % (c["sim"], pre + k, c["levels"], f, d / max(lim, 1e-300)))
            if not d <= lim:
                raise Violation("data_" + pre + k, "%s: %s differs by %.3g (largest change over one step %.3g) from the uninterrupted run, resumed from %s" % (f, pre + k, d, ch, used))


CASE = st.fixed_dictionaries(dict(p=gen.particles(30, 60, kinds=["uniform", "jitter"], masses=("equal", "spread"), vels=("random", "cold", "shear")), seed=st.integers(0, 2 ** 20),
                                  sim=st.sampled_from(["gradhsph", "gradhsph", "mfvmuscl", "nbody"]), nbody=st.sampled_from(["lfkdk", "hermite4", "hermite4"]), grav=st.booleans(), ns=st.integers(0, 3), levels=st.sampled_from([1, 1, 1, 4]), form=st.sampled_from(["sf", "su"]), units=st.booleans(), types=st.booleans(),
                                  steps=st.integers(8, 24), snap=lin(1.4, 6), first=st.sampled_from(["zero", "same", "late"]), nrestart=st.sampled_from([1, 3, 1000000, 1000000]), lite=st.booleans(), cuts=st.lists(lin(0, 1), min_size=1, max_size=2).map(sorted)))
SUBS_ = [Sub("resume", CASE, resume, quick=700, thorough=6000)]
if __name__ == "__main__":
    main("C15", SUBS_, builds=[("gdrv", "std"), ("gandalf", "std", "Common/gandalf.cpp")],
         rule="non-trivial if the run was resumed from a snapshot or restart dump and at least three full snapshots were compared",
         assumptions=["quantities not stored in snapshots (sink spins, accelerations, time-step levels, time-dependent viscosity) are re-derived on restart", "the column format carries no run counters and cannot be resumed with numbering (excluded)"])
