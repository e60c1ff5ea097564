import os, sys, re, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen

TECH = "property-based testing (Hypothesis): generated runs traced step by step against a reference model of run control (end of run, snapshot schedule, numbering, restart log) and an independent recomputation of every diagnostic record from the traced particle states"
NOTE = "grad-h SPH, MFV, pure N-body; stars, gravity, external potentials, 1-3 dimensions, 1-5 levels; Run, InteractiveRun and chunked runs; snapshot intervals below and above the timestep, first snapshot at zero or later; code and physical output units; up to 40 steps"
ABORT = ("isnormal(W", "part.u > ", "part.pressure > ", "part.m > ", "isnormal(part", "Negative pstar", "Wleft[", "Wright[", "Smoothing length too large", "Error : Particles more than")


def expect(s, nd, hydro, grav):
    """diagnostics of a traced state in code units"""
    n, ns = int(np.ravel(s.Nhydro)[0]), int(np.ravel(s.Nstar)[0])
    E = dict(mtot=0.0, ke=0.0, u=0.0, gpe=0.0, mom=np.zeros(nd), ang=np.zeros(3), rcom=np.zeros(nd), force=np.zeros(nd))
    S = dict(E)
    dead = 0
    sets = []
    if n:
        dead = int((np.asarray(s.flags, dtype=np.int64) & 1).sum()) if False else 0
        sets.append((s.m, s.r.reshape(n, nd), s.v.reshape(n, nd), s.a.reshape(n, nd), s.gpot, s.u))
    if ns:
        sets.append((s["s_m"], s["s_r"].reshape(ns, nd), s["s_v"].reshape(ns, nd), s["s_a"].reshape(ns, nd), s["s_gpot"], np.zeros(ns)))
    A = {k: 0.0 for k in ("mtot", "ke", "u", "gpe")}
    A.update({k: np.zeros(nd) for k in ("mom", "rcom", "force")}, ang=np.zeros(3))
    for m, r, v, a, g, u in sets:
        for sg, D in ((1, E), (0, A)):
            f = (lambda x: x) if sg else np.abs
            D["mtot"] = D["mtot"] + m.sum()
            D["ke"] = D["ke"] + .5 * (m * (v ** 2).sum(1)).sum()
            D["u"] = D["u"] + f(m * u).sum()
            D["gpe"] = D["gpe"] - .5 * f(m * g).sum()
            for k, x in (("mom", v), ("rcom", r), ("force", a)):
                D[k] = D[k] + f(m[:, None] * x).sum(0)
            R, V = np.zeros((len(m), 3)), np.zeros((len(m), 3))
            R[:, :nd], V[:, :nd] = r, v
            if nd > 1:
                D["ang"] = D["ang"] + f(m[:, None] * (np.cross(R, V) if sg else np.cross(np.abs(R), np.abs(V)) * 0 + np.abs(R).sum(1)[:, None] * np.abs(V).sum(1)[:, None])).sum(0)
    return E, A, n, ns


def check_line(L, s, nd, U, where, hydro, grav):
    n, ns = int(np.ravel(s.Nhydro)[0]), int(np.ravel(s.Nstar)[0])
    E, A, _, _ = expect(s, nd, hydro, grav)
    M = E["mtot"]

    def eq(what, got, ref, sc):
        # six significant digits are written
        if not abs(got - ref) <= 1e-5 * abs(ref) + 1e-12 * sc + 1e-300:
            raise Violation("diag_" + what, "%s: recorded %s is %.8g, the particles give %.8g" % (where, what, got, ref))
    if int(L[6]) != n or int(L[7]) != ns or int(L[8]) != 0:
        raise Violation("diag_counts", "%s: recorded %s particles, %s stars, %s dead instead of %d, %d, 0" % (where, L[6], L[7], L[8], n, ns))
    eq("mass", L[9], M * U[1], 0)
    et = E["ke"] + (E["u"] if hydro else 0) + (E["gpe"] if grav else 0)
    eq("energy", L[10], et * U[6], 1e5 * (A["ke"] + A["u"] + abs(A["gpe"])) * U[6] * 1e-3)
    eq("kinetic_energy", L[11], E["ke"] * U[6], 0)
    eq("thermal_energy", L[12], E["u"] * U[6], 0)
    eq("potential_energy", L[13], E["gpe"] * U[6], abs(A["gpe"]) * U[6])
    for k in range(3):
        eq("angular_momentum", L[14 + k], E["ang"][k] * U[8], np.max(A["ang"]) * U[8])
    p = 17
    for what, q, sc, un in (("centre_of_mass", "rcom", 1 / M, U[2]), ("mean_velocity", "mom", 1 / M, U[3]), ("momentum", "mom", 1.0, U[7])):
        for k in range(nd):
            eq(what, L[p + k], E[q][k] * sc * un, A[q][k] * sc * un)
        p += nd
    if len(L) != p + nd:
        raise Violation("diag_columns", "%s: %d columns instead of %d" % (where, len(L), p + nd))


def control(c, ctx):
    d = dict(c["p"])
    nd = d["ndim"]
    rs = rng(c["seed"])
    nbody = c["sim"] == "nbody"
    S = gen.system(d)
    n = d["n"]
    grav = c["grav"] and not nbody
    mfv = c["sim"] == "mfvmuscl"
    K = c["steps"]
    P = dict(ndim=nd, sim=c["sim"], run_id="A", Nlevels=c["levels"], gas_eos="energy_eqn", hydro_forces=1, self_gravity=int(grav), courant_mult=.15, accel_mult=.2, nbody_mult=.05, nbody="lfkdk", nbody_softening=1, zero_mass_flux=int(mfv and (grav or c["ns"] > 0)), h_fac=1.2,
             ndiagstep=c["ndiag"], nrestartstep=10 ** 6, noutputstep=10 ** 6, tend=1e99, dt_snap=1e99, tsnapfirst=1e99, Nstepsmax=99999999, out_file_form=c["form"], dt_python=1e9)
    P.update(gen.bc_params("ooo"[:nd], nd, -.5, 1.0))
    if c["units"]:
        P.update(dimensionless=0, routunit=str(rs.choice(["pc", "au", "km"])), moutunit=str(rs.choice(["m_sun", "g", "m_jup"])), toutunit=str(rs.choice(["yr", "myr", "s"])), Eoutunit=str(rs.choice(["J", "erg"])), voutunit=str(rs.choice(["km_s", "m_s"])))
    ext = c["ext"] if not mfv else "none"
    if ext == "plummer":
        P.update(external_potential="plummer", mplummer_extpot=1.0, rplummer_extpot=.5)
    arr = None if nbody else dict(coords(S["r"] - .5, S["v"]), m=S["m"], u=S["u"])
    star = None
    ns = max(2, c["ns"]) if nbody else c["ns"]
    if ns:
        star = dict(coords(rs.uniform(-.8, .8, (ns, nd)), rs.normal(size=(ns, nd)) * .3), m=rs.uniform(.1, 1, ns), h=rs.uniform(.1, .3, ns))
    form = c["form"]
    ctx.label(c["sim"], c["mode"], form, "units" if c["units"] else "dimensionless", "grav%d" % grav, "stars%d" % min(ns, 2), ext)
    with Workdir() as w:
        L, F = sim_lines(P, arr, star)
        a = os.path.join(w, "a")
        os.makedirs(a)
        res = run_script(exe("gdrv"), L + ["setup", "dump S0", "steptrace %d S" % K], a, F, cpu=25)
        if res.hang:
            raise Inconclusive("slow")
        if res.rc:
            t = res.tail()
            for s in ABORT:
                if s in t:
                    ctx.label("abort:" + s)
                    return
            raise Violation("crash", "run fails: " + t[-300:])
        D = [res.dump("S0")] + [res.dump("S.%d" % i) for i in range(K)]
        T = np.array([float(np.ravel(s.t)[0]) for s in D])
        U = np.ravel(D[0].units)
        if not (np.diff(T) > 0).all():
            raise Violation("time", "time does not advance")
        # reference model of the run
        dt = T[-1] / K
        last = K
        Q = dict(P)
        if c["endby"] == "steps":
            last = int(rs.integers(0 if c["mode"] == "run" else 1, K + 1))
            Q["Nstepsmax"] = last
        elif c["endby"] == "time":
            j = int(rs.integers(1, K + 1))
            te = T[j - 1] + (T[j] - T[j - 1]) * rs.uniform(.05, .95)
            Q["tend"] = float(te * U[0])
            last = j
        else:
            j, q = int(rs.integers(1, K + 1)), int(rs.integers(1, K + 1))
            te = T[j - 1] + (T[j] - T[j - 1]) * rs.uniform(.05, .95)
            Q["tend"], Q["Nstepsmax"] = float(te * U[0]), q
            last = min(j, q)
        snap = c["snap"] * dt * rs.uniform(.8, 1.2)
        first = {"zero": 0.0, "same": snap, "late": 2.5 * snap}[c["first"]]
        Q["dt_snap"], Q["tsnapfirst"] = float(snap * U[0]), float(first * U[0])
        lite = snap * rs.uniform(.5, 2)
        if c["lite"]:
            Q["litesnap"], Q["dt_litesnap"], Q["tlitesnapfirst"] = 1, float(lite * U[0]), float(first * U[0])
        Q["nrestartstep"] = c["nrestart"]

        def schedule(t0, d):
            nxt, out = t0, []
            for i in range(0, last + 1):
                if abs(T[i] - nxt) < 1e-9 * max(abs(nxt), dt) and T[i] > 0:
                    raise Inconclusive("tie")
                if T[i] >= nxt:
                    out.append(i)
                    nxt += d
            return out
        snaps = schedule(first, snap)
        lites = schedule(first, lite) if c["lite"] else []
        L2, F = sim_lines(Q, arr, star)
        b = os.path.join(w, "b")
        os.makedirs(b)
        if c["mode"] == "run":
            cmds = ["run"]
        elif c["mode"] == "irun":
            cmds = ["irun"]
        else:
            cmds, k = [], 0
            while k < last:
                q = int(rs.integers(1, 6))
                if c["endby"] == "steps":
                    q = min(q, last - k)
                if k + q > last and c["endby"] != "steps" and "Nstepsmax" in Q and Q["Nstepsmax"] < 10 ** 6:
                    q = last - k
                cmds.append("%s %d" % (rs.choice(["run", "irun"]), q))
                k += q
        res = run_script(exe("gdrv"), L2 + ["setup"] + cmds + ["dump Z"], b, F, cpu=25)
        if res.rc or res.hang:
            if res.hang:
                raise Inconclusive("slow")
            raise Violation("crash_run", "run with output fails: " + res.tail()[-300:])
        Z = res.dump("Z")
        if int(np.ravel(Z.Nsteps)[0]) != last:
            raise Violation("end", "run with tend=%.17g (code units), %s step limit ended after %d steps (t=%.17g) instead of %d (t=%.17g)" % (Q["tend"] / U[0], Q["Nstepsmax"], int(np.ravel(Z.Nsteps)[0]), float(np.ravel(Z.t)[0]), last, T[last]))
        X = D[last]
        for q in Z.keys():
            if q in ("units", "diag", "diag0_Etot", "orbit", "tsnapnext", "tsnaplast", "Noutsnap", "Noutlitesnap", "tlitesnapnext", "tlitesnaplast", "tend", "Norbit", "Nbinary", "Ntriple", "Nquadruple"):
                continue
            if not np.array_equal(Z[q], X[q], equal_nan=True):
                raise Violation("perturbed", "field %s after %d steps depends on the output that was requested" % (q, last))
        # snapshots
        got = sorted(os.path.basename(f) for f in glob.glob(os.path.join(b, "A.%s.?????" % form)))
        if got != ["A.%s.%05d" % (form, i + 1) for i in range(len(snaps))]:
            raise Violation("snapshots", "snapshots %s instead of %d (after steps %s of %d)" % (got, len(snaps), snaps, last))
        if int(np.ravel(Z.Noutsnap)[0]) != len(snaps):
            raise Violation("snapshot_number", "%d snapshots counted, %d due" % (int(np.ravel(Z.Noutsnap)[0]), len(snaps)))
        gl = sorted(os.path.basename(f) for f in glob.glob(os.path.join(b, "A.slite.?????")))
        if gl != ["A.slite.%05d" % (i + 1) for i in range(len(lites))]:
            raise Violation("lite_snapshots", "lite snapshots %s instead of %d (after steps %s of %d)" % (gl, len(lites), lites, last))
        if got or gl:
            L3, F3 = sim_lines(P, arr, star)
            q = [x for x in L3 if not x.startswith(("import", "field"))]
            res3 = run_script(exe("gdrv"), q + ["units UA"] + ["readheader %s %s" % (os.path.join(b, x), form) for x in got], b, F3, cpu=25)
            expect_ok(res3)
            H = [x.split()[1:] for x in res3.err.split("\n") + res3.out.split("\n") if x.startswith("HEADER")]
            ins = [x.split() for x in open(os.path.join(b, "UA"))]
            ins = float([x for x in ins if x[0] == "t"][0][1])
            if len(H) != len(got):
                raise Violation("header", "%d headers of %d snapshots can be read" % (len(H), len(got)))
            for h, i, f in zip(H, snaps, got):
                t = float(h[3]) * ins
                if not abs(t - T[i] * U[0]) <= 6e-6 * abs(T[i] * U[0]):
                    raise Violation("snapshot_time", "%s is written at time %.9g instead of %.9g (step %d), the first step at or after its scheduled time" % (f, t, T[i] * U[0], i))
                if int(h[1]) != int(np.ravel(D[i].Nhydro)[0]) or int(h[2]) != ns:
                    raise Violation("snapshot_counts", "%s has %s particles and %s stars" % (f, h[1], h[2]))
        # restart log: the last full snapshot or the temporary one
        rl = os.path.join(b, "A.restart")
        ok = set()
        if snaps:
            ok.add("A.%s.%05d" % (form, len(snaps)))
        ok.add("A.%s.tmp" % form)
        if os.path.exists(rl):
            x = open(rl).read().split()
            if len(x) != 2 or x[0] != form or x[1] not in ok or not os.path.exists(os.path.join(b, x[1])):
                raise Violation("restart_log", "restart log %s; snapshots %s" % (x, got[-1:]))
        elif snaps:
            raise Violation("restart_log", "no restart log although snapshots were written")
        # diagnostics
        rows = [[float(x) for x in l.split()] for l in open(os.path.join(b, "A.diag"))]
        seen = set()
        prev = -1
        for r in rows:
            i = int(r[1])
            seen.add(i)
            if i > last or i < prev:
                raise Violation("diag_order", "diagnostics of step %d recorded after those of step %d of %d" % (i, prev, last))
            prev = i
            if not abs(r[0] - T[i] * U[0]) <= 1e-5 * abs(T[i] * U[0]):
                raise Violation("diag_time", "diagnostics of step %d at time %.8g instead of %.8g" % (i, r[0], T[i] * U[0]))
            if i == 0:
                continue        # accelerations and levels may change between the record and the trace of the initial state
            check_line(r, D[i], nd, U, "step %d" % i, True, grav or ns > 0 or ext != "none")
        if last not in seen:
            raise Violation("diag_missing", "no diagnostics at the end of the run (step %d)" % last)
        for i in range(1, last + 1):
            s = D[i]
            if int(np.ravel(s.Nblocksteps)[0]) % c["ndiag"] == 0 and int(np.ravel(s.n)[0]) % int(np.ravel(s.nresync)[0]) == 0 and i not in seen:
                raise Violation("diag_missing", "no diagnostics recorded at step %d" % i)
        ctx.nontrivial(last > 1 and (len(snaps) > 1))
        ctx.label("snaps%d" % min(3, len(snaps)), "end_" + c["endby"])


strat = st.fixed_dictionaries(dict(p=gen.particles(20, 80, kinds=["jitter", "uniform"], masses=("equal", "spread"), vels=("random", "converge", "shear", "cold")), sim=st.sampled_from(["gradhsph", "gradhsph", "mfvmuscl", "nbody"]), grav=st.booleans(), ns=st.sampled_from([0, 0, 1, 3]), ext=st.sampled_from(["none", "none", "plummer"]),
                                   levels=st.sampled_from([1, 1, 3, 5]), ndiag=st.sampled_from([1, 1, 2, 5]), form=st.sampled_from(["column", "sf", "su"]), units=st.booleans(), endby=st.sampled_from(["steps", "time", "both"]), snap=st.sampled_from([.4, 1.6, 3.3, 9.1]), first=st.sampled_from(["zero", "same", "late"]),
                                   lite=st.booleans(), nrestart=st.sampled_from([1, 4, 100000]), mode=st.sampled_from(["run", "irun", "chunks"]), steps=st.sampled_from([5, 12, 40]), seed=st.integers(0, 10 ** 6)))
SUBS_ = [Sub("control", strat, control, quick=400, thorough=8000)]
if __name__ == "__main__":
    main("C28", SUBS_, builds=[("gdrv", "std")],
         rule="a case is a traced run and the same run with output; non-trivial if it has more than one step and more than one snapshot",
         assumptions=["no sinks (accretion is covered by C19)", "snapshot schedules that tie with a step to 1e-9 are skipped", "diagnostic columns with units: time, mass, energies, angular momentum, centre of mass, velocity, momentum"])
