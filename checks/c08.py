import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, refkern

TECH = "property-based testing (Hypothesis): generated runs with strongly contrasting timescales; after every step an invariant monitor recomputes each timestep criterion from the particle data, the clock arithmetic, the drift of every particle and the neighbour level limiter from the history of states"
NOTE = "grad-h SPH (KDK and DKD), MUSCL and RK MFV/MFM with every timestep limiter, with stars, self-gravity, energy equation or isothermal gas, and pure N-body (KDK, DKD, Hermite 4 and 6); 1-6 levels, level_diff_max 1-3, up to 64 steps"
SKIP = ("Smoothing length too large", "Error : Particles more than", "isnormal(W", "part.u > ", "part.pressure > ", "part.m > ", "isnormal(part", "Negative pstar", "Wleft[", "Wright[", "timestep too large", "timestep fallen to zero")
COURANT, ACCEL, ENERGY, NBODY = .15, .3, .4, .15


def build(c):
    d = dict(c["p"])
    nd = d["ndim"]
    S = gen.system(d)
    rs, n = S["rs"], d["n"]
    sim = c["sim"].split("-")[0]
    u = np.full(n, 1.0)
    hot = c["hot"]
    if hot:  # one or two hot spots: particles on very different levels that meet each other
        k = int(rs.integers(1, 3))
        for j in rs.choice(n, k, replace=False):
            q = np.argsort(((S["r"] - S["r"][j]) ** 2).sum(1))[:1 + int(rs.integers(0, 3))]
            u[q] *= 4.0 ** hot
    grav = int(c["grav"] and nd == 3)
    nstar = c["stars"] if grav else 0
    P = dict(ndim=nd, sim=sim, run_id="A", Nlevels=1 if sim == "mfvrk" else c["levels"], level_diff_max=c["diff"], gas_eos=c["eos"], gamma_eos=1.4, temp0=1.0, mu_bar=1.0, hydro_forces=1, self_gravity=grav, courant_mult=COURANT, accel_mult=ACCEL, energy_mult=ENERGY, nbody_mult=NBODY,
             neib_search=c["tree"], Nleafmax=c["leaf"], ntreebuildstep=c["build"], ntreestockstep=1, tend=1e30, noutputstep=10 ** 6, dt_snap=1e30, tsnapfirst=1e30, h_fac=1.2, h_converge=1e-6, riemann_solver="hllc", slope_limiter=c["limiter"], time_step_limiter=c["tlim"],
             zero_mass_flux=int(grav or c["sim"].endswith("mfm")), nbody="lfkdk", sph_integration="lfdkd" if c["sim"].endswith("dkd") else "lfkdk", nbody_softening=1, gravity_mac="geometric")
    if P["sph_integration"] == "lfdkd":
        P["nbody"] = "lfdkd"
    P.update(gen.bc_params("ooo" if grav else c["bc"], nd))
    arr = dict(coords(S["r"], S["v"] * c["mach"]), m=S["m"] * c["mtot"], u=u * 1.5)
    star = None
    if nstar:
        sr = rs.random((nstar, nd))
        if c["tight"] and nstar > 1:
            sr[1] = sr[0] + .01 * rs.standard_normal(nd)
        star = dict(coords(sr, rs.standard_normal((nstar, nd)) * .3), m=10 ** rs.uniform(-2, 0, nstar), h=np.full(nstar, 10 ** rs.uniform(-2.5, -1)))
    return P, arr, star, d


def run(P, arr, star, steps, w):
    L, F = sim_lines(P, arr, star)
    res = run_script(exe("gdrv"), L + ["setup", "dump S0", "steptrace %d S" % steps], w, F, cpu=25)
    if res.rc or res.hang:
        t = res.tail()
        # drift-kick-drift steps use forces from their middle: strongly heated neighbours can overshoot
        for s in SKIP + (("isfinite(ama",) if P.get("sph_integration") == "lfdkd" else ()):
            if s in t:
                return s, None, 0
        if res.hang:
            raise Inconclusive("slow")
        far = 0.0
        for i in range(steps):
            if os.path.exists(os.path.join(w, "S.%d" % i)):
                x = res.dump("S.%d" % i)
                far = max([far] + [float(np.abs(x[k]).max()) for k in ("r", "s_r") if k in x and len(x[k])])
        if far > 1e6:  # a system without anything to hold it has expanded beyond the precision of the numbers
            return "runaway", None, 0
        raise Violation("crash", "run fails (exit %s): %s" % (res.rc, t[-300:]))
    D = [res.dump("S0")]
    for i in range(steps):
        if not os.path.exists(os.path.join(w, "S.%d" % i)):
            break
        D.append(res.dump("S.%d" % i))
    return None, D, len(D)


def g(s, k):
    return float(np.ravel(s[k])[0])


class View:
    """gas (p='') or star (p='s_') arrays of one dump, particles in their original order"""

    def __init__(self, s, p, nd, mfv=False):
        self.s, self.nd, self.p = s, nd, p
        self.o = np.argsort(s.iorig) if p == "" else slice(None)

    def __getattr__(self, k):
        x = self.s[self.p + k]
        m = len(self.s[self.p + "level"])
        x = x.reshape(m, -1) if m and x.size != m else x
        return x[self.o]


def clock(i, s, intstep, Nlevels):
    where = "after step %d" % i
    n, nres, lmax, lstep, ts, dtm = [g(s, k) for k in ("n", "nresync", "level_max", "level_step", "timestep", "dt_max")]
    if nres != 2 ** lstep or lstep != lmax + intstep - 1 or not 0 <= n <= nres:
        raise Violation("clock", "%s: n=%d nresync=%d level_step=%d level_max=%d" % (where, n, nres, lstep, lmax))
    if not (ts > 0 and np.isfinite(ts)) or (Nlevels > 1 and abs(ts * nres - dtm) > 1e-12 * dtm):
        raise Violation("clock_dt", "%s: base step %.17g times %d is not the longest step %.17g" % (where, ts, nres, dtm))
    return int(n), int(nres), int(lmax), int(lstep), ts, ts * nres


def levels(i, A, what, ck, t, nominal=True):
    """clock arithmetic for one species at the end of a step"""
    n, nres, lmax, lstep, ts, dtm = ck
    where = "after step %d" % i
    lev, nstep, nlast = A.level.astype(int), A.nstep.astype(int), A.nlast.astype(int)

    def bad(m, key, msg):
        if m.any():
            j = int(np.argmax(m))
            raise Violation(key, "%s: %s %d %s (level %d nstep %d nlast %d n %d nresync %d)" % (where, what, j, msg, lev[j], nstep[j], nlast[j], n, nres))
    bad((lev < 0) | (lev > lmax), "level_range", "has a level outside 0..%d" % lmax)
    bad(nstep < 1, "nstep_positive", "has no step")
    full = 2 ** (lstep - lev)
    bad((nlast == n) & (nstep != full), "nstep_level", "begins a step whose length does not match its level")
    bad(nstep > full, "nstep_long", "has a step longer than its level allows")
    bad((nlast == n) & (n % full != 0), "aligned", "begins a step that is not a multiple of its own length")
    bad((nlast > n) | (nlast < 0), "nlast", "has a step beginning outside the block")
    bad((nlast + nstep < n), "overrun", "has passed the end of its step")
    bad((nlast + nstep > nres) & (nlast != n), "resync", "has a step reaching beyond the resynchronisation")
    el = t - A.tlast
    bad(np.abs(el - (n - nlast) * ts) > 1e-11 * (dtm + t), "elapsed", "has a start time inconsistent with its integer clock")
    if n in (0, nres) and nres:
        if n == nres:
            bad((nlast != n) & (nlast + nstep != n), "resync", "does not end its step at the resynchronisation")
    return lev, nstep, nlast


def drift(i, A, t, key, what, tol=1e-10):
    """KDK: r = r0 + v0 t + a0 t^2/2, v likewise, between steps"""
    el = (t - A.tlast)[:, None]
    nd = A.nd
    r, r0, v0, a0 = [getattr(A, k).reshape(-1, nd) for k in ("r", "r0", "v0", "a0")]
    e = np.abs(r - (r0 + v0 * el + .5 * a0 * el ** 2))
    sc = 1e-13 + np.abs(r0) + np.abs(v0) * el + np.abs(a0) * el ** 2
    if (e > tol * sc).any():
        j = int(np.argmax((e / sc).max(1)))
        raise Violation(key, "after step %d: %s %d is at %s, %.6g after its step began at %s with v=%s a=%s" % (i, what, j, r[j], el[j, 0], r0[j], v0[j], a0[j]))


def sph_crit(c, P, cur, prev, t):
    h, snd, dv = cur.h, cur.sound, np.abs(cur.div_v)
    dt = COURANT * h / (snd + h * dv + 1e-50)
    am = np.sqrt((cur.a.reshape(-1, cur.nd) ** 2).sum(1))
    dt = np.minimum(dt, ACCEL * np.sqrt(h / (am + 1e-50)))
    if P["gas_eos"] == "energy_eqn":
        u = prev.u0 + prev.dudt0 * (t - prev.tlast) if prev is not None else cur.u
        dt = np.minimum(dt, ENERGY * u / (np.abs(cur.dudt) + 1e-20))
    return dt


def mfv_crit(cur, prev):
    q = prev if prev is not None else cur
    h = np.maximum(q.h, cur.h)
    a0 = np.sqrt((q.a0.reshape(-1, q.nd) ** 2).sum(1) + 1e-20)
    return np.minimum(2 * COURANT * h / q.vsig_max, ACCEL * np.sqrt(h / a0))


def hydro(c, ctx):
    P, arr, star, d = build(c)
    nd = d["ndim"]
    sph = P["sim"] == "gradhsph"
    ctx.label(c["sim"], "%dd" % nd, "levels%d" % P["Nlevels"], c["eos"], "grav%d" % P["self_gravity"], "tlim_" + c["tlim"])
    with Workdir() as w:
        s, D, _ = run(P, arr, star, c["steps"], w)
    if s:
        ctx.label("skip:" + s.strip())
        return
    isopen = set(P[k] for k in P if k.startswith("boundary")) <= {"open"}
    intstep = 2 if P["sph_integration"] == "lfdkd" and sph else 1
    Nl = P["Nlevels"]
    kdk = intstep == 1
    tol = 1 + 1e-9
    used, shortened, ended, woken = 0, 0, 0, 0
    K = refkern.kern("m4", nd)
    prev = None
    hist = []
    for i, s in enumerate(D):
        t = g(s, "t")
        ck = clock(i, s, intstep, Nl)
        n, nres, lmax, lstep, ts, dtm = ck
        A = View(s, "", nd)
        S = View(s, "s_", nd) if star is not None else None
        lev, nstep, nlast = levels(i, A, "particle", ck, t)
        used = max(used, len(set(lev.tolist())))
        begin = nlast == n
        # --- lengths of the steps just assigned
        dt = nstep * ts
        if not np.allclose(A.dt[begin], dt[begin], 1e-12, 0):
            j = np.flatnonzero(begin)[np.argmax(np.abs(A.dt[begin] / dt[begin] - 1))]
            raise Violation("dt", "after step %d: particle %d has a step of %.17g, %d base steps of %.17g" % (i, j, A.dt[j], nstep[j], ts))
        pA = prev[1] if prev is not None else None
        if sph and kdk:
            crit = sph_crit(c, P, A, pA, t)
        elif sph:
            crit = None
        else:
            crit = mfv_crit(A, pA)
        if crit is not None and not (i == 0 and not sph):
            b = begin & (dt > crit * tol)
            if b.any():
                j = int(np.argmax(np.where(b, dt / crit, 0)))
                raise Violation("criterion", "after step %d: particle %d starts a step of %.8g on level %d/%d, but its timestep criterion is %.8g" % (i, j, dt[j], lev[j], lmax, crit[j]))
        # --- at a resynchronisation every step starts anew, and the base step is set by the most demanding particle
        allmin = crit.min() if crit is not None else None
        if S is not None:
            slev, snstep, snlast = levels(i, S, "star", ck, t)
            sb = snlast == n
            sdt = snstep * ts
            if (slev < lev.max()).any():
                j = int(np.argmin(slev))
                raise Violation("star_level", "after step %d: star %d is on level %d, below the gas on level %d" % (i, j, slev[j], lev.max()))
            if kdk:
                am = np.sqrt((S.a.reshape(-1, nd) ** 2).sum(1))
                sc = np.minimum(NBODY * np.sqrt(S.h / (am + 1e-50)), S.dt_internal if "s_dt_internal" in s else np.inf)
                allmin = min(allmin, sc.min()) if allmin is not None else None
                b = sb & (sdt > sc * tol)
                if b.any():
                    j = int(np.argmax(np.where(b, sdt / sc, 0)))
                    raise Violation("criterion_star", "after step %d: star %d starts a step of %.8g on level %d/%d, but its timestep criterion is %.8g" % (i, j, sdt[j], slev[j], lmax, sc[j]))
                drift(i, S, t, "drift_star", "star")
        if n == 0 and begin.all() and sph and kdk:
            if abs(dtm / 2 ** lmax / allmin - 1) > 1e-6 if Nl > 1 else abs(ts * nres / allmin - 1) > 1e-6:
                raise Violation("base_step", "after step %d: the shortest step is %.10g at a resynchronisation, but the most demanding criterion is %.10g" % (i, dtm / 2 ** lmax if Nl > 1 else ts * nres, allmin))
            # nobody gets a step more than four times shorter than its criterion there
            b = (lev > 0) & (dt * 4 < crit / tol)
            if b.any():
                j = int(np.argmax(b))
                raise Violation("too_short", "after step %d: particle %d starts a step of %.8g on level %d/%d where %.8g would do" % (i, j, dt[j], lev[j], lmax, crit[j]))
        if prev is not None and g(prev[0], "n") == g(prev[0], "nresync") and n != 1 and Nl > 1:
            raise Violation("resync_clock", "after step %d: the integer clock is %d just after a resynchronisation" % (i, n))
        if sph and kdk and set(P[k] for k in P if k.startswith("boundary")) <= {"open"}:
            drift(i, A, t, "drift", "particle")
        # --- continuity of steps
        if prev is not None:
            q = prev[1]
            dtg = t - prev[2]
            if abs(dtg - g(prev[0], "timestep")) > 1e-11 * (t + dtg):
                raise Violation("time", "step %d advances the time by %.17g, the base step was %.17g" % (i, dtg, g(prev[0], "timestep")))
            pt = g(prev[0], "timestep")
            should = np.abs(q.tlast + q.nstep * pt - t) < 1e-9 * dtm  # steps that end now
            b = should & ~begin
            if b.any():
                j = int(np.argmax(b))
                raise Violation("not_ended", "step %d: particle %d does not end its step (nlast %d nstep %d on the clock before)" % (i, j, q.nlast[j], q.nstep[j]))
            early = begin & ~should
            b = begin & (np.abs(A.tlast - t) > 1e-12 * (t + dtm))
            if b.any():
                raise Violation("tlast", "step %d: particle %d begins a step at %.17g, the time is %.17g" % (i, int(np.argmax(b)), A.tlast[np.argmax(b)], t))
            keep = ~begin
            if isopen and not (np.array_equal(A.tlast[keep], q.tlast[keep]) and np.array_equal(A.r0[keep], q.r0[keep]) and np.array_equal(A.v0[keep], q.v0[keep]) and np.array_equal(A.a0[keep], q.a0[keep])):
                raise Violation("restarted", "step %d: the start of the step of a particle inside its step changed" % i)
            shortened += int(early.sum())
            ended += int((begin & ~begin.all()).sum())
            # --- limiter: neighbours of a particle that finished a fine step were woken if the clock allows
            if Nl > 1 and not begin.all() and (sph and kdk or (not sph and c["tlim"] == "simple")) and set(P[k] for k in P if k.startswith("boundary")) <= {"open"}:
                woken += limiter(i, c["diff"], q, A, prev[0], s, should, begin, K, sph, hist)
        hist.append((t, A.r.reshape(-1, nd), A.h))
        prev = (s, A, t)
    ctx.label("used%d" % min(used, 5), "shortened" if shortened else "no_shortening", "limiter_seen" if woken else "limiter_idle")
    ctx.nontrivial(used >= 2 and len(D) >= 4 and ended > 0 or Nl == 1 and len(D) >= 3)


def limiter(i, diff, q, A, ps, s, should, begin, K, sph, hist):
    lev = q.level.astype(int)
    fin = should  # finished naturally now, on level lev
    if not fin.any():
        return 0
    found = 0
    dtm = g(s, "dt_max")
    t = g(s, "t")
    fine = np.flatnonzero(fin)
    coarse = np.flatnonzero(~should & (lev < lev[fine].max() - diff) & (A.ptype != 3))
    fine = fine[lev[fine] > lev[coarse].min() + diff] if len(coarse) else fine[:0]
    nd = A.nd
    r = A.r.reshape(-1, nd)
    for a in coarse:
        d = np.sqrt(((r[fine] - r[a]) ** 2).sum(1))
        # the smoothing lengths may have been updated in the same step: take the smaller of before and after
        H = np.minimum(A.h, q.h)
        near = fine[d < .97 * K.R * (np.maximum(H[fine], H[a]) if sph else H[fine])]
        if not len(near):
            continue
        if not sph:  # the finite volume scheme looks for neighbours when a step begins
            ok = []
            for j in near:
                x = [y for y in hist if abs(y[0] - q.tlast[j]) <= 1e-12 * t]
                if x and np.sqrt(((x[-1][1][j] - x[-1][1][a]) ** 2).sum()) < .97 * K.R * x[-1][2][j]:
                    ok.append(j)
            near = np.array(ok, int)
            if not len(near):
                continue
        L = lev[near].max()
        if L - lev[a] <= diff:
            continue
        new = L - diff
        step = dtm / 2 ** new
        el = t - q.tlast[a]
        k = el / step
        if abs(k - round(k)) > 1e-6 or round(k) < 1:
            continue
        found += 1
        if not begin[a] or A.level[a] < new:
            j = near[np.argmax(lev[near])]
            raise Violation("limiter", "step %d: particle %d finished a step on level %d; its neighbour %d on level %d could change to level %d now but %s" % (i, j, L, a, lev[a], new, "stays in its step" if not begin[a] else "begins a step on level %d" % A.level[a]))
    return found


def nbody(c, ctx):
    rs = np.random.default_rng(c["seed"])
    nd, n = c["ndim"], c["n"]
    r = rs.standard_normal((n, nd))
    v = rs.standard_normal((n, nd)) * .4
    m = 10 ** rs.uniform(-2, 0, n)
    for k in range(min(c["tight"], n // 2)):
        s = 10 ** rs.uniform(-2.5, -1)
        x = rs.standard_normal(nd)
        r[2 * k + 1] = r[2 * k] + s * x / np.sqrt((x ** 2).sum())
        v[2 * k + 1] = v[2 * k] + .7 * np.sqrt((m[2 * k] + m[2 * k + 1]) / s) * rs.permutation(np.eye(nd)[0])
    P = dict(ndim=nd, sim="nbody", run_id="A", Nlevels=c["levels"], nbody=c["nbody"], nbody_softening=c["soft"], nbody_mult=NBODY, self_gravity=1, Npec=c["npec"], tend=1e30, noutputstep=10 ** 6, dt_snap=1e30, tsnapfirst=1e30)
    star = dict(coords(r, v), m=m, h=np.full(n, c["h"]))
    ctx.label(c["nbody"], "%dd" % nd, "levels%d" % c["levels"], "soft%d" % c["soft"])
    with Workdir() as w:
        s, D, _ = run(P, None, star, c["steps"], w)
    if s:
        ctx.label("skip:" + s.strip())
        return
    intstep = 2 if c["nbody"] == "lfdkd" else 1
    prev = None
    used = ended = 0
    for i, s in enumerate(D):
        t = g(s, "t")
        ck = clock(i, s, intstep, c["levels"])
        nn, nres, lmax, lstep, ts, dtm = ck
        S = View(s, "s_", nd)
        lev, nstep, nlast = levels(i, S, "star", ck, t)
        begin = nlast == nn
        used = max(used, len(set(lev.tolist())))
        dt = nstep * ts
        if c["nbody"] == "lfkdk":
            crit = NBODY * np.sqrt(S.h / (np.sqrt((S.a ** 2).sum(1) if S.a.ndim == 2 else S.a ** 2) + 1e-50))
            b = begin & (dt > crit * (1 + 1e-9))
            if b.any():
                j = int(np.argmax(np.where(b, dt / crit, 0)))
                raise Violation("criterion_star", "after step %d: star %d starts a step of %.8g on level %d/%d, but its timestep criterion is %.8g" % (i, j, dt[j], lev[j], lmax, crit[j]))
            if nn == 0 and begin.all() and crit.min() < 1e18 and abs(dtm / 2 ** lmax / crit.min() - 1 if c["levels"] > 1 else ts * nres / crit.min() - 1) > 1e-6:
                raise Violation("base_step", "after step %d: shortest step %.10g at a resynchronisation, most demanding criterion %.10g" % (i, dtm / 2 ** lmax, crit.min()))
            drift(i, S, t, "drift_star", "star")
        elif c["nbody"].startswith("hermite"):
            asq, a1, a2, a3 = [(x.reshape(n, nd) ** 2).sum(1) for x in (S.a, S.adot, S.a2dot, S.a3dot)]
            with np.errstate(all="ignore"):
                crit = NBODY * np.sqrt((np.sqrt(asq * a2) + a1) / (np.sqrt(a1 * a3) + a2))
            b = begin & (a1 > 1e-15) & (a2 > 1e-15) & (dt > crit * 1.0001) & (c["nbody"] == "hermite4") & (i > 1)
            if b.any():
                j = int(np.argmax(np.where(b, dt / crit, 0)))
                raise Violation("criterion_star", "after step %d: star %d starts a step of %.8g on level %d/%d, but its timestep criterion is %.8g" % (i, j, dt[j], lev[j], lmax, crit[j]))
        if prev is not None:
            q, pt, t0 = prev
            if abs(t - t0 - pt) > 1e-11 * t:
                raise Violation("time", "step %d advances the time by %.17g, the base step was %.17g" % (i, t - t0, pt))
            should = np.abs(q.tlast + q.nstep * pt - t) < 1e-9 * dtm
            if (should != begin).any() and intstep == 1:
                j = int(np.argmax(should != begin))
                raise Violation("not_ended", "step %d: star %d %s its step" % (i, j, "does not end" if should[j] else "interrupts"))
            keep = ~begin
            if not (np.array_equal(S.tlast[keep], q.tlast[keep]) and np.array_equal(S.r0[keep], q.r0[keep])):
                raise Violation("restarted", "step %d: the start of the step of a star inside its step changed" % i)
            ended += int((begin & ~begin.all()).sum())
        prev = (S, ts, t)
    ctx.label("used%d" % min(used, 5))
    ctx.nontrivial(used >= 2 and len(D) >= 4 and ended > 0 or c["levels"] == 1)


strat = st.fixed_dictionaries(dict(p=gen.particles(20, 120, kinds=["jitter", "uniform", "uniform", "cluster", "gradient", "pairs"], masses=("equal", "spread"), vels=("shear", "random", "converge", "cold")), sim=st.sampled_from(["gradhsph", "gradhsph", "gradhsph", "gradhsph-dkd", "mfvmuscl", "mfvmuscl-mfm", "mfvrk"]),
                                   levels=st.sampled_from([1, 2, 3, 4, 6, 6]), diff=st.sampled_from([1, 1, 2, 3]), eos=st.sampled_from(["energy_eqn", "energy_eqn", "isothermal"]), hot=st.sampled_from([0, 2, 4, 6]), grav=st.booleans(), stars=st.sampled_from([0, 1, 3]), tight=st.booleans(), mtot=st.sampled_from([.1, 1.0, 10.0]),
                                   mach=st.sampled_from([0, .3, 1, 4]), tree=st.sampled_from(["kdtree", "kdtree", "octtree", "bruteforce"]), leaf=st.sampled_from([1, 6, 20]), build=st.sampled_from([1, 4]), limiter=st.sampled_from(["gizmo", "springel2009", "zeroslope"]), tlim=st.sampled_from(["none", "simple", "simple", "conservative"]),
                                   bc=st.sampled_from(["ooo", "ooo", "ooo", "ppp", "mmm"]), steps=st.sampled_from([16, 32, 64])))
strat2 = st.fixed_dictionaries(dict(ndim=st.sampled_from([2, 3, 3]), n=st.integers(2, 14), seed=st.integers(0, 2 ** 20), tight=st.integers(0, 3), levels=st.sampled_from([1, 2, 4, 6, 9]), nbody=st.sampled_from(["lfkdk", "lfkdk", "lfdkd", "hermite4", "hermite4", "hermite6ts"]), soft=st.sampled_from([0, 1]), h=st.sampled_from([1e-3, .05]), npec=st.sampled_from([1, 2]), steps=st.sampled_from([16, 64, 200])))
SUBS_ = [Sub("hydro", strat, hydro, quick=700, thorough=6000), Sub("nbody", strat2, nbody, quick=300, thorough=5000)]
if __name__ == "__main__":
    main("C08", SUBS_, builds=[("gdrv", "std")],
         rule="a case is one generated run with every step examined; non-trivial if particles occupied at least two levels and steps of different length ended at different times (or a single-level run)",
         assumptions=["criteria are recomputed from the quantities the code documents; MFV criteria use the signal velocity and acceleration held when the step was assigned", "violent states which trip an internal positivity assertion are skipped and counted"])
