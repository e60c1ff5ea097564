import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, sphref
from refkern import kern

TECH = "property-based testing (Hypothesis): generated gas-dust mixtures; every drag acceleration and heating rate along the run against a brute-force reference of the semi-implicit drag equations, exact momentum and energy balance, and one analytic relaxation step of uniform flows"
NOTE = "two-fluid and test-particle drag, all four drag laws, stopping times from 1e-4 to 1e4 steps; grad-h SPH (KDK, DKD) and MFV/MFM MUSCL; 1-3 dimensions, open and periodic boxes; up to ~200 particles and 12 steps; test-particle dust also with timestep levels"

ABORT = ("isfinite(amag)", "Hydro timestep too large", "Negative internal energy", "Smoothing length too large", "smoothing length", "part.u >= 0", "Assertion `part.rho", "isnormal(timestep", "Assertion `Wprim", "part.u > 0", "isnormal(part.u)")
DRAGNORM = {"m4": (3.0, 49. / 31, 10. / 9), "quintic": (2.0, 2868. / 2771, 5. / 7)}


def tstop(c, grho, drho, cs):
    k = c["coeff"]
    one = np.ones(np.broadcast(grho, drho, cs).shape)
    if c["law"] == "fixed":
        return one / k
    if c["law"] == "density":
        return one / (k * (grho + drho))
    if c["law"] == "epstein":
        return .75 * np.sqrt(np.pi / 8) / ((grho + drho) * cs * k)
    return drho * grho / ((grho + drho) * k) * one


def factors(dt, ts):
    """drag averaged over dt: a = -dv Xi + da Lambda, with dv the relative velocity reached without drag"""
    tau = dt / ts
    with np.errstate(all="ignore"):
        Xi = np.where(tau > 1e-6, -np.expm1(-tau) / np.where(dt > 0, dt, 1), (1 - tau / 2 + tau ** 2 / 6) / ts)
        La = np.where(tau > 1e-4, (dt + ts) * Xi - 1, tau / 2 - tau ** 2 / 3)
    return Xi, La


def twofluid(c, S, idx, R, v0, a, dt, heat=True):
    """Reference drag of the two-fluid form.  v0: velocities at the start of the kick, a: accelerations without drag"""
    n, nd = S.r.shape
    K = kern(c["kernel"], nd)
    gas = S.ptype == 0
    ad, sc, E, dE = np.zeros((n, nd)), np.zeros(n), np.zeros(n), np.zeros(n)
    W = lambda q: DRAGNORM[c["kernel"]][nd - 1] * q ** 2 * K.w0(q)
    for i in range(n):
        o = gas[idx] != gas[i]
        d = S.r[i] - R
        r = np.sqrt((d ** 2).sum(1))
        hg = np.full(len(idx), S.h[i]) if gas[i] else S.h[idx]
        o &= r < K.R * hg
        j, d, r, hg = idx[o], d[o], r[o], hg[o]
        if not len(j):
            continue
        e = d / np.maximum(r, 1e-300)[:, None]
        w = W(r / hg) / hg ** nd * S.m[j] / S.rho[j]
        dv, da = v0[i] - v0[j], a[i] - a[j]
        dvr, dar = (dv * e).sum(1), (da * e).sum(1)
        g, q = (i, j) if gas[i] else (j, i)
        grho, drho, cs = S.rho[g], S.rho[q], S.sound[g]
        Xi, La = factors(dt[i], tstop(c, grho, drho, cs))
        rho = grho + drho
        s = (dvr + dt[i] * dar) * Xi / rho - dar * La / rho
        f = -nd * S.rho[j] * s * w
        ad[i] = (f[:, None] * e).sum(0)
        sc[i] = (nd * S.rho[j] * w * (np.abs(dv + dt[i] * da).sum(1) * Xi / rho + np.abs(dar * La / rho))).sum()
        dK = ad[i] @ (v0[i] + a[i] * dt[i] + .5 * ad[i] * dt[i])
        vs = np.abs(v0[i]).max() + np.abs(a[i]).max() * dt[i] + np.abs(ad[i]).max() * dt[i]
        if gas[i]:
            E[i] -= dK
            dE[i] += sc[i] * vs
        elif w.sum() > 0:
            sh = w / w.sum() / S.m[j]
            np.add.at(E, j, -S.m[i] * dK * sh)
            np.add.at(dE, j, S.m[i] * sc[i] * vs * sh)
    return ad, sc, E, dE


def testpart(c, S, idx, R, v0, a, dt, sel):
    n, nd = S.r.shape
    K = kern(c["kernel"], nd)
    gas = S.ptype == 0
    ad, sc = np.zeros((n, nd)), np.zeros(n)
    g = gas[idx]
    jj, RR = idx[g], R[g]
    depth = np.maximum(np.maximum(-RR, RR - 1), 0).max(1) if c.get("bc", "ppp") != "ooo" else np.zeros(len(jj))
    far = depth > 1.2 * K.R * S.h[jj]       # finding K1: may not be copied (the range of the copies is 2.5 of the previous kernels)
    known = np.zeros(n, bool)
    for i in np.nonzero(sel & (S.ptype == 3))[0]:
        r = np.sqrt(((S.r[i] - RR) ** 2).sum(1))
        h = S.h_dust[i]
        w = K.w0(r / h) / h ** nd
        if (w[far] > 0).any():
            known[i] = True
            continue
        num = w.sum()
        hn = 1.2 * num ** (-1. / nd) if num > 0 else np.inf
        if abs(hn / h - 1) > 1.01 * c["hconv"] + 1e-9:
            raise Violation("h_dust", "gas smoothing length of dust particle %d is %.9g, from its gas neighbours %.9g" % (i, h, hn))
        w = w * S.m[jj]
        rho = w.sum()
        cs = (w * S.sound[jj]).sum() / rho
        dv = (w[:, None] * (v0[0][i] - v0[1](i, jj))).sum(0) / rho
        da = (w[:, None] * (a[i] - a[jj])).sum(0) / rho
        Xi, La = factors(dt[i], tstop(c, rho, 0, cs))
        ad[i] = -(dv + da * dt[i]) * Xi + da * La
        sc[i] = ((w * np.abs(v0[0][i] - v0[1](i, jj)).sum(1)).sum() / rho + np.abs(da).sum() * dt[i]) * Xi + np.abs(da * La).sum()
    return ad, sc, known


def launch(c, w, P, A, prefix="S"):
    L, F = sim_lines(P, A)
    L += ["setup", "dump S0", "steptrace %d S" % c["steps"]]
    res = run_script(exe("gdrv"), L, w, F, cpu=30)
    t = res.tail() + res.out[-3000:]
    if res.rc:
        for s in ABORT:
            if s in t:
                return res, "abort:" + s.strip()
        raise Violation("crash", "run fails (exit %s): %s" % (res.rc, t[-300:]))
    return res, None


def base(c, nd):
    P = dict(ndim=nd, kernel=c["kernel"], h_fac=1.2, h_converge=c["hconv"], neib_search=c["tree"], gas_eos=c["eos"], gamma_eos=1.4, temp0=1.0, mu_bar=1.0, Nlevels=c["levels"], level_diff_max=100,
             dust_forces=c["form"], drag_law=c["law"], drag_coeff=c["coeff"], hydro_forces=1, tend=1e30, tsnapfirst=1e30, dt_snap=1e30, courant_mult=c["cour"], accel_mult=.3)
    return P


def mixture(c):
    s = gen.system(c["p"])
    nd, n = c["p"]["ndim"], c["p"]["n"]
    rs = s["rs"]
    nd_ = max(3, int(n * c["fd"]))
    dust = np.zeros(n, bool)
    dust[rs.permutation(n)[:nd_]] = True
    if not c["mixed"]:
        o = np.argsort(dust, kind="stable")
        dust = dust[o]
        for q in "rvmu":
            s[q] = s[q][o]
    v = s["v"] * c["vfac"]
    v[dust] += c["drift"] * np.array([1, .5, -.3])[:nd]
    m = s["m"] * np.where(dust, c["ratio"], 1.0) * c["mtot"]
    A = coords(s["r"], v)
    A.update(m=gen.solvable_mass(m, 1.2, kern(c["kernel"], nd)), u=s["u"] * c["u"], ptype=np.where(dust, 3, 0))
    return A, dust, nd


def err(x, y, sc, tol, sel, key, msg):
    e = np.abs(x - y)
    e = (e.max(1) if e.ndim > 1 else e) / (sc + 1e-300)
    e[~sel] = 0
    if not (e <= tol).all():
        i = int(np.nanargmax(np.where(np.isnan(e), np.inf, e)))
        raise Violation(key, "%s: particle %d has %s, reference %s (scale %.6g)" % (msg, i, x[i], y[i], sc[i]))


def sph(c, ctx):
    A, dust, nd = mixture(c)
    P = dict(base(c, nd), sim="gradhsph", sph_integration=c["integ"], avisc="none", acond="none")
    if c["form"] == "full_twofluid":
        P["Nlevels"] = 1
    P.update(gen.bc_params(c["bc"], nd))
    lev = P["Nlevels"]
    ctx.label("%dd" % nd, c["form"], c["law"], c["integ"])
    with Workdir() as w:
        res, t = launch(c, w, P, A)
        if t:
            ctx.label(t)
            return
        st = [res.dump("S0")] + [res.dump("S.%d" % k) for k in range(c["steps"]) if os.path.exists(os.path.join(w, "S.%d" % k))]
    K = kern(c["kernel"], nd)
    two = c["form"] == "full_twofluid"
    p0 = None
    for k, S in enumerate(st):
        if not np.isfinite(S.r).all() or np.abs(S.r).max() > 1e4:
            ctx.label("runaway")
            return
        where = "after step %d" % k
        if two:
            p = (S.m[:, None] * S.v).sum(0)
            ps = (S.m[:, None] * np.abs(S.v)).sum()
            if p0 is None:
                p0, psc = p, ps
            psc = max(psc, ps)
            if np.abs(p - p0).max() > 1e-10 * psc:
                raise Violation("momentum", "%s: total momentum is %s, initially %s" % (where, p, p0))
        if c["integ"] != "lfkdk":
            ctx.nontrivial(True)
            continue
        reach = K.R * max(S.h.max(), S.h_dust.max()) * 1.001
        if c["bc"][:nd].count("p") and reach > .499:
            ctx.label("wide")
            return
        gas = S.ptype == 0
        if k == 0:
            vp, vi, act = S.v.copy(), S.v.copy(), np.ones(len(S.m), bool)
            dtd = .5 * S.dt
            a0, pdt = S.a0 * 0, np.zeros(len(S.m))
        else:
            Q = st[k - 1]
            dx = S.r - Q.r
            el = float(np.ravel(S.t)[0]) - Q.tlast
            vp = Q.v0 + Q.a0 * el[:, None]
            act = S.nlast == int(np.ravel(S.n)[0]) if lev > 1 else np.ones(len(S.m), bool)
            a0, pdt = Q.a0, Q.dt
            dtd = .5 * Q.dt + .5 * S.dt
        X = type(S)(S)
        X["v"] = vp
        idx, R, V = gen.images(S.r, vp, c["bc"], 0.0, 1.0, reach)
        ref = sphref.hydro(X, K, idx, R, V, dict(avisc="none", vround=1e-7 * np.abs(vp).max()))
        an = ref["a"]
        if two:
            vi = vp - .5 * pdt[:, None] * a0
            if np.ptp(dtd) > 1e-12 * dtd.max():
                raise Violation("common_dt", "%s: particles on different timesteps" % where)
            ad, sc, E, dE = twofluid(c, S, idx, R, vi, an, dtd)
            tot = ref["a_sc"] + sc
            # a neighbour's acceleration without drag is only known to rounding
            tot = tot + sc.max() * 1e-6 + ref["a_sc"].max() * 1e-6
            err(S.a, an + ad, tot, 2e-6, act, "a_twofluid", where + ": acceleration")
            if c["eos"] == "energy_eqn":
                err(S.dudt, ref["dudt"] + E, ref["dudt_sc"] + dE + 1e-6 * dE.max(), 2e-6, act & gas, "heat_twofluid", where + ": heating rate")
            m = (S.m[:, None] * S.a).sum(0)
            if np.abs(m).max() > 1e-9 * (S.m * tot).sum():
                raise Violation("balance", "%s: drag and pressure forces sum to %s" % (where, m))
            if (sc > 0).any() and (np.abs(ad).max(1) > 1e-6 * ref["a_sc"]).any():
                ctx.nontrivial(True)
        else:
            err(S.a, an, ref["a_sc"] + 1e-300, 1e-6, act & gas, "a_gas", where + ": acceleration of gas")
            vfun = lambda i, j: vp[j] - .5 * pdt[i] * a0[j]
            vd = vp - .5 * pdt[:, None] * a0
            at = np.where(gas[:, None], S.a, 0)
            ad, sc, known = testpart(c, S, idx, R, (vd, vfun), at, dtd, act)
            err(S.a, ad, sc + 1e-9 * np.abs(S.a).max(), 2e-6, act & ~gas & ~known, "a_testpart", where + ": acceleration of dust")
            if (act & ~gas).any():
                ctx.nontrivial(True)
    ctx.label("steps")


def mfv(c, ctx):
    A, dust, nd = mixture(c)
    P = dict(base(c, nd), sim="mfvmuscl", zero_mass_flux=c["zmf"], riemann_solver="hllc", slope_limiter="gizmo", time_step_limiter="conservative" if c["levels"] > 1 else "none")
    if c["form"] == "full_twofluid":
        P["Nlevels"] = 1
    P.update(gen.bc_params(c["bc"], nd))
    ctx.label("%dd" % nd, c["form"], c["law"])
    with Workdir() as w:
        res, t = launch(c, w, P, A)
        if t:
            ctx.label(t)
            return
        st = [res.dump("S0")] + [res.dump("S.%d" % k) for k in range(c["steps"]) if os.path.exists(os.path.join(w, "S.%d" % k))]
    two = c["form"] == "full_twofluid"
    ref = None
    for k, S in enumerate(st):
        gas = S.ptype == 0
        if not np.isfinite(S.r).all() or np.abs(S.r).max() > 1e4:
            ctx.label("runaway")
            return
        if (S.u[gas] < 1e-6 * c["u"]).any():
            ctx.label("floor")
            return
        if P["Nlevels"] > 1 and not (S.nlast == int(np.ravel(S.n)[0])).all():
            continue
        q = np.ones(len(S.m), bool) if two else gas
        if k and not np.allclose(S.m[~gas], st[0].m[~gas], rtol=1e-13):
            raise Violation("dust_mass", "after step %d: the mass of a dust particle changed" % k)
        p = (S.m[q][:, None] * S.v[q]).sum(0)
        E = (S.m[q] * (.5 * (S.v[q] ** 2).sum(1) + np.where(gas[q], S.u[q], 0))).sum()
        ps = (S.m[q] * (np.abs(S.v[q]).sum(1) + np.sqrt(np.where(gas[q], S.u[q], 0)))).sum()
        if ref is None:
            ref = p, E, ps, E
        ref = ref[0], ref[1], max(ps, ref[2]), max(ref[3], E)
        if np.abs(p - ref[0]).max() > 1e-10 * ref[2]:
            raise Violation("momentum", "after step %d: momentum of %s is %s, initially %s" % (k, "gas and dust" if two else "the gas", p, ref[0]))
        if c["eos"] == "energy_eqn" and abs(E - ref[1]) > 1e-10 * ref[3]:
            raise Violation("energy", "after step %d: energy of %s is %.14g, initially %.14g" % (k, "gas and dust" if two else "the gas", E, ref[1]))
        if k:
            ctx.nontrivial(True)
            Q = st[k - 1]
            if two or P["Nlevels"] == 1:
                dt = float(np.ravel(S.t)[0] - np.ravel(Q.t)[0])
                x = S.r - Q.r - .5 * (Q.v + S.v) * dt
                for a in range(nd):
                    if c["bc"][a] == "p":
                        x[:, a] -= np.round(x[:, a])
                tol = 1e-9 * (np.abs(Q.r) + np.abs(Q.v) * dt + 1)
                d_ = np.abs(x) > tol
                d_[gas] = False
                if d_.any():
                    i = int(np.nonzero(d_.any(1))[0][0])
                    raise Violation("dust_drift", "after step %d: dust particle %d moved by %s, its mean velocity gives %s" % (k, i, S.r[i] - Q.r[i], .5 * (Q.v[i] + S.v[i]) * dt))


def uniform(c, ctx):
    """Uniform flows of gas and dust through each other: one step against the analytic relaxation, and monotonic decay."""
    nd, nx = c["nd"], {1: 24, 2: 16, 3: 11}[c["nd"]]
    rs = np.random.default_rng(c["seed"])
    g = (np.stack(np.meshgrid(*[np.arange(nx)] * nd, indexing="ij"), -1).reshape(-1, nd) + .5) / nx
    d = (g + (rs.uniform(-.5, .5, nd) if c["dlat"] else rs.uniform(-.2, .2, g.shape)) / nx) % 1.0
    n = len(g)
    vg, vd = np.array([.1, -.2, .3])[:nd] * c["bulk"], np.array([.1, -.2, .3])[:nd] * c["bulk"] + c["drift"] * np.array([1, .5, -.3])[:nd]
    r = np.vstack([g, d])
    v = np.vstack([np.tile(vg, (n, 1)), np.tile(vd, (n, 1))])
    m = np.r_[np.full(n, 1.0 / n), np.full(n, c["ratio"] / n)] * c["mtot"]
    A = coords(r, v)
    A.update(m=m, u=np.full(2 * n, c["u"]), ptype=np.r_[np.zeros(n), np.full(n, 3)])
    P = dict(base(c, nd), sim=c["sim"])
    if c["sim"] == "gradhsph":
        P.update(sph_integration=c["integ"], avisc="none", acond="none")
    else:
        P.update(zero_mass_flux=c["zmf"], riemann_solver="hllc", slope_limiter="gizmo", time_step_limiter="none")
    P["Nlevels"] = 1
    P.update(gen.bc_params("p" * nd, nd))
    ctx.label("%dd" % nd, c["form"], c["law"], c["sim"])
    with Workdir() as w:
        res, t = launch(c, w, P, A)
        if t:
            ctx.label(t)
            return
        st = [res.dump("S0")] + [res.dump("S.%d" % k) for k in range(c["steps"])]
    Q, S = st[0], st[1]
    K = kern(c["kernel"], nd)
    gas = Q.ptype == 0
    reach = K.R * max(Q.h.max(), S.h_dust.max()) * 1.001
    if reach > .499:
        ctx.label("wide")
        return
    two = c["form"] == "full_twofluid"
    dt = float(np.ravel(S.t)[0] - np.ravel(Q.t)[0])
    tol = 3e-5
    if c["sim"] != "gradhsph":
        X = type(S)(Q)
        X["r"] = Q.r + Q.v * dt
        X["r"] -= np.floor(X["r"])
        X["h_dust"] = S.h_dust
        idx, R, V = gen.images(X["r"], Q.v, "p" * nd, 0.0, 1.0, reach)
        dts = np.full(2 * n, dt)
        z = np.zeros_like(Q.v)
        if two:
            ad, sc, E, dE = twofluid(c, X, idx, R, Q.v, z, dts)
            err(S.v, Q.v + ad * dt, sc * dt + 1e-6 * np.abs(Q.v).max() + 1e-6 * np.sqrt(c["u"]), tol, np.ones(2 * n, bool), "relax", "after one step of %.6g: velocity" % dt)
            if c["eos"] == "energy_eqn":
                un = Q.u + E * dt
                err(S.u, un, dE * dt + np.abs(Q.u) + (np.abs(Q.v).max() ** 2) * 1e-3, tol, gas, "relax_heat", "after one step of %.6g: internal energy" % dt)
        else:
            ad, sc, known = testpart(c, X, idx, R, (Q.v, lambda i, j: Q.v[j]), z, dts, np.ones(2 * n, bool))
            err(S.v, Q.v + ad * dt, sc * dt + 1e-6 * np.abs(Q.v).max() + 1e-6 * np.sqrt(c["u"]), tol, ~gas & ~known, "relax_tp", "after one step of %.6g: velocity" % dt)
    # the mean drift only ever shrinks and never reverses (beyond the summation error of the projected pair forces)
    e0 = vd - vg
    nrm = np.linalg.norm(e0)
    last = 1.0
    eps = .15 if not two else .3
    for k, S in enumerate(st):
        if not (S.nlast == int(np.ravel(S.n)[0])).all() and k:
            continue         # predicted velocities in the middle of a drift-kick-drift step
        mg, md = [(S.m[s][:, None] * S.v[s]).sum(0) / S.m[s].sum() for s in (gas, ~gas)]
        x = (md - mg) @ e0 / nrm ** 2
        if x > last + .02 or x < -eps * last - .02:
            raise Violation("overshoot", "after step %d: mean drift is %.9g of the initial one, before %.9g" % (k, x, last))
        if not two and c["sim"] == "gradhsph" and not np.allclose(mg, vg, atol=1e-9 * (np.abs(v).max() + 1)):
            raise Violation("backreaction", "after step %d: the gas moves at %s, initially %s, with test-particle dust" % (k, mg, vg))
        last = abs(x)
    ctx.nontrivial(last < .999)


D = dict(form=st.sampled_from(["full_twofluid", "test_particle"]), law=st.sampled_from(["fixed", "density", "epstein", "LP2012"]), coeff=logf(1e-3, 1e5), kernel=st.sampled_from(["m4", "m4", "quintic"]),
         tree=st.sampled_from(["kdtree", "octtree", "bruteforce"]), eos=st.sampled_from(["energy_eqn", "isothermal"]), hconv=st.just(1e-7), cour=lin(.05, .2), zmf=st.integers(0, 1), ratio=logf(.01, 10.0), mtot=logf(1e-3, 1e3), u=logf(.1, 10.0), drift=logf(.01, 3.0),
         integ=st.sampled_from(["lfkdk", "lfkdk", "lfkdk", "lfdkd"]))
MIX = dict(D, fd=lin(.15, .6), mixed=st.booleans(), vfac=st.sampled_from([0.0, .1, .5]), steps=st.integers(1, 8), levels=st.sampled_from([1, 1, 3]))


def fix(c):
    c = dict(c)
    if c["law"] == "LP2012" and c["form"] == "test_particle":
        c["law"] = "fixed"
    if c.get("nd") == 3 or c.get("p", {}).get("ndim") == 3 and c.get("sim") is None:
        c["kernel"] = "m4"
    if c.get("bc") == "ppp" and c["p"]["ndim"] == 3:
        c["bc"] = "ooo"
    if c.get("tree") == "bruteforce":
        c["tree"] = "kdtree"
    return c


P_ = gen.particles(40, 200, kinds=("jitter", "uniform", "cluster", "gradient"), masses=("equal", "spread"))
SPH = st.fixed_dictionaries(dict(MIX, p=P_, bc=st.sampled_from(["ooo", "ooo", "poo", "opo", "ppp"]))).map(fix)
MFV = st.fixed_dictionaries(dict(MIX, p=gen.particles(120, 300, kinds=("jitter",), masses=("equal", "spread")), bc=st.sampled_from(["ppp", "ppp", "ooo"]))).map(fix)
UNI = st.fixed_dictionaries(dict(D, nd=st.sampled_from([1, 2, 2, 3]), seed=st.integers(0, 9999), dlat=st.booleans(), bulk=st.sampled_from([0.0, 1.0]), steps=st.integers(1, 12), levels=st.just(1), sim=st.sampled_from(["mfvmuscl", "mfvmuscl", "gradhsph"]))).map(fix)
SUBS_ = [Sub("sph", SPH, sph, quick=120, thorough=1500), Sub("mfv", MFV, mfv, quick=80, thorough=1000), Sub("uniform", UNI, uniform, quick=48, thorough=600)]
if __name__ == "__main__":
    main("C20", SUBS_, builds=[("gdrv", "std")],
         rule="non-trivial: drag changes some particle's acceleration measurably (sph), at least one step with drag was compared (mfv), the mean drift decays by more than 0.1 per cent (uniform)",
         assumptions=["the semi-implicit drag law is the documented one (Loren-Aguilar & Bate 2015): the relative velocity relaxes exponentially over the particle's step", "two-fluid pair forces are projected on the line of centres, so the drift of one particle may overshoot by the summation error of that projection"])
