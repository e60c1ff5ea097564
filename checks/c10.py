import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen

TECH = "property-based testing (Hypothesis): density laws re-implemented from their documentation, thermodynamic identities, continuity/monotonicity and unit-scaling relations, on the EOS objects and on whole runs"
NOTE = "generated states, EOS parameters, unit systems and stars for the 8 analytic equations of state; particle states after set-up and steps of SPH, MFV and MFM runs"
EOS = ["energy_eqn", "constant_temp", "isothermal", "locally_isothermal", "disc_locally_isothermal", "polytropic", "barotropic", "barotropic2"]
RU, MU = ["pc", "au", "cm", "km", "r_sun"], ["m_sun", "g", "kg", "m_jup", "m_earth"]
KB, MH, G = 1.380649e-16, 1.6735e-24, 6.674e-8      # cgs
RCM = dict(pc=3.0857e18, au=1.495979e13, cm=1.0, km=1e5, r_sun=6.957e10)
MG = dict(m_sun=1.989e33, g=1.0, kg=1e3, m_jup=1.8985e30, m_earth=5.972e27)


def law(c, un, rho, u, r, stars):
    """documented u, T, cs of the EOS in code units"""
    g, mu = c["gamma"], c["mu"]
    e = c["eos"]
    T0 = c["T0"] / un["temp"]
    if e in ("energy_eqn", "constant_temp"):
        return u, (g - 1) * u * mu, np.sqrt(g * (g - 1) * u), (g - 1) * rho * u
    if e == "isothermal":
        T = T0 * np.ones_like(rho)
    elif e == "locally_isothermal":
        d = np.sqrt(((r[:, None] - stars[None]) ** 2).sum(2)).min(1)
        T = np.maximum(T0 * d ** -c["templaw"], c["tempmin"] / un["temp"])
    elif e == "disc_locally_isothermal":
        d = np.sqrt(((r - stars[0]) ** 2).sum(1))
        cs = c["Hr"] / np.sqrt(c["Rin"]) * (d / c["Rin"]) ** -c["Q"]
        T = mu * cs * cs
    elif e == "polytropic":
        T = mu * c["K"] * rho ** (c["eta"] - 1)
    else:
        x = rho / (c["rhob"] / un["rhocgs"])
        T = T0 * (1 + x ** (g - 1) if e == "barotropic" else np.maximum(1, x ** (g - 1)))
    uu = T / mu / (g - 1)
    return uu, T, np.sqrt((g - 1) * uu), (g - 1) * rho * uu


def params(c, **kw):
    p = dict(ndim=c["nd"], sim="sph", gas_eos=c["eos"], gamma_eos=c["gamma"], mu_bar=c["mu"], temp0=c["T0"], rho_bary=c["rhob"], eta_eos=c["eta"], Kpoly=c["K"],
             templaw=c["templaw"], tempmin=c["tempmin"], DiscIcHr=c["Hr"], DiscIcRin=c["Rin"], DiscIcQ=c["Q"])
    if c["dim"]:
        p.update(dimensionless=0, rinunit=c["ru"], routunit=c["ru"], minunit=c["mu_"], moutunit=c["mu_"], tinunit="yr", toutunit="yr", rhoinunit="g_cm3", rhooutunit="g_cm3", uinunit="erg_g", uoutunit="erg_g",
                 tempinunit="K", tempoutunit="K")
    p.update(kw)
    return p


def readunits(f):
    un = {}
    for l in open(f):
        w = l.split()
        un[w[0]] = [float(x) for x in w[1:6]]
    return dict(temp=un["temp"][3], rhocgs=un["rho"][3] * un["rho"][2], ucgs=un["u"][3] * un["u"][2], v=un["v"])


def eos(c, ctx):
    nd, g = c["nd"], c["gamma"]
    rs = np.random.default_rng(c["seed"])
    n = c["n"]
    stars = rs.uniform(-1, 1, (c["ns"], nd)) * 3
    r = stars[rs.integers(c["ns"], size=n)] + rs.standard_normal((n, nd)) * 10 ** rs.uniform(-3, 2, (n, 1))
    v = rs.standard_normal((n, nd)) * 10 ** rs.uniform(-2, 2, (n, 1))
    with Workdir() as w:
        star = coords(stars, 0 * stars)
        star["m"] = np.ones(c["ns"])
        L, files = sim_lines(params(c, nbody="lfkdk"), arrays=dict(coords(np.zeros((1, nd)), np.zeros((1, nd))), m=np.ones(1), u=np.ones(1)), star=star)
        L += ["units un"]
        expect_ok(run_script(exe("gdrv"), L, w, files, cpu=20))
        un = readunits(os.path.join(w, "un"))
        if c["dim"]:
            # independent: one code unit of temperature is m_H/k_B times the specific energy unit G M/L
            U = G * MG[c["mu_"]] / RCM[c["ru"]]
            if abs(un["temp"] * KB / (MH * U) - 1) > 1.2e-2 or abs(un["ucgs"] / U - 1) > 5e-3 or abs(un["rhocgs"] * RCM[c["ru"]] ** 3 / MG[c["mu_"]] - 1) > 5e-3:
                raise Violation("unit", "code units T=%g K, u=%g erg/g, rho=%g g/cm3, expected %g, %g, %g" % (un["temp"], un["ucgs"], un["rhocgs"], MH * U / KB, U, MG[c["mu_"]] / RCM[c["ru"]] ** 3))
        rb = c["rhob"] / un["rhocgs"]
        base = rb if c["eos"].startswith("baro") else 1.0
        rho = base * 10 ** rs.uniform(-6, 6, n)
        for i in range(n // 3):
            rho[i] = base * (1 + (i - n // 6) * 1e-7)      # straddle the transition
        rho[-2:] = base
        u = 10 ** rs.uniform(-6, 6, n)
        pr = 10 ** rs.uniform(-6, 6, n)
        uu, T, cs, P = law(c, un, rho, u, r, stars)
        # the code evaluates u first, then everything else from it
        for stage in (0, 1):
            ins = np.concatenate([np.array([rho, uu if stage else u, pr]).T, r, v], 1)
            files["in"] = ins.ravel()
            expect_ok(run_script(exe("gdrv"), L + ["eos in out"], w, files, cpu=20))
            o = np.fromfile(os.path.join(w, "out")).reshape(n, -1)
            if stage == 0:
                u0 = o[:, 4]
    ctx.label(c["eos"], "units" if c["dim"] else "dimensionless", "ndim%d" % nd)
    ctx.nontrivial(True)

    def eq(a, b, key, what, tol=1e-9):
        bad = np.nonzero(~(np.abs(a - b) <= tol * np.abs(b)))[0]
        if len(bad):
            i = bad[0]
            raise Violation(key, "%s: %.15g, expected %.15g (rho=%.15g u=%.15g r=%s, rho_bary=%g code, %s)" % (what, a[i], b[i], rho[i], u[i], list(r[i]), rb, c["eos"]))

    eq(u0, uu, "u", "specific internal energy")
    eq(o[:, 4], uu, "u2", "specific internal energy from its own u")
    eq(o[:, 0], P, "P", "pressure")
    eq(o[:, 1], P / rho ** g, "K", "entropic function")
    eq(o[:, 2], cs, "cs", "sound speed")
    eq(o[:, 3], T, "T", "temperature")
    eq(o[:, 5], pr / rho / (g - 1), "uP", "internal energy from pressure")
    eq(o[:, 6], rho, "state", "primitive density")
    eq(o[:, 7], pr, "state", "primitive pressure")
    eq(o[:, 8], rho, "state", "conserved density")
    eq(o[:, 9], rho * (uu + 0.5 * (v * v).sum(1)), "state", "energy density")
    eq(o[:, 10], cs, "state", "sound speed of the state vector")
    for k in range(nd):
        eq(o[:, 11 + 2 * k], v[:, k], "state", "velocity")
        eq(o[:, 12 + 2 * k], rho * v[:, k], "state", "momentum")
    # relations that need no law: positivity, monotonic and continuous in density
    i = np.argsort(rho, kind="stable")
    p_ = o[i, 0]
    if c["eos"] not in ("locally_isothermal", "disc_locally_isothermal", "energy_eqn", "constant_temp"):
        if not (o[:, :6] > 0).all() or not (np.diff(p_) >= -1e-13 * p_[1:]).all():
            raise Violation("monotonic", "pressure not increasing with density (%s)" % c["eos"])
        x = np.log(rho[i])
        s = np.diff(np.log(p_)), np.diff(x)
        if (s[0] > 1.01 * max(g, c["eta"], 1) * s[1] + 1e-12).any():
            raise Violation("continuity", "pressure jumps with density (%s)" % c["eos"])


def particles(c, ctx):
    """the law holds for the particles of a run, at set-up and after steps"""
    nd, g = c["nd"], c["gamma"]
    d = dict(c["part"], ndim=nd)
    s = gen.system(d)
    r, v, m = s["r"], s["v"], s["m"]
    m = m / m.sum()
    n = len(r)
    stars = np.full((c["ns"], nd), 0.5) + np.arange(c["ns"])[:, None] * 0.37 + 0.01
    p = params(c, sim=c["sim"], nbody="lfkdk", Nlevels=c["lev"], courant_mult=0.2, accel_mult=0.2, energy_mult=0.2, hydro_forces=1, self_gravity=0, neib_search=c["tree"], h_converge=0.005, dimensionless=1)
    for k in list(p):
        if k.endswith("unit"):
            del p[k]
    arr = dict(coords(r, v), m=m, u=s["u"])
    star = None
    if c["eos"] in ("locally_isothermal", "disc_locally_isothermal"):
        star = dict(coords(stars, 0 * stars), m=np.full(c["ns"], 1e-6), h=np.full(c["ns"], 0.1))
    L, files = sim_lines(p, arrays=arr, star=star)
    L += ["setup", "units un", "dump d0", "steptrace %d s" % c["steps"]]
    with Workdir() as w:
        res = run_script(exe("gdrv"), L, w, files, cpu=25)
        if res.rc != 0 and ("isfinite" in res.err or "Assertion" in res.err) and c["eos"] == "energy_eqn":
            ctx.label("violent")
            return
        expect_ok(res)
        un = readunits(os.path.join(w, "un"))
        D = [x for x in [res.dump("d0")] + [res.dump("s.%d" % k) for k in range(c["steps"])] if x is not None]
    ctx.label(c["eos"], c["sim"], "ndim%d" % nd, "dumps%d" % len(D))
    ctx.nontrivial(len(D) > 1)
    for k, S in enumerate(D):
        if k and c["eos"] in ("energy_eqn", "constant_temp"):
            break       # u is corrected after the last evaluation of P
        sr = S["s_r"] if star else stars
        uu, T, cs, P = law(c, un, S["rho"], S["u"], S["r"], sr)
        mfv = c["sim"] != "sph"
        for a, b, q in ((S["u"], uu, "u"), (S["sound"], cs, "sound"), (S["pressure"], P, "pressure")) + (((S["Wprim"][:, nd + 1], P, "Wprim"), (S["Wprim"][:, nd], S["rho"], "Wprim density")) if mfv else ()):
            # particles are updated at the positions and densities of this time; the star may have moved on by a fraction of a step
            bad = ~(np.abs(a - b) <= (1e-8 if not star else 1e-3) * np.abs(b))
            if k:
                bad &= S["nlast"] == S["n"]
            if bad.any():
                i = np.nonzero(bad)[0][0]
                raise Violation("particle", "dump %d: %s of particle %d is %.15g, the %s law gives %.15g (rho=%g)" % (k, q, i, a[i], c["eos"], b[i], S["rho"][i]))
    if c["eos"] == "constant_temp" and not mfv:
        if not (np.abs(D[-1]["u"] - D[0]["u"]) <= 1e-12 * D[0]["u"]).all():
            raise Violation("constant_temp", "internal energy changed")


COMMON = dict(nd=st.integers(1, 3), gamma=st.one_of(st.sampled_from([1.4, 5 / 3.0, 2.0]), lin(1.05, 3)), mu=st.one_of(st.just(1.0), st.just(2.35), lin(0.5, 3)), T0=st.one_of(st.just(1.0), logf(1e-2, 1e3)),
              rhob=logf(1e-16, 1e4), eta=lin(1.1, 3), K=logf(1e-2, 1e2), templaw=lin(0, 1.5), tempmin=logf(1e-3, 10), Hr=logf(0.02, 1), Rin=logf(0.1, 10), Q=lin(0, 1), ns=st.integers(1, 4), seed=st.integers(0, 2 ** 31))
E1 = st.fixed_dictionaries(dict(COMMON, eos=st.sampled_from(EOS), n=st.integers(12, 60), dim=st.booleans(), ru=st.sampled_from(RU), mu_=st.sampled_from(MU)))
E2 = st.fixed_dictionaries(dict(COMMON, nd=st.integers(1, 3), eos=st.sampled_from(EOS), dim=st.just(0), ru=st.just("pc"), mu_=st.just("m_sun"), rhob=logf(1e-2, 1e2), T0=logf(0.1, 10), K=logf(0.1, 10), Hr=logf(0.3, 1), Rin=logf(0.5, 2),
                                sim=st.sampled_from(["sph", "sph", "meshlessfv", "mfvmuscl"]), lev=st.sampled_from([1, 4]), steps=st.sampled_from([2, 8]), tree=st.sampled_from(["kdtree", "octtree", "bruteforce"]), part=gen.particles(nmin=30, nmax=90, kinds=["uniform", "jitter", "cluster"], masses=("equal", "spread"), vels=("random", "cold"))))
if __name__ == "__main__":
    main("C10", [Sub("eos", E1, eos, quick=1200, thorough=60000), Sub("particles", E2, particles, quick=900, thorough=40000)], builds=[("gdrv", "std")],
         rule="eos: a batch of generated states through one EOS; particles: a run of which at least one synchronised step was compared",
         assumptions=["the tabulated radws and the two ionisation equations of state are not covered"])
