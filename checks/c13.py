import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen

TECH = "property-based testing (Hypothesis): unit factors against an independent table of unit names and physical constants, round-trip and dimensional-product relations, and a metamorphic relation between runs of one physical problem in two unit systems"
NOTE = "all 22 quantities with every accepted input and output unit name, dimensionless or not; SPH and MFV runs of clouds with gravity, barotropic gas, sinks and boxes in random pairs of unit systems"
PC, AU, RS, RE, MS, MJ, ME, YR, DAY, QE, LS, GN, KB, AMU = 3.0857e16, 1.495979e11, 6.957e8, 6.371e6, 1.989e30, 1.8986e27, 5.9736e24, 3.1556952e7, 86400., 1.6022e-19, 3.839e26, 6.674e-11, 1.38065e-23, 1.66054e-27
U = dict(
    r=dict(mpc=1e6 * PC, kpc=1e3 * PC, pc=PC, au=AU, r_sun=RS, r_earth=RE, km=1e3, m=1, cm=.01),
    m=dict(m_sun=MS, m_jup=MJ, m_earth=ME, kg=1, g=1e-3),
    t=dict(gyr=1e9 * YR, myr=1e6 * YR, yr=YR, day=DAY, s=1),
    v=dict(km_s=1e3, au_yr=AU / YR, m_s=1, cm_s=.01),
    a=dict(km_s2=1e3, au_yr2=AU / YR ** 2, m_s2=1, cm_s2=.01),
    rho=dict(m_sun_pc3=MS / PC ** 3, kg_m3=1, g_cm3=1e3),
    sigma=dict(m_sun_pc2=MS / PC ** 2, kg_m2=1, g_cm2=10),
    press=dict(Pa=1, bar=1e5), f=dict(N=1, dyn=1e-5),
    E={"J": 1, "erg": 1e-7, "GJ": 1e9, "eV": QE, "10^40erg": 1e33},
    mom=dict(m_sunkm_s=MS * 1e3, m_sunau_yr=MS * AU / YR, kgm_s=1, gcm_s=1e-5),
    angmom=dict(m_sunkm2_s=MS * 1e6, m_sunau2_yr=MS * AU ** 2 / YR, kgm2_s=1, gcm2_s=1e-7),
    angvel=dict(rad_s=1), dmdt=dict(m_sun_myr=MS / YR / 1e6, m_sun_yr=MS / YR, kg_s=1, g_s=1e-3),
    L=dict(L_sun=LS, W=1, erg_s=1e-7), kappa=dict(m2_kg=1, cm2_g=.1), B=dict(tesla=1, gauss=1e-4),
    Q=dict(C=1, e=QE), Jcur=dict(C_s_m2=1), u=dict(J_kg=1, erg_g=1e-4), dudt=dict(J_kg_s=1, erg_g_s=1e-4), temp=dict(K=1))
for q in U:
    U[q][""] = 1
# dimension of each quantity as powers of (length, mass, time)
DIM = dict(r=(1, 0, 0), m=(0, 1, 0), t=(0, 0, 1), v=(1, 0, -1), a=(1, 0, -2), rho=(-3, 1, 0), sigma=(-2, 1, 0), press=(-1, 1, -2), f=(1, 1, -2), E=(2, 1, -2), mom=(1, 1, -1), angmom=(2, 1, -1), angvel=(0, 0, -1),
           dmdt=(0, 1, -1), L=(2, 1, -3), kappa=(2, -1, 0), u=(2, 0, -2), dudt=(2, 0, -3))
# one SI unit in the corresponding cgs unit
CGS = dict(r=100, m=1e3, t=1, v=100, a=100, rho=1e-3, sigma=.1, press=10, f=1e5, E=1e7, mom=1e5, angmom=1e7, angvel=1, dmdt=1e3, L=1e7, kappa=10, u=1e4, dudt=1e4, temp=1)
NAMES = {"press": "press", "f": "f", "E": "E", "L": "L", "B": "B", "Q": "Q", "Jcur": "Jcur"}


def read(fn):
    R = {}
    for l in open(fn):
        w = l.rstrip("\n").split(" ", 15)
        R[w[0]] = [float(x) for x in w[1:15]] + [w[15]]
    return R


def unit_lines(c):
    L = ["param ndim 1", "param dimensionless %d" % c["dimless"]]
    for q in U:
        L += ["param %sinunit %s" % (q, c["in"][q]), "param %soutunit %s" % (q, c["out"][q])]
    return L


def rel(a, b, tol, key, what):
    if not abs(a - b) <= tol * abs(b):
        raise Violation(key, "%s: %.15g, expected %.15g" % (what, a, b))


def table(c, ctx):
    L, files = sim_lines(dict(ndim=1, sim="sph", dimensionless=c["dimless"]), arrays=dict(r=None) and {})
    k = [i for i, l in enumerate(L) if l.startswith("sim")][0]
    L = L[:k] + ["param %s%sunit %s" % (q, io, c[io][q]) for q in U for io in ("in", "out")] + ["sim", "setupunits %d units" % c["rui"], "units un"]
    with Workdir() as w:
        res = run_script(exe("gdrv"), L, w, files, cpu=20)
        expect_ok(res)
        R = read(os.path.join(w, "un"))
    if set(R) != set(U):
        raise Inconclusive("unit list")
    ctx.label("dimensionless" if c["dimless"] else "dimensional", "in=out" if not c["rui"] else "separate input units")
    ctx.nontrivial(not c["dimless"])
    x = 1.7
    if c["dimless"]:
        for q, z in R.items():
            for j, v in enumerate(z[5:9]):
                if v != x:
                    raise Violation("dimensionless", "%s: dimensionless conversion %d turns 1.7 into %g" % (q, j, v))
        return
    inn = c["in"] if c["rui"] else c["out"]
    base = {}
    for q in U:
        insc, inSI, ocgs, osc, oSI = R[q][:5]
        i2c, o2c, c2i, c2o, si2c, cgs2c, c2si, c2cgs, oscl = R[q][5:14]
        nm = "%s [%s -> %s]" % (q, inn[q], c["out"][q])
        if R[q][14] != "%s|%s" % (inn[q], c["out"][q]):
            raise Violation("names", "%s: unit names recorded as %s" % (nm, R[q][14]))
        if q in ("B", "Q", "Jcur"):
            continue        # named, never scaled
        rel(inSI, U[q][inn[q]], 3e-3, "inSI", nm + " SI value of input unit")
        rel(oSI, U[q][c["out"][q]], 3e-3, "outSI", nm + " SI value of output unit")
        if q in CGS:
            rel(ocgs, oSI * CGS[q], 1e-12, "cgs", nm + " cgs value of output unit")
        if q in ("B", "Q", "Jcur"):
            continue        # named, never scaled
        # a code unit is the same physical amount whatever it is expressed in
        rel(insc * inSI, osc * oSI, 1e-9, "inout", nm + " code unit through input and output units")
        base[q] = osc * oSI
        rel(i2c, x / insc, 1e-13, "conv", nm + " Input_to_CodeUnits")
        rel(o2c, x / osc, 1e-13, "conv", nm + " Output_to_CodeUnits")
        rel(c2i * i2c, x * x, 1e-13, "inverse", nm + " input conversions")
        rel(c2o * o2c, x * x, 1e-13, "inverse", nm + " output conversions")
        rel(si2c, x / (osc * oSI), 1e-13, "conv", nm + " SI_to_CodeUnits")
        rel(si2c * c2si, x * x, 1e-13, "inverse", nm + " SI conversions")
        rel(cgs2c * c2cgs, x * x, 1e-13, "inverse", nm + " cgs conversions")
        rel(c2cgs, c2si * CGS[q], 1e-12, "conv", nm + " cgs against SI")
        rel(oscl, osc, 1e-12, "OutputScale", nm + " OutputScale of its own unit")
    Lc, Mc, Tc = base["r"], base["m"], base["t"]
    rel(R["r"][3], 1, 1e-15, "base", "length output scale")
    rel(R["m"][3], 1, 1e-15, "base", "mass output scale")
    rel(Lc ** 3 / (Mc * Tc * Tc), GN, 1e-3, "G", "gravitational constant implied by the code units")
    for q, (a, b, d) in DIM.items():
        rel(base[q], Lc ** a * Mc ** b * Tc ** d, 1e-9, "dimension", "%s code unit against length^%d mass^%d time^%d" % (q, a, b, d))
    rel(base["temp"], AMU * base["u"] / KB, 1.2e-2, "temp", "temperature code unit against m_H u/k_B")


units_st = st.fixed_dictionaries({q: st.sampled_from(sorted(U[q])) for q in U})
T = st.fixed_dictionaries({"dimless": st.sampled_from([0, 0, 0, 0, 1]), "rui": st.integers(0, 1), "in": units_st, "out": units_st})


# ------------------------------------------------------------------------------------------------
SYS = st.fixed_dictionaries({q: st.sampled_from(sorted(x for x in U[q] if x)) for q in ("r", "m", "t", "v", "rho", "u", "sigma", "a", "E", "dudt", "angmom", "mom")})


PAIRS = [(a, b) for a in U["r"] for b in U["r"] if a and b and 1 / 1100 < U["r"][a] / U["r"][b] < 1100]
MPAIRS = [(a, b) for a in U["m"] for b in U["m"] if a and b and 1e-6 < U["m"][a] / U["m"][b] < 1e6]


def run_units(c, S, w, ex):
    nd = c["nd"]
    s = gen.system(dict(c["part"], ndim=nd))
    # sizes of order one in code units (absolute guards such as 1e-20 in the code are then negligible)
    LU, MU = [U["r"][c[k]["r"]] for k in "AB"], [U["m"][c[k]["m"]] for k in "AB"]
    Ls, Ms = np.sqrt(LU[0] * LU[1]) * c["L"], max(MU) * c["M"]
    T = c["T"] * 2.35 * AMU * GN * Ms / Ls / KB
    r = (s["r"] - 0.5) * Ls
    m = s["m"] / s["m"].sum() * Ms
    vs = np.sqrt(GN * Ms / Ls)
    v = s["v"] * vs * c["vfac"]
    # input data in the chosen units; use the code's own constants so that both systems describe one problem
    e = dict(ex)
    rho0 = Ms / Ls ** 3
    p = dict(ndim=nd, sim=c["sim"], nbody="lfkdk", dimensionless=0, hydro_forces=1, self_gravity=1 if nd == 3 else 0, zero_mass_flux=1, gas_eos=c["eos"], temp0=T, mu_bar=2.35, gamma_eos=1.4, rho_bary=rho0 * 1e-3 * 10 ** c["lrho"],
             sink_particles=1, create_sinks=1, sink_radius_mode=c["srm"], rho_sink=rho0 * 1e-3 * c["rsink"], smooth_accretion=0, neib_search="kdtree", thetamaxsqd=0.0 if False else 0.1, Nlevels=1, h_converge=1e-7,
             courant_mult=0.2, accel_mult=0.2, energy_mult=0.2, h_fac=1.1, kernel="m4")
    p["sink_radius"] = 0.05 * Ls / e["r"][S["r"]] if c["srm"] == "fixed" else 2.0
    if c["sim"] != "sph":
        p.update(riemann_solver="hllc")
    if c["box"]:
        for k in range(nd):
            p["boxmin[%d]" % k] = -1.01 * Ls / e["r"][S["r"]]
            p["boxmax[%d]" % k] = 1.01 * Ls / e["r"][S["r"]]
            p["boundary_lhs[%d]" % k] = p["boundary_rhs[%d]" % k] = "open" if nd == 3 else "mirror"
    u = np.full(len(r), KB * T / (2.35 * AMU * 0.4))
    for q, x in S.items():
        p[q + "outunit"] = x
        p[q + "inunit"] = x
    p["tempoutunit"] = p["tempinunit"] = "K"
    arr = dict(coords(r / e["r"][S["r"]], v / e["v"][S["v"]]), m=m / e["m"][S["m"]], u=u / e["u"][S["u"]])
    L, files = sim_lines(p, arrays=arr)
    L += ["rescale", "units un", "setup", "dump d0", "step %d" % (c["steps"] if c["sim"] == "sph" else min(1, c["steps"])), "dump d1"]
    res = run_script(exe("gdrv"), L, w, files, cpu=30)
    if "DONE" not in res.err:
        return None
    expect_ok(res)
    R = read(os.path.join(w, "un"))
    f = {q: R[q][3] * R[q][4] for q in R if q not in ("B", "Q", "Jcur")}
    o = {}
    for d in ("d0", "d1"):
        D = res.dump(d)
        live = (D["flags"].astype(int) & 1) == 0 if False else D["m"] > 0
        for nm, q in (("r", "r"), ("v", "v"), ("a", "a"), ("m", "m"), ("h", "r"), ("rho", "rho"), ("u", "u"), ("pressure", "press"), ("sound", "v"), ("dt", "t"), ("s_r", "r"), ("s_v", "v"), ("s_m", "m"), ("s_h", "r"), ("k_radius", "r")):
            if nm in D:
                o[d, nm] = D[nm] * f[q]
        o[d, "t"] = np.atleast_1d(D["t"]) * f["t"]
        o[d, "iorig"] = D["iorig"]
        for j, q in enumerate(("E", "E", "E", "E")):
            pass
    return o, f


def si_of_code_tables(w):
    """SI values of the unit names as the code itself has them, so that both descriptions are of exactly one problem"""
    e = {}
    L, files = sim_lines(dict(ndim=1, sim="sph", dimensionless=0), arrays={})
    k = [i for i, l in enumerate(L) if l.startswith("sim")][0]
    L0 = L[:k]
    n = max(len(U[q]) for q in U)
    for j in range(n):
        nm = {q: sorted(x for x in U[q] if x)[j % (len(U[q]) - 1)] for q in U}
        Lj = L0 + ["param %s%sunit %s" % (q, io, nm[q]) for q in U for io in ("in", "out")] + ["sim", "setupunits 1", "units un%d" % j]
        expect_ok(run_script(exe("gdrv"), Lj, w, files, cpu=20))
        R = read(os.path.join(w, "un%d" % j))
        for q in U:
            e.setdefault(q, {})[nm[q]] = R[q][4]
    return e


_E = {}


def physics(c, ctx):
    A, B, rp, mp_, _ = c["units"]
    c = dict(c, A=dict(A, r=rp[0], m=mp_[0]), B=dict(B, r=rp[1], m=mp_[1]))
    if not _E:
        with Workdir() as w:
            _E.update(si_of_code_tables(w))
    out = []
    for S in (c["A"], c["B"]):
        with Workdir() as w:
            out.append(run_units(c, S, w, _E))
    if out[0] is None or out[1] is None:
        if (out[0] is None) != (out[1] is None):
            raise Violation("outcome", "run completes in one unit system and not in the other")
        ctx.label("skip")
        return
    (a, fa), (b, fb) = out
    ns = len(a["d1", "s_m"]) if ("d1", "s_m") in a else 0
    ctx.label(c["sim"], c["eos"], "sinks" if ns else "no sinks", "ndim%d" % c["nd"])
    ctx.nontrivial(any(abs(fa[q] / fb[q] - 1) > 0.1 for q in ("r", "m")))
    for d in ("d0", "d1"):
        na, nb = [len(o[d, "s_m"]) if (d, "s_m") in o else 0 for o in (a, b)]
        if na != nb:
            raise Violation("nsink", "%s: %d stars in one unit system, %d in the other" % (d, na, nb))
        if len(a[d, "m"]) != len(b[d, "m"]):
            raise Violation("count", "particle numbers differ")
        if len(a[d, "m"]) < max(15, len(a["d0", "m"]) * 0.6):
            ctx.label("mostly accreted")      # too few particles left to define smoothing lengths
            continue
        tol = 1e-4 if d == "d0" else 1e-2
        for (dd, nm), x in a.items():
            if dd != d:
                continue
            y = b[d, nm]
            if x.shape != y.shape:
                raise Violation("shape", "%s shape" % nm)
            if nm == "iorig":
                if not np.array_equal(x, y):
                    raise Violation("order", "particle order differs")
                continue
            sc = np.abs(x).max() if x.size else 0
            if nm in ("v", "s_v"):
                sc = max(sc, np.abs(a[d, "v"]).max(), a[d, "sound"].max())
            elif nm == "a":
                sc = max(sc, (a[d, "sound"] ** 2 / a[d, "h"]).max())
            elif nm == "s_r":
                sc = max(sc, np.abs(a[d, "r"]).max())
            if nm in ("a", "v", "r") or nm.startswith("s_"):
                bad = ~(np.abs(x - y) <= tol * sc)
            else:
                bad = ~(np.abs(x - y) <= tol * np.maximum(np.abs(x), np.abs(y)))
            if d == "d1" and bad.any() and bad.shape[0] >= 15 and bad.reshape(len(bad), -1).any(1).sum() <= 0.1 * len(bad):
                ctx.label("outliers")         # a branch of one pair interaction decided by the last bits
                continue
            if bad.any():
                i = np.argwhere(bad)[0]
                raise Violation("value", "%s %s of particle %d: %.12g SI in one unit system, %.12g in the other" % (d, nm, i[0], x[tuple(i)], y[tuple(i)]))


P = st.fixed_dictionaries({
    "sim": st.sampled_from(["sph", "mfvmuscl"]), "nd": st.just(3), "part": gen.particles(20, 80, kinds=("uniform", "cluster"), masses=("equal",), ndims=(3,), vels=("random", "converge", "cold")),
    "L": logf(0.5, 2), "M": logf(1, 1e2), "T": logf(0.01, 10), "vfac": st.sampled_from([0.0, 0.3, 1.0]), "eos": st.sampled_from(["isothermal", "barotropic", "energy_eqn", "barotropic2"]), "lrho": lin(-2, 4),
    "rsink": logf(0.1, 1e4), "srm": st.sampled_from(["fixed", "hmult", "density"]), "box": st.booleans(), "steps": st.integers(0, 3), "units": st.tuples(SYS, SYS, st.sampled_from(PAIRS), st.sampled_from(MPAIRS), st.booleans())})

if __name__ == "__main__":
    main("C13", [Sub("table", T, table, 400, 10000), Sub("physics", P, physics, 500, 8000)], builds=[("gdrv", "std")],
         rule="table: dimensional conversions; physics: the two unit systems differ by more than 10% in length or mass unit",
         assumptions=["physical problems are posed in three dimensions (the density unit is per volume)", "magnetic field, charge and current density are named by the code but never scaled, so only their names and SI values are checked"])
