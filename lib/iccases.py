"""Small, valid parameter sets for every built-in initial-condition generator (drawn from a seed)."""
import numpy as np
from hypothesis import strategies as st

HYDRO = ["gradhsph", "gradhsph", "mfvmuscl", "mfvrk"]
ICS = ["box", "cube_random", "sphere", "shocktube", "noh", "soundwave", "sedov", "khi", "gresho", "rti", "shearflow", "cdiscontinuity", "evrard", "isothermsphere", "rotisothermsphere",
       "shock2d", "plummer", "binary", "triple", "quadruple", "jeans", "dustybox", "bb", "blob", "gaussianring", "hybridplummer"]


def _box(p, nd, lo, hi, bc):
    for k in range(3):
        p["boxmin[%d]" % k], p["boxmax[%d]" % k] = lo[k] if k < nd else 0.0, hi[k] if k < nd else 1.0
        p["boundary_lhs[%d]" % k] = p["boundary_rhs[%d]" % k] = bc if k < nd else "open"


def params(c, ics=None):
    """c: dict(ic, sim, nd, seed, lev) -> parameters (dict); ic may constrain sim and nd."""
    rs = np.random.default_rng(c["seed"])
    ic, sim, nd = c["ic"], c["sim"], c["nd"]
    p = dict(dimensionless=1, gamma_eos=float(rs.choice([1.4, 5 / 3.0])), Nlevels=c["lev"], tabulated_kernel=int(rs.integers(2)), randseed=int(rs.integers(1, 1000)),
             kernel=str(rs.choice(["m4", "quintic"])), ndiagstep=1, noutputstep=1, nrestartstep=100000)
    if p["tabulated_kernel"]:
        p["h_converge"] = 0.02
    p["courant_mult"], p["accel_mult"], p["energy_mult"] = 0.15, 0.3, 0.3
    U = lambda a, b: float(rs.uniform(a, b))
    n1 = {1: 40, 2: 14, 3: 10}[nd]
    if nd == 3 or ic == "jeans":
        p["kernel"] = "m4"
    if ic in ("box", "cube_random"):
        p.update(ic="box", particle_distribution="cubic_lattice" if ic == "box" else "random", press1=U(0.5, 2), rhofluid1=U(0.5, 2))
        hi = [1.0, U(0.8, 1.2), U(0.8, 1.2)]
        _box(p, nd, [0, 0, 0], hi, "periodic")
        for k in range(3):
            p["Nlattice1[%d]" % k] = n1 + int(rs.integers(0, 3))
        p["Nhydro"] = int(np.prod([p["Nlattice1[%d]" % k] for k in range(nd)]))
        if ic == "cube_random" and nd == 3:
            p["Nhydro"] = 900
    elif ic == "sphere":
        nd = 3 if nd == 1 else nd
        p.update(ic="sphere", Nhydro=300, mcloud=U(0.5, 2), radius=U(0.5, 2), press1=1.0, self_gravity=1 if nd == 3 else 0, rhofluid1=1.0, particle_distribution=str(rs.choice(["random", "cubic_lattice", "hexagonal_lattice"])))
        _box(p, nd, [0] * 3, [1] * 3, "open")
    elif ic == "shocktube":
        nd = 1
        p.update(ic="shocktube", press1=U(0.5, 2), press2=U(0.1, 0.5), rhofluid1=1.0, rhofluid2=0.5)
        p.update({"vfluid1[0]": U(-.2, .2), "vfluid2[0]": U(-.2, .2)})
        for k in range(3):
            p["Nlattice1[%d]" % k], p["Nlattice2[%d]" % k] = (32, 16) if k == 0 and nd == 1 else (16, 8) if k == 0 else (8, 8)
        _box(p, nd, [-1, -.5, -.5], [1, .5, .5], "periodic")
        if nd == 1:
            p["boundary_lhs[0]"] = p["boundary_rhs[0]"] = "open" if sim == "gradhsph" else "periodic"
    elif ic == "noh":
        nd = max(nd, 2)
        p.update(ic="noh", press1=1e-3, rhofluid1=1.0, Nhydro=400, particle_distribution="hexagonal_lattice" if nd == 3 else "cubic_lattice")
        for k in range(3):
            p["Nlattice1[%d]" % k] = 16 if nd == 2 else 10
        _box(p, nd, [-1] * 3, [1] * 3, "open")
        sim = "gradhsph"
    elif ic == "soundwave":
        nd = 1
        p.update(ic="soundwave", amp=10 ** U(-4, -2), Nhydro=40, press1=U(0.5, 1), rhofluid1=1.0, gas_eos="isothermal", temp0=1.0, mu_bar=1.0)
        p["Nlattice1[0]"] = 40
        _box(p, nd, [0] * 3, [1] * 3, "periodic")
    elif ic == "sedov":
        nd = max(nd, 2)
        p.update(ic="sedov", rhofluid1=1.0, press1=1e-4, kefrac=0.0, smooth_ic=1)
        for k in range(3):
            p["Nlattice1[%d]" % k] = 16 if nd == 2 else 10
        _box(p, nd, [-1] * 3, [1] * 3, "periodic")
    elif ic == "khi":
        nd = 2
        p.update(ic="khi", press1=2.5, press2=2.5, rhofluid1=1.0, rhofluid2=2.0, amp=0.02)
        p["vfluid1[0]"], p["vfluid2[0]"] = -0.5, 0.5
        for k, (a, b) in enumerate([(12, 16), (6, 8)]):
            p["Nlattice1[%d]" % k], p["Nlattice2[%d]" % k] = a, b
        p["lambda"] = 0.5
        _box(p, nd, [-.5] * 3, [.5] * 3, "periodic")
    elif ic == "gresho":
        nd = 2
        p.update(ic="gresho")
        p["Nlattice1[0]"] = p["Nlattice1[1]"] = 16
        _box(p, nd, [-.5] * 3, [.5] * 3, "periodic")
    elif ic == "rti":
        nd, sim = 2, "gradhsph"
        p.update(ic="rti", press1=2.5, press2=2.5, rhofluid1=1.0, rhofluid2=2.0, amp=0.025, external_potential="vertical", avert=-0.5, dimensionless=0)
        for k in range(2):
            p["Nlattice1[%d]" % k] = p["Nlattice2[%d]" % k] = 12
        _box(p, nd, [0] * 3, [.5, 1, 1], "periodic")
        p["boundary_lhs[1]"] = p["boundary_rhs[1]"] = "mirror"
    elif ic == "shearflow":
        nd = 2
        p.update(ic="shearflow", amp=0.5, gas_eos="isothermal", temp0=1.0, mu_bar=1.0, rhofluid1=1.0, press1=1.0)
        p["Nlattice1[0]"] = p["Nlattice1[1]"] = 14
        _box(p, nd, [0] * 3, [1, 1, 1], "periodic")
    elif ic == "cdiscontinuity":
        nd = 1
        p.update(ic="cdiscontinuity", press1=1.0, press2=1.0, rhofluid1=1.0, rhofluid2=2.0)
        for k in range(2):
            p["Nlattice1[%d]" % k], p["Nlattice2[%d]" % k] = (20, 40) if nd == 1 else (8, 12) if k == 0 else (12, 12)
        _box(p, nd, [0] * 3, [1] * 3, "periodic")
    elif ic == "evrard":
        nd = 3
        p.update(ic="evrard", Nhydro=250, mcloud=1.0, radius=1.0, thermal_energy=0.05, self_gravity=1, particle_distribution=str(rs.choice(["random", "hexagonal_lattice"])))
        _box(p, nd, [0] * 3, [1] * 3, "open")
    elif ic in ("isothermsphere", "rotisothermsphere"):
        nd = 3
        p.update(ic=ic, Nhydro=250, mcloud=1.0, radius=1.0, rhofluid1=1.0, press1=1.0, temp0=1.0, mu_bar=1.0, gas_eos="isothermal", self_gravity=1, angvel=0.1)
        _box(p, nd, [0] * 3, [1] * 3, "open")
    elif ic == "shock2d":
        nd = 2
        p.update(ic="shock2d", gamma_eos=1.4)
        p["Nlattice1[0]"] = p["Nlattice1[1]"] = 20
        _box(p, nd, [0] * 3, [1] * 3, "periodic")
    elif ic in ("plummer", "hybridplummer"):
        nd = 3
        hyb = ic == "hybridplummer"
        p.update(ic="plummer", radius=U(0.5, 2), rstar=0.05, mplummer=U(0.5, 2), starfrac=0.5 if hyb else 1.0, gasfrac=0.5 if hyb else 0.0, Nhydro=200 if hyb else 0, Nstar=24, com_frame=1, nbody="hermite4ts" if not hyb else "lfkdk")
        if hyb:
            p["self_gravity"] = 1
            sim = "gradhsph"
        else:
            sim = "nbody"
        _box(p, nd, [0] * 3, [1] * 3, "open")
    elif ic in ("binary", "triple", "quadruple"):
        nd = 3
        sim = "nbody"
        p.update(ic=ic, m1=U(.2, 1), m2=U(.2, 1), m3=U(.2, 1), m4=U(.2, 1), abin=U(.5, 2), ebin=U(0, .6), abin2=0.02, ebin2=U(0, .5), nbody=str(rs.choice(["hermite4", "hermite4ts", "hermite6ts", "lfkdk"])), com_frame=1, binary_stats=1)
        if rs.random() < 0.7:
            p.update(phirot=U(0, 3), thetarot=U(0, 3), psirot=U(0, 3))
        _box(p, nd, [0] * 3, [1] * 3, "open")
    elif ic == "jeans":
        nd = 3
        p.update(ic="jeans", amp=0.025, gas_eos="isothermal", temp0=0.05, mu_bar=1.0, self_gravity=1, rhofluid1=1.0, press1=1.0, nEwaldGrid=5)
        for k in range(3):
            p["Nlattice1[%d]" % k] = 10
        _box(p, nd, [0] * 3, [1] * 3, "periodic")
    elif ic == "dustybox":
        p["Nlevels"] = 1
        if sim not in ("gradhsph", "mfvmuscl"):
            sim = "gradhsph"
        p.update(ic="dustybox", press1=1.0, rhofluid1=1.0, dust_forces=str(rs.choice(["full_twofluid", "test_particle"])), drag_law="fixed", drag_coeff=U(.5, 2), dust_mass_factor=U(.1, 1))
        p["vfluid2[0]"] = 1.0
        for k in range(3):
            p["Nlattice1[%d]" % k] = n1
        _box(p, nd, [-.5] * 3, [.5] * 3, "periodic")
    elif ic == "bb":
        nd = 3
        p.update(ic="bb", Nhydro=300, mcloud=1.0, radius=1.0, angvel=0.1, amp=0.3, temp0=1.0, mu_bar=1.0, com_frame=1, gas_eos="isothermal", self_gravity=1, particle_distribution="hexagonal_lattice")
        _box(p, nd, [0] * 3, [1] * 3, "open")
    elif ic == "polytrope":
        nd = 3
        p.update(ic="polytrope", Nhydro=300, mcloud=1.0, radius=1.0, eta_eos=5 / 3.0, gas_eos="polytropic", Kpoly=0.4, self_gravity=1, particle_distribution="hexagonal_lattice")
        _box(p, nd, [0] * 3, [1] * 3, "open")
    elif ic == "blob":
        nd = max(nd, 2)
        p.update(ic="blob", press1=0.1, rhofluid1=1.0, rhofluid2=4.0, radius=0.7)
        for k in range(3):
            p["Nlattice1[%d]" % k] = 14 if nd == 2 else 10
        _box(p, nd, [-2] * 3, [2] * 3, "periodic")
    elif ic == "gaussianring":
        nd = 2
        p.update(ic="gaussianring", gas_eos="isothermal", temp0=1e-4, mu_bar=1.0)
        _box(p, nd, [-2] * 3, [2] * 3, "open")
    if sim == "nbody":
        p["nbody_softening"] = int(rs.integers(2))
    p["ndim"], p["sim"] = nd, sim
    if sim.startswith("mfv"):
        p["riemann_solver"] = str(rs.choice(["exact", "hllc"]))
        p["zero_mass_flux"] = 1 if p.get("self_gravity") else int(rs.integers(2))
    if sim in ("gradhsph", "sm2012sph"):
        p["time_dependent_avisc"] = str(rs.choice(["none", "mm97"]))
    if sim == "sm2012sph" and p.get("self_gravity"):
        p["sim"] = "gradhsph"
    return p


def strategy(ics=ICS, sims=HYDRO, levs=(1, 1, 4)):
    return dict(ic=st.sampled_from(ics), sim=st.sampled_from(sims), nd=st.integers(1, 3), seed=st.integers(0, 10 ** 6), lev=st.sampled_from(list(levs)))


def write(p, fn):
    with open(fn, "w") as f:
        for k, v in p.items():
            f.write("%s : %s = %s\n" % (k, k, repr(v) if isinstance(v, float) else v))
