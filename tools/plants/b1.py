import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
F = "src/GradhSph/GradhSph.cpp"

plant("c01-hmax-margin", "C01", "a particle whose converged smoothing length lies 5 to 14 per cent above the largest one previously in its tree cell, so that the neighbour list gathered for it is slightly too short",
 "the density iteration is allowed to run past the radius the neighbours were gathered for, so the density leaves out particles inside the kernel",
 [(F, "    if (parti.h > hmax) return 0;\n", "    if (parti.h > (FLOAT) 1.08*hmax) return 0;\n"),
  (F, "  FLOAT h_upper_bound = hmax;          // Upper bound on h", "  FLOAT h_upper_bound = (FLOAT) 1.08*hmax;          // Upper bound on h"),
  (F, "  if (parti.h <= hmax) return 1;\n", "  if (parti.h <= (FLOAT) 1.08*hmax) return 1;\n")],
 r'''
# expanding gas: after several steps every density must equal the sum over all particles in the kernel
def w0(s):
    k = 1/np.pi
    return np.where(s < 1, k*(1-1.5*s**2+0.75*s**3), np.where(s < 2, 0.25*k*(2-np.minimum(s, 2))**3, 0.0))
bad = 0.0
for seed in range(6):
    rng = np.random.RandomState(seed)
    n = 220
    r = rng.uniform(0, 1, (n, 3)); v = 3.0*(r-0.5)
    g = coords(r, v); g["m"] = np.full(n, 1.0/n); g["u"] = np.full(n, 0.5)
    p = dict(ndim=3, sim="sph", hydro_forces=1, self_gravity=0, gas_eos="energy_eqn", courant_mult=0.6, accel_mult=1.0, h_converge=1e-7, Nleafmax=1)
    L, f = lines(p, g)
    rc, o, e, D = run(L + ["setup", "step 12", "dump d"], f, want=["d"])
    if rc or "d" not in D: done(False, "run failed " + e[-300:])
    d = D["d"]
    dr = np.sqrt(((d["r"][:, None]-d["r"][None])**2).sum(-1))
    rho = (d["m"][None]*w0(dr/d["h"][:, None])/d["h"][:, None]**3).sum(1)
    bad = max(bad, np.abs(rho/d["rho"]-1).max())
done(bad < 2e-6, "largest relative density error %g" % bad)
''')

plant("c02-visc-grav", "C02", "self-gravity together with time-dependent artificial viscosity whose alpha differs from the nominal value",
 "the signal velocity of the viscous term uses the nominal alpha instead of the pair mean in the loop that computes hydrodynamic and gravity forces together",
 [(F, "        alpha_mean  = (FLOAT) 0.5*(parti.alpha + neibpart[j].alpha);\n        vsignal     = parti.sound + neibpart[j].sound - beta_visc*alpha_mean*dvdr;",
      "        alpha_mean  = (FLOAT) 0.5*(parti.alpha + neibpart[j].alpha);\n        vsignal     = parti.sound + neibpart[j].sound - beta_visc*alpha_visc*dvdr;")],
 r'''
# with negligible gravity the acceleration must be the same with and without self_gravity
rng = np.random.RandomState(3)
n = 150
r = rng.uniform(0, 1, (n, 3)); v = -2.0*(r-0.5) + rng.normal(0, 0.3, (n, 3))
out = []
for G in (0, 1):
    g = coords(r, v); g["m"] = np.full(n, 1e-9/n); g["u"] = np.full(n, 0.5)
    p = dict(ndim=3, sim="sph", hydro_forces=1, self_gravity=G, gas_eos="energy_eqn", avisc="mon97", time_dependent_avisc="mm97", alpha_visc_min=0.1)
    L, f = lines(p, g)
    rc, o, e, D = run(L + ["setup", "step 3", "dump d"], f, want=["d"])
    if rc or "d" not in D: done(False, "run failed " + e[-300:])
    out.append(D["d"])
err = np.abs(out[0]["a"]-out[1]["a"]).max()/np.abs(out[0]["a"]).max()
done(err < 1e-6, "relative difference of the accelerations %g" % err)
''')

plant("c04-scatter", "C04", "self-gravitating SPH gas whose smoothing lengths differ strongly between neighbouring tree cells",
 "particles that lie outside the kernel of the cell being updated but whose own kernel reaches it are treated as point masses, so their softened gravity is wrong and not symmetric",
 [("src/Tree/Tree.cpp", """    if (drsqd <= pow(celldata[cc].rmax + rmax + hrangemax, 2) ||
        drsqd <= pow(rmax + celldata[cc].rmax + kernrange*celldata[cc].hmax,2)) {

      // If not a leaf-cell, then open cell to first child cell
      if (celldata[cc].copen != -1) {
        cc = celldata[cc].copen;
      }

      // Ignore empty cells
      else if (celldata[cc].N == 0) {
        cc = celldata[cc].cnext;
      }

      // If leaf-cell, add particles to list
      else if (celldata[cc].copen == -1) {

        int i = celldata[cc].ifirst;
        while (i != -1) {
          neibmanager.AddPeriodicNeib(i);

          if (i == celldata[cc].ilast) break;
          i = inext[i];
        };
        cc = celldata[cc].cnext;
      }


    }
""", """    if (drsqd <= pow(celldata[cc].rmax + rmax + hrangemax, 2) ||
        (celldata[cc].copen != -1 && drsqd <= pow(rmax + celldata[cc].rmax + kernrange*celldata[cc].hmax,2))) {

      // If not a leaf-cell, then open cell to first child cell
      if (celldata[cc].copen != -1) {
        cc = celldata[cc].copen;
      }

      // Ignore empty cells
      else if (celldata[cc].N == 0) {
        cc = celldata[cc].cnext;
      }

      // If leaf-cell, add particles to list
      else if (celldata[cc].copen == -1) {

        int i = celldata[cc].ifirst;
        while (i != -1) {
          neibmanager.AddPeriodicNeib(i);

          if (i == celldata[cc].ilast) break;
          i = inext[i];
        };
        cc = celldata[cc].cnext;
      }


    }
""")],
 r'''
# dense clump beside sparse gas: the total gravitational force must vanish when every cell is opened
rng = np.random.RandomState(5)
a = rng.uniform(0, 1, (60, 3)); b = 0.5 + rng.normal(0, 0.02, (100, 3))
r = np.vstack([a, b]); n = len(r)
g = coords(r); g["m"] = np.full(n, 1.0/n)
p = dict(ndim=3, sim="sph", hydro_forces=1, self_gravity=1, gas_eos="isothermal", thetamaxsqd=0.0, gravity_mac="geometric", multipole="monopole", Nleafmax=2)
L, f = lines(p, g)
rc, o, e, D = run(L + ["setup", "dump d"], f, want=["d"])
if rc or "d" not in D: done(False, "run failed " + e[-300:])
d = D["d"]
err = np.abs((d["m"][:, None]*d["atree"]).sum(0)).max()/np.abs(d["m"][:, None]*d["atree"]).sum()
done(err < 1e-8, "relative net force %g" % err)
''')

plant("c09-quintic-wpot", "C09", "quintic kernel and pairs between two and three smoothing lengths apart",
 "the softened potential of the quintic kernel no longer has the softened force as its derivative and does not join the Newtonian potential",
 [("src/Headers/SmoothingKernel.h", "3.0*pow(s,5) - (5.0/14.0)*pow(s,6) + (1.0/56.0)*pow(s,7) + (729.0/14.0) - (507.0/56.0)/s);",
   "3.0*pow(s,5) - (5.0/14.0)*pow(s,6) + (1.0/56.0)*pow(s,7) + (729.0/14.0) - (505.0/56.0)/s);")],
 r'''
# two stars: potential just inside and just outside the softening radius must agree
pot = []
for x in (2.9999999, 3.0000001):
    s = dict(x=np.array([0.0, x]), y=np.zeros(2), z=np.zeros(2), vx=np.zeros(2), vy=np.zeros(2), vz=np.zeros(2), m=np.ones(2), h=np.ones(2))
    L, f = lines(dict(ndim=3, sim="nbody", nbody="hermite4", kernel="quintic", nbody_softening=1), None, s)
    rc, o, e, D = run(L + ["setup", "dump d"], f, want=["d"])
    if rc or "d" not in D: done(False, "run failed " + e[-300:])
    pot.append(D["d"]["s_gpot"][0])
done(abs(pot[0]/pot[1]-1) < 1e-5, "potentials at the kernel edge %r" % pot)
''')

plant("c10-baro2", "C10", "the barotropic2 equation of state at densities above the adiabatic transition",
 "the temperature above the transition follows a different law from the internal energy",
 [("src/Thermal/Barotropic2EOS.cpp", "  if (part.rho < rho_bary) return temp0;\n  else return temp0*pow(part.rho*invrho_bary,gammam1);",
   "  if (part.rho < rho_bary) return temp0;\n  else return temp0*(1.0 + gammam1*log(part.rho*invrho_bary));")],
 r'''
# temperature must be (gamma-1)*mu*u on both sides of the transition density
n = 40
r = np.random.RandomState(1).uniform(0, 1, (n, 3))
g = coords(r); g["m"] = np.full(n, 1.0/n)
L, f = lines(dict(ndim=3, sim="sph", hydro_forces=1, gas_eos="barotropic2", gamma_eos=1.4, temp0=2.0, mu_bar=1.3, rho_bary=1.0), g)
rho = np.logspace(-3, 3, 13)
e = np.zeros((13, 9)); e[:, 0] = rho; e[:, 1] = 1.0; e[:, 2] = 1.0
f["e.raw"] = e.ravel()
rc, o, er, D = run(L + ["setup", "eos e.raw o.raw"], f, want=["o.raw"])
if rc or "o.raw" not in D: done(False, "run failed " + er[-300:])
q = D["o.raw"].reshape(13, -1)
T, u = q[:, 3], q[:, 4]
bad = np.abs(T/(u*0.4*1.3)-1).max()
done(bad < 1e-6, "largest relative deviation of T/(mu (gamma-1) u) %g" % bad)
''')

plant("c11-right-fan", "C11", "the exact Riemann solver with a transonic rarefaction running to the right, so that the interface lies inside its fan",
 "the density inside the right-moving fan follows the wrong power of the sound speed",
 [("src/Hydrodynamics/RiemannSolver.cpp", "          d = dr*pow(c/cr,g4);\n", "          d = dr*pow(c/cr,g3);\n")],
 r'''
# a shock tube and its mirror image in one dimension must give mirrored results
def tube(flip):
    n = 60
    x = (np.arange(n)+0.5)/n
    rho = np.where(x < 0.5, 1.0, 0.05); vx = np.where(x < 0.5, 0.9, 0.9)
    if flip:
        rho = rho[::-1]; vx = -vx[::-1]
    m = rho/n
    g = dict(x=x, vx=vx, m=m, u=np.full(n, 1.5))
    p = dict(ndim=1, sim="mfvmuscl", riemann_solver="exact", zero_mass_flux=0, gas_eos="energy_eqn", gamma_eos=1.4, hydro_forces=1, slope_limiter="null",
             **{"boundary_lhs[0]": "periodic", "boundary_rhs[0]": "periodic", "boxmin[0]": 0.0, "boxmax[0]": 1.0, "h_fac": 1.0})
    L, f = lines(p, g)
    rc, o, e, D = run(L + ["setup", "step 8", "dump d"], f, want=["d"])
    if rc or "d" not in D: done(False, "run failed " + e[-300:])
    d = D["d"]; o = np.argsort(d["r"]); return d["r"][o], d["rho"][o], d["v"][o]
a = tube(False); b = tube(True)
err = max(np.abs(a[0]-(1-b[0][::-1])).max(), np.abs(a[1]/b[1][::-1]-1).max(), np.abs(a[2]+b[2][::-1]).max())
done(err < 1e-7, "largest difference from the mirror image %g" % err)
''')

plant("c16-hash-comment", "C16", "a parameter line whose descriptive text before the colon contains a hash character",
 "such a line is silently ignored and the parameter keeps its default",
 [("src/Common/Parameters.cpp", "  if (hash_pos == 0 || length == 0) return;", "  if (hash_pos >= 0 && (hash_pos == 0 || hash_pos < colon_pos)) return;\n  if (length == 0) return;")],
 r'''
t = "Run id : run_id = T\nNumber (#) of gas particles : Nhydro = 137\nNo. of stars : Nstar = 5\n"
rc, o, e, D = run(["paramfile p.dat", "getparam Nhydro", "getparam Nstar"], text={"p.dat": t})
done(rc == 0 and "PARAM Nhydro=137" in e and "PARAM Nstar=5" in e, e[-300:])
''')

plant("c23-plummer-jerk", "C23", "a Hermite star integration inside a Plummer potential at radii comparable to its core radius",
 "the jerk of the Plummer potential is no longer the time derivative of its acceleration",
 [("src/Headers/ExternalPotential.h", "      pow(drsqd + rplummer*rplummer, -(FLOAT) 2.5)*dvdr*rp[k]", "      pow(drsqd + rplummer*rplummer, -(FLOAT) 1.5)*dvdr*rp[k]/(drsqd + small_number)")],
 r'''
# numerical time derivative of the acceleration along a straight line
n = 30
g = coords(np.random.RandomState(1).uniform(0, 1, (n, 3))); g["m"] = np.full(n, 1.0/n)
L, f = lines(dict(ndim=3, sim="sph", hydro_forces=1, gas_eos="isothermal", external_potential="plummer", mplummer=1.3, rplummer=0.7), g)
rng = np.random.RandomState(4)
x = rng.normal(0, 1, (10, 3)); v = rng.normal(0, 1, (10, 3)); h = 1e-5
f["e.raw"] = np.vstack([np.hstack([x+s*h*v, v]) for s in (-1, 0, 1)]).ravel()
rc, o, er, D = run(L + ["setup", "extpot e.raw o.raw 0.0"], f, want=["o.raw"])
if rc or "o.raw" not in D: done(False, "run failed " + er[-300:])
q = D["o.raw"].reshape(3, 10, 7)
fd = (q[2, :, :3]-q[0, :, :3])/(2*h)
bad = np.abs(fd-q[1, :, 3:6]).max()
done(bad < 1e-6, "largest deviation of the jerk %g" % bad)
''')
