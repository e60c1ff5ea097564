#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   observe_at=list(observe), hook_needed=hook)))

prop("C01", "SPH density and smoothing length are self-consistent over all neighbours",
 "After a grad-h SPH simulation is set up or advanced, every live gas particle's density equals the kernel-weighted mass sum over every particle within the kernel range (including periodic and mirror images and only particle types that count), and its smoothing length satisfies h = h_fac*(m/rho)^(1/ndim) within the h_converge tolerance. The grad-h correction factors equal the corresponding kernel sums at the same h. The result does not depend on the neighbour-search algorithm, the leaf size or the particle order.",
 ["inputs","configurations"], "all particle distributions (clustered, lattice, coincident-ish, anisotropic), masses, 1-3 dimensions, kernels, tabulated or not, boundary types, neighbour-search options",
 "The suite runs a few fixed lattice or sound-wave set-ups and looks at an L1 error norm with loose tolerance; a neighbour missed at a cell edge or in a clustered distribution does not move it.",
 ["src/GradhSph/GradhSph.cpp","src/GradhSph/GradhSphTree.cpp","src/Tree/HydroTree.cpp","src/Tree/Tree.cpp","src/Tree/BruteForceTree.cpp","src/Headers/NeighbourManager.h"],
 [("h-rho iteration with tree gather","GradhSph::ComputeH, GradhSphTree::UpdateAllSphProperties"),("gather neighbour search","Tree::ComputeGatherNeighbourList")],
 observe=["Particle::h, rho, invomega, zeta after SetupSimulation / Run"])

prop("C02", "SPH hydrodynamic forces equal the pairwise reference and conserve",
 "For every grad-h SPH state the acceleration, heating rate and velocity divergence of every particle equal the direct pairwise sum of the published grad-h equations with artificial viscosity and conductivity over all neighbours whose kernels overlap, independent of search algorithm, leaf size and particle order. Without external forces the mass-weighted accelerations sum to zero, and mechanical work plus heating sums to zero for the energy equation.",
 ["inputs","configurations"], "all particle distributions, velocities, energies, dimensions, kernels, viscosity/conductivity switches and boundary types",
 "Existing tests look at the final profile of one or two problems; a dropped pair, an asymmetric term or an option never exercised stays inside their tolerance.",
 ["src/GradhSph/GradhSph.cpp","src/GradhSph/GradhSphTree.cpp","src/Tree/Tree.cpp","src/Tree/HydroTree.cpp"],
 [("symmetric pair force","GradhSph::ComputeSphHydroForces, ComputeSphHydroGravForces"),("scatter+gather neighbour search","Tree::ComputeNeighbourAndGhostList")],
 observe=["Particle::a, dudt, div_v"])

prop("C03", "Meshless finite-volume steps conserve mass, momentum and energy",
 "In a periodic box without gravity or external forces, a meshless finite-volume (MFV or MFM) run keeps total mass, momentum and total energy constant to rounding after every step at which all particles are synchronised, for any Riemann solver, slope limiter and number of timestep levels; with zero mass flux every particle's mass is constant. Density, mass and internal energy stay positive and finite.",
 ["histories","configurations","inputs"], "all particle set-ups, Riemann solvers, limiters, 1-3 dimensions, global and block timesteps, static or moving particles, every step of the run",
 "The suite checks the L1 error of the Sod and sound-wave problems with one solver each; flux pairing errors under block timesteps or with mass flux are not visible there.",
 ["src/MeshlessFV/MfvMuscl.cpp","src/MeshlessFV/MfvMusclSimulation.cpp","src/MeshlessFV/MeshlessFVTree.cpp","src/MeshlessFV/MfvCommon.cpp","src/MeshlessFV/MeshlessFV.cpp"],
 [("pairwise antisymmetric flux exchange","MfvMuscl::ComputeGodunovFlux"),("conserved variable update","MeshlessFV::IntegrateParticles / EndTimestep")],
 observe=["Qcons, m, v, u summed over particles"])

prop("C04", "Tree gravity agrees with the direct softened sum",
 "The gravitational acceleration and potential of every particle computed with the tree agree with the direct sum over all other particles (grad-h softened inside kernels, Newtonian outside) within an error that vanishes as the opening criterion tightens, for every opening criterion, multipole order, tree type and leaf size. With the opening angle at zero the two agree to rounding (tabulation error aside) and momentum is conserved.",
 ["inputs","configurations"], "all particle distributions and masses, opening criteria and parameters, multipole options, kd-tree, oct-tree and brute force, SPH and MFV, with and without stars",
 "The suite has one freefall sphere and the Jeans problem; both are symmetric, so multipole or double-count errors cancel.",
 ["src/Tree/Tree.cpp","src/Tree/KDTree.cpp","src/Tree/OctTree.cpp","src/GradhSph/GradhSphTree.cpp","src/MeshlessFV/MeshlessFVTree.cpp","src/Headers/Tree.h"],
 [("multipole acceptance and gravity walk","Tree::ComputeGravityInteractionAndGhostList"),("cell moments","KDTree::StockCellProperties, OctTree::StockCellProperties")],
 observe=["Particle::atree/a, gpot"])

prop("C05", "Periodic gravity equals the converged lattice sum",
 "In a fully or partly periodic box with self-gravity, the acceleration and potential of every particle equal those of the infinite periodic array of images (neutralised where required) within the accuracy of the correction table, are periodic in the particle coordinates, odd/even under reflection, and sum to zero total momentum.",
 ["inputs","configurations"], "all particle positions, box aspect ratios within the supported range, and the number of periodic directions",
 "The Jeans test checks the oscillation of one wavelength along one axis of a cubic box.",
 ["src/Common/Ewald.cpp","src/Headers/Ewald.h","src/GradhSph/GradhSphTree.cpp"],
 [("Ewald correction table","Ewald::Ewald, Ewald::CalculatePeriodicCorrection")], observe=["Particle::a, gpot; Ewald::CalculatePeriodicCorrection"])

prop("C06", "N-body forces, jerks and potentials equal the direct pairwise sum",
 "For every set of stars, the acceleration, potential and, for Hermite schemes, its time derivative computed by each N-body integrator equal the direct sum over all other stars (plus the external potential), softened with the mean smoothing length if softening is selected and Newtonian otherwise; pair forces are equal and opposite, and the jerk is the time derivative of the acceleration.",
 ["inputs","configurations"], "all star positions, velocities, masses, smoothing lengths; 1-3 dimensions; each integrator, softened and unsoftened, with kernel options",
 "Only one N-body test exists, a collisionless Jeans problem; no test compares a force or jerk with a reference.",
 ["src/Nbody/Nbody.cpp","src/Nbody/NbodyHermite4.cpp","src/Nbody/NbodyHermite6TS.cpp","src/Nbody/NbodyLeapfrogKDK.cpp","src/Nbody/NbodyLeapfrogDKD.cpp"],
 [("direct summation","NbodyHermite4::CalculateDirectGravForces, CalculateDirectSmoothedGravForces")], observe=["NbodyParticle::a, adot, gpot"])

prop("C07", "N-body integration converges at its order and conserves",
 "Integrating a star system with any of the N-body schemes follows the true trajectory with an error that shrinks with the timestep multiplier at the scheme's order, conserves total momentum to rounding on common timesteps, and conserves energy and angular momentum to an error that shrinks likewise; a Kepler binary returns to its start after one period. Softened and unsoftened, common and block timesteps all obey this.",
 ["histories","inputs","configurations"], "all binaries and small hierarchical systems, mass ratios, eccentricities, integrators, timestep levels, run lengths",
 "The nbody test only fits one oscillation; a scheme that degrades to a lower order or a block-step bug passes.",
 ["src/Nbody/NbodyHermite4.cpp","src/Nbody/NbodyHermite4TS.cpp","src/Nbody/NbodyHermite6TS.cpp","src/Nbody/NbodyLeapfrogKDK.cpp","src/Nbody/NbodyLeapfrogDKD.cpp","src/Nbody/NbodySimulation.cpp"],
 [("predictor-corrector","NbodyHermite4::AdvanceParticles/CorrectionTerms"),("timestep","Timestep functions")], observe=["star positions and velocities after Run"])

prop("C08", "Block timestep hierarchy stays valid and synchronised",
 "At every step of every run each particle's step is the base step times a power of two, starts at a multiple of its own length, is never longer than the timestep criteria computed for it when it was assigned (except where level-limited) and, in SPH with neighbour limiting, differs from its interacting neighbours' by at most level_diff_max levels. Particles' positions at the end of their own step are consistent with the global time, and all are synchronised at each resynchronisation.",
 ["histories","configurations"], "all runs with one or more timestep levels, all hydro and N-body schemes, every step",
 "Tests use final states; a particle left on a too long step or drifted to the wrong time only shows under specific level histories.",
 ["src/Common/Simulation.cpp","src/Headers/TimeStepControl.h","src/Hydrodynamics/SphLeapfrogKDK.cpp","src/MeshlessFV/MfvIntegration.cpp"],
 [("level assignment","Simulation::ComputeBlockTimesteps, ComputeGlobalTimestep"),("neighbour limiter","SphLeapfrogKDK::CheckTimesteps")],
 state=[("level","power-of-two timestep level","Particle"),("nstep/nlast","integer step length and start","Particle"),("n/nresync","integer clock","SimulationBase")], observe=["after every MainLoop"])

prop("C09", "Smoothing kernels are normalised, compact and mutually consistent",
 "For each kernel (M4, quintic, Gaussian) and dimension, analytic and tabulated, the kernel is non-negative, vanishes at and beyond its range, integrates to one over space, and its derivative, omega, zeta, gravitational force and potential functions are the corresponding derivatives/integrals of the kernel, joining the Newtonian point-mass values at the kernel edge. Squared-argument variants equal the plain ones, and tables agree with the analytic kernels within the table resolution.",
 ["inputs","configurations"], "all separations 0 <= s, all kernels, dimensions, tabulated or not",
 "No test evaluates a kernel function on its own.",
 ["src/Headers/SmoothingKernel.h","src/Hydrodynamics/M4Kernel.cpp","src/Hydrodynamics/QuinticKernel.cpp","src/Hydrodynamics/GaussianKernel.cpp","src/Hydrodynamics/TabulatedKernel.cpp"],
 [("kernel functions","M4Kernel/QuinticKernel/GaussianKernel::w0,w1,womega,wzeta,wgrav,wpot"),("tables","TabulatedKernel")], observe=["return values"])

prop("C10", "Equations of state are thermodynamically consistent",
 "For every equation of state, pressure, temperature, sound speed, entropic function and internal energy computed from a particle are mutually consistent (P=(gamma-1)*rho*u, cs^2=gamma*P/rho or P/rho as the EOS defines, T proportional to u), follow the documented density law of that EOS (isothermal, polytropic, barotropic with its two limits, locally isothermal around a point or the nearest star), are continuous and monotonic in density and scale correctly with the unit system.",
 ["inputs","configurations"], "all densities, energies, positions, EOS parameters and unit systems",
 "Tests only use the ideal-gas and isothermal EOS in one regime and only indirectly.",
 ["src/Headers/EOS.h","src/Thermal/AdiabaticEOS.cpp","src/Thermal/BarotropicEOS.cpp","src/Thermal/Barotropic2EOS.cpp","src/Thermal/PolytropicEOS.cpp","src/Thermal/IsothermalEOS.cpp","src/Thermal/LocallyIsothermal.cpp","src/Thermal/DiscLocallyIsothermal.cpp"],
 [("EOS methods","EOS::Pressure, SoundSpeed, Temperature, SpecificInternalEnergy, EntropicFunction")], observe=["return values; particle u/pressure/sound"])

prop("C11", "Riemann solvers are consistent, symmetric and accurate",
 "The exact Riemann solver returns the exact star-region state and interface state of the ideal-gas Riemann problem, including rarefactions, shocks and vacuum; the fluxes of both the exact and HLLC solvers are consistent (equal states give the physical flux), mirror-symmetric, rotationally invariant and Galilean-covariant, resolve isolated contacts exactly, and upwind supersonic states. With zero mass flux selected, the mass flux is zero.",
 ["inputs"], "all left/right densities, pressures, velocities, adiabatic indices, interface normals and dimensions",
 "Sod and sound-wave runs touch one mild Riemann problem; strong shocks, vacuum and rotated multi-dimensional states are never reached.",
 ["src/Hydrodynamics/RiemannSolver.cpp","src/Headers/RiemannSolver.h"],
 [("exact solver","ExactRiemannSolver::SolveRiemannProblem"),("HLLC","HllcRiemannSolver::ComputeFluxes"),("rotation","RiemannSolver::RotationMatrix etc")], observe=["fluxes, pstar, ustar, interface state"])

prop("C12", "Meshless gradients are exact for linear fields and limiters bound them",
 "The meshless finite-volume gradient estimate reproduces the gradient of any linear field exactly on any non-degenerate particle arrangement, and every slope limiter only reduces gradients, gives zero slope at a local extremum and keeps states reconstructed at interfaces within the range allowed by that limiter's definition over the neighbours.",
 ["inputs","configurations"], "all particle arrangements, linear and random fields, limiters, dimensions",
 "Tests run at most one limiter on smooth lattices.",
 ["src/MeshlessFV/MfvCommon.cpp","src/Headers/SlopeLimiter.h"],
 [("least-squares gradient matrix","MfvCommon::ComputePsiFactors, ComputeGradients"),("limiters","SlopeLimiter subclasses")], observe=["MeshlessFVParticle::grad, alpha_slope, vmax/vmin"])

prop("C13", "Unit conversions are exact, consistent and invertible",
 "For every quantity and every accepted pair of input/output unit names, the scale factors equal the SI ratio of those units, converting into code units and back is the identity, derived quantities scale as the dimensional product of the base units, and a dimensionless run uses unit factors. The same physical problem expressed in different units gives the same physical result.",
 ["configurations","inputs"], "all unit names of all quantities, dimensionless or not",
 "The unit test evaluates a handful of constants for one set of units.",
 ["src/Common/SimUnits.cpp","src/Headers/SimUnits.h"],
 [("unit tables","SimUnit::SIUnit, OutputScale"),("set-up","SimUnits::SetupUnits")], observe=["SimUnit::inscale/outscale/outSI/inSI; snapshots"])

prop("C14", "Snapshots round-trip and describe exactly the live state",
 "Writing a snapshot in any format and reading it back reproduces time, particle counts, types, positions, velocities, masses, smoothing lengths, densities and internal energies of all live particles and the positions, velocities, masses and radii of all stars (exactly for binary, within the printed precision for text), in any unit system. Accreted particles never reappear, and a header-only read agrees with the full read.",
 ["inputs","histories","configurations"], "all particle populations (gas, dust, stars, dead), dimensions, formats, unit choices",
 "Tests read back only the default format of simple gas runs through Python and never re-read into the simulation.",
 ["src/Common/SimulationIO.hpp","src/Common/SphSnapshot.cpp","src/Headers/BinaryIO.h","src/Headers/formatted_output.h"],
 [("writers and readers","Simulation::WriteSerenUnformSnapshotFile, ReadSerenUnformSnapshotFile, ...Form..., ...Column..."),("unit conversion","Simulation::ConvertToCodeUnits")], observe=["files and particle arrays"])

prop("C15", "A restarted run continues the interrupted one",
 "Stopping a run at any output or restart dump and resuming it from the restart file gives the same time, step count, snapshot numbering and snapshot times, and the same particle data at later times as the uninterrupted run within the truncation error of the integration, with no snapshot lost, duplicated or overwritten with different content.",
 ["crash_points","histories","configurations"], "every interruption point, formats, unit systems, physics options",
 "No test ever restarts a simulation.",
 ["src/Common/Simulation.cpp","src/Common/SimulationIO.hpp","src/Common/SimulationIC.hpp","src/Common/gandalf.cpp"],
 [("restart file","SimulationBase::RestartSnapshot, Output, GenerateIC"),("saved counters","header idata/ilpdata/ddata")], observe=["files produced by resumed run"])

prop("C16", "Parameter files are interpreted exactly as written",
 "Reading a parameter file sets exactly the parameters it names to the values given, whatever the spacing, comment text or order, leaves all others at their defaults, ignores comments and malformed lines, and the recorded parameter file re-reads to the same values. Unknown simulation options and missing run ids are rejected with an error rather than silently run.",
 ["inputs"], "all parameter files: names, values, spacing, comments, order, repeats",
 "Tests use well-formed fixed files.",
 ["src/Common/Parameters.cpp","src/Common/gandalf.cpp"],
 [("parser","Parameters::ParseLine, SetParameter, ReadParamsFile"),("recording","RecordParametersToFile")], observe=["GetParameter, .param file, exit status"])

prop("C17", "Boundary conditions behave as periodic images and mirrors",
 "With periodic boundaries particles stay inside the box (wrapping by whole box lengths) and the result is invariant under translating all particles by any vector; with mirror or wall boundaries particles never leave the box, reflect with reversed normal velocity, and the result equals that of the explicitly mirrored problem. This holds for every mix of boundary types over the axes.",
 ["inputs","configurations","histories"], "all particle positions and velocities incl. near corners, all boundary combinations, dimensions, SPH and MFV",
 "Tests use boundaries only in one dimension or a periodic cube with particles far from corners.",
 ["src/Hydrodynamics/Ghosts.cpp","src/Headers/GhostNeighbours.hpp","src/Headers/DomainBox.h","src/Tree/HydroTree.cpp","src/Hydrodynamics/SphLeapfrogKDK.cpp"],
 [("ghost creation","HydroTree::SearchBoundaryGhostParticles, Ghosts"),("ghost neighbours","GhostNeighbourFinder"),("wrapping","CheckBoundaries")], observe=["particle r, v, rho, a"])

prop("C18", "Spatial trees partition the particles and bound them",
 "After every build, re-stock or particle change, each live particle belongs to exactly one leaf of each tree, every cell's bounding box, hydrodynamic box, particle count, mass, centre of mass, quadrupole moment and maximum smoothing length are those of the particles below it, dead particles are excluded, and the depth-first links visit every leaf once.",
 ["inputs","histories","configurations"], "all particle distributions including degenerate ones (coincident, collinear), leaf sizes, kd- and oct-trees, rebuild intervals",
 "The repository's tree unit tests no longer compile, so nothing inspects the trees.",
 ["src/Tree/KDTree.cpp","src/Tree/OctTree.cpp","src/Tree/Tree.cpp","src/Headers/TreeCell.h"],
 [("build","KDTree::BuildTree, DivideTreeCell, QuickSelect; OctTree::BuildTree"),("stock","StockTree, StockCellProperties")], observe=["celldata, ids, inext"])

prop("C19", "Sink creation and accretion conserve mass and momentum",
 "Through any sequence of sink creation and accretion events the total mass, linear momentum and centre of mass of gas plus sinks are unchanged by the event, angular momentum is retained in orbit plus sink spin, accreted particles take no further part, and accretion never gives any particle a negative mass. A new sink forms only from a particle above the sink density that passes the creation tests and does not overlap existing sinks.",
 ["histories","inputs","configurations"], "all collapse histories, sink options (smooth or instantaneous accretion, radius modes), block timesteps",
 "No test enables sinks.",
 ["src/Nbody/Sinks.cpp","src/Headers/Sinks.h","src/Hydrodynamics/Hydrodynamics.cpp"],
 [("creation","Sinks::SearchForNewSinkParticles, CreateNewSinkParticle"),("accretion","Sinks::AccreteMassToSinks")], observe=["particle and star arrays before/after a step"])

prop("C20", "Dust drag conserves momentum and relaxes to the common velocity",
 "Dust-gas drag conserves total momentum (two-fluid form), moves gas and dust velocities monotonically toward each other without overshoot for any stopping time relative to the timestep, does not create energy (kinetic energy lost is returned as heat), and acts only between gas and dust; in test-particle form the gas is unaffected.",
 ["inputs","configurations","histories"], "all gas/dust arrangements, drag laws, drag coefficients from weak to stiff, dust-to-gas ratios",
 "The dusty-wave test checks one wave with one coefficient; dustybox is left out.",
 ["src/Common/Dust.cpp","src/Headers/DragLaws.h","src/Headers/Dust.h"],
 [("semi-implicit drag","DustSemiImplictForces / DustInterpolant"),("drag laws","DragLaws.h")], observe=["particle v, u, a"])

prop("C21", "Runs are deterministic and random streams well-formed",
 "Running the same parameter file twice gives bit-identical snapshots; the random number generator gives the same stream for the same seed, different streams for different seeds, and uniform numbers in the stated half-open range and Gaussian numbers with the stated mean and variance.",
 ["inputs","histories","configurations"], "all parameter files and seeds",
 "No test runs anything twice or inspects the generator.",
 ["src/Headers/RandomNumber.h","src/Common/RandomNumber.cpp","src/Common/Simulation.cpp"],
 [("generator","XorshiftRand::floatrand, gaussrand")], observe=["snapshot bytes; generator output"])

prop("C22", "Initial-condition generators build the model that was asked for",
 "Each built-in initial-condition generator produces the requested number of particles inside the requested domain with positive masses summing to the requested total, and with the requested physical structure (density, velocity, pressure, binary orbital elements, centre-of-mass frame), for all valid parameters.",
 ["configurations","inputs"], "all generators and their parameter ranges, dimensions and random seeds",
 "Each generator is run with at most one parameter set.",
 ["src/Ic/Ic.cpp","src/Ic/UniformIc.cpp","src/Ic/HierarchicalSystemIc.cpp","src/Ic/PlummerSphereIc.cpp","src/Ic/ShocktubeIc.cpp","src/Ic/SoundwaveIc.cpp"],
 [("helpers","Ic::AddCubicLattice, AddHexagonalLattice, AddRandomBox, AddRandomSphere, AddBinaryStar, AddSinusoidalDensityPerturbation"),("generators","*Ic::Generate")], observe=["particle arrays after SetupSimulation"])

prop("C23", "External potentials give forces equal to minus their gradient",
 "For each external potential the acceleration added to a particle is minus the gradient of the potential per unit mass it adds (up to the code's sign convention), the jerk is its time derivative along the motion, it has the documented form, adds to (not replaces) existing values, and an isolated particle moving in it conserves energy as the timestep shrinks.",
 ["inputs","configurations"], "all positions, velocities, potential parameters, dimensions",
 "No test uses an external potential.",
 ["src/Headers/ExternalPotential.h"],
 [("potentials","VerticalPotential, PlummerPotential, SilccPotential")], observe=["a, adot, gpot"])

prop("C24", "Data exchanged with Python is the simulation's own data",
 "Arrays imported from Python become exactly the particle properties of the simulation, and arrays extracted from a live or reloaded snapshot equal the particle data in the requested units for every quantity, type and component; rendering a quantity to a grid gives the kernel-weighted interpolation of those particles.",
 ["inputs","configurations"], "all arrays, quantities, particle types, units, dimensions, render windows and resolutions",
 "Tests extract a few quantities of one-dimensional gas runs; rendering is never tested.",
 ["src/Common/SphSnapshot.cpp","src/Common/Render.cpp","src/Common/Simulation.cpp","src/Simulation.i"],
 [("import","Simulation::ImportArray"),("extract","SphSnapshot::CopyDataFromSimulation, ExtractArray"),("render","Render::CreateColumnRenderingGrid, CreateSliceRenderingGrid")], observe=["returned arrays"])

prop("C25", "Multiple-star systems are identified with the right orbits",
 "When binary statistics are requested, every isolated bound pair of stars is reported as one binary with the semi-major axis, period, eccentricity, mass and mass ratio of its two-body orbit, hierarchical pairs are reported once, and unbound stars never are; each star belongs to at most one innermost binary.",
 ["inputs"], "all star configurations",
 "No test enables binary statistics.",
 ["src/Nbody/NbodySystemTree.cpp","src/Headers/BinaryOrbit.h"],
 [("nearest-neighbour tree","NbodySystemTree::CreateNbodySystemTree"),("orbits","NbodySystemTree::FindBinarySystems")], observe=["NbodySystemTree::orbit, Norbit, Nbinary, ..."])

prop("C26", "Physics is invariant under the symmetries of the equations",
 "Evolving the same system after relabelling particles, translating or reflecting it, permuting the coordinate axes, boosting it by a constant velocity, or rescaling its units gives the correspondingly transformed result to rounding/truncation, for hydrodynamics, gravity and stars.",
 ["inputs","histories","configurations"], "all systems and transformations, SPH and MFV, 1-3 dimensions",
 "No test compares two runs with each other.",
 ["src/Common/Simulation.cpp","src/GradhSph/GradhSph.cpp","src/MeshlessFV/MfvMuscl.cpp","src/Tree/KDTree.cpp"],
 [("whole pipeline","SimulationBase::Run")], observe=["particle data after Run"])

prop("C27", "Valid runs never touch memory outside their objects",
 "Any run of a valid parameter set performs no out-of-bounds or use-after-free access, no read of uninitialised heap-derived garbage that changes results, no undefined integer operation, and no internal assertion fails, from set-up through output and restart.",
 ["configurations","histories","inputs"], "all valid combinations of physics, solver and output options and particle numbers, including tiny ones",
 "The tests run without sanitizers, so an overrun that lands in slack space passes.",
 ["src/Common/Simulation.cpp","src/Nbody/Nbody.cpp","src/Tree/KDTree.cpp","src/Common/SimulationIO.hpp","src/Nbody/Sinks.cpp"],
 [("array growth","AllocateMemory of Sph, MeshlessFV, Nbody, Sinks, trees")], observe=["sanitizer reports, assertion failures"])

prop("C28", "Diagnostics and run control report the actual state of the run",
 "The recorded and printed diagnostics (mass, energies, momentum, angular momentum, centre of mass, particle counts) equal the sums over the live particles at that time in output units, each snapshot is written at the first step at or after its scheduled time with consecutive numbers and none skipped, and a run ends exactly at the first step reaching the end time or step limit.",
 ["histories","configurations"], "all runs, snapshot schedules, step limits, unit systems",
 "Tests only look at the last snapshot.",
 ["src/Common/SimAnalysis.hpp","src/Common/Simulation.cpp"],
 [("diagnostics","Simulation::CalculateDiagnostics, RecordDiagnostics"),("output control","SimulationBase::Output, Run, InteractiveRun")], observe=[".diag file, snapshot files, stdout"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
