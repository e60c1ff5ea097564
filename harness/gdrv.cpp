// Generic driver: executes a script of commands (file given as argv[1]) against the public
// interface of the simulation and dumps the state of all particles, stars and clocks.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <map>
#include <vector>
#include <string>
#include <functional>
#include <unistd.h>
#include "SphSnapshot.h"
#include "Render.h"
#include "Simulation.h"
#include "Parameters.h"
#include "Exception.h"
#include "Tree.h"
#include "KDTree.h"
#include "OctTree.h"
#include "BruteForceTree.h"
using namespace std;

static Parameters* params = new Parameters();
static SimulationBase* sim = NULL;
static string simtype;
static int ND = 0;

struct Dump {
  ofstream f;
  Dump(const string& fn) : f(fn.c_str(), ios::binary) {}
  void put(const string& name, const vector<double>& d, int ncol) {
    f << name << " " << (ncol ? (long) d.size()/ncol : 0) << " " << ncol << "\n";
    f.write((const char*) d.data(), d.size()*sizeof(double));
    f << "\n";
  }
  void scal(const string& name, double x) { put(name, vector<double>(1,x), 1); }
};

template <class P, class F> static void field(Dump& D, const char* nm, vector<P*>& p, int nc, F get) {
  vector<double> d; d.reserve(p.size()*nc);
  for (auto q : p) for (int k=0;k<nc;k++) d.push_back((double) get(*q,k));
  D.put(nm, d, nc);
}
#define FS(P,nm,x)   field<P>(D, nm, v, 1,    [](P& p,int k)->double{return (double)(p.x);})
#define FV(P,nm,x,n) field<P>(D, nm, v, n,    [](P& p,int k)->double{return (double)(p.x[k]);})

template <int ndim> static bool is_sph() { return simtype=="sph" || simtype=="gradhsph"; }
template <int ndim> static bool is_mfv() { return simtype=="meshlessfv" || simtype=="mfvmuscl" || simtype=="mfvrk"; }

template <int ndim> static void dump(const string& fn, bool ghosts) {
  Simulation<ndim>* s = static_cast<Simulation<ndim>*>(sim);
  Dump D(fn);
  D.scal("t", s->t); D.scal("timestep", s->timestep); D.scal("n", s->n); D.scal("nresync", s->nresync);
  D.scal("Nsteps", s->Nsteps); D.scal("Nblocksteps", s->Nblocksteps); D.scal("Nfullsteps", s->Nfullsteps);
  D.scal("level_max", s->level_max); D.scal("level_step", s->level_step); D.scal("dt_max", s->dt_max);
  D.scal("Noutlitesnap", s->Noutlitesnap); D.scal("tlitesnaplast", s->tlitesnaplast); D.scal("tlitesnapnext", s->tlitesnapnext);
  D.scal("Noutsnap", s->Noutsnap); D.scal("tsnapnext", s->tsnapnext); D.scal("tsnaplast", s->tsnaplast);
  D.scal("tend", s->tend); D.scal("Nlevels", s->Nlevels); D.scal("integration_step", s->integration_step);
  int Nh = s->hydro ? s->hydro->Nhydro : 0;
  if (simtype=="nbody") Nh = 0;
  D.scal("Nhydro", Nh);
  D.scal("Ntot", s->hydro ? s->hydro->Ntot : 0);
  D.scal("NPeriodicGhost", s->hydro ? s->hydro->NPeriodicGhost : 0);
  D.scal("Nstar", s->nbody ? s->nbody->Nstar : 0);
  D.scal("Nsink", s->sinks ? s->sinks->Nsink : 0);
  if (s->hydro && simtype!="nbody") { D.scal("mmean", s->hydro->mmean); D.scal("h_fac", s->hydro->h_fac);
    D.scal("kernrange", s->hydro->kernp->kernrange); }
  { // box
    vector<double> b; for (int k=0;k<ndim;k++) { b.push_back(s->simbox.min[k]); b.push_back(s->simbox.max[k]); }
    D.put("box", b, 2);
  }
  { vector<double> u; 
    u.push_back(s->simunits.t.outscale); u.push_back(s->simunits.m.outscale); u.push_back(s->simunits.r.outscale);
    u.push_back(s->simunits.v.outscale); u.push_back(s->simunits.rho.outscale); u.push_back(s->simunits.u.outscale);
    u.push_back(s->simunits.E.outscale); u.push_back(s->simunits.mom.outscale); u.push_back(s->simunits.angmom.outscale);
    u.push_back(s->simunits.a.outscale);
    D.put("units", u, (int) u.size()); }
  { // diagnostics
    Diagnostics<ndim>& g = s->diag; vector<double> d;
    d.push_back(g.Nhydro); d.push_back(g.Nstar); d.push_back(g.Ndead); d.push_back(g.Eerror); d.push_back(g.Etot); d.push_back(g.utot);
    d.push_back(g.ketot); d.push_back(g.gpetot); d.push_back(g.mtot);
    for (int k=0;k<ndim;k++) d.push_back(g.mom[k]);
    for (int k=0;k<3;k++) d.push_back(g.angmom[k]);
    for (int k=0;k<ndim;k++) d.push_back(g.rcom[k]);
    for (int k=0;k<ndim;k++) d.push_back(g.vcom[k]);
    D.put("diag", d, (int) d.size());
    D.scal("diag0_Etot", s->diag0.Etot);
  }
  if (Nh > 0 || (s->hydro && simtype!="nbody")) {
    int N = ghosts ? max(s->hydro->Ntot, Nh) : Nh;
    { typedef Particle<ndim> P; vector<P*> v; for (int i=0;i<N;i++) v.push_back(&s->hydro->GetParticlePointer(i));
      FS(P,"flags",flags.get()); FS(P,"ptype",ptype); FS(P,"iorig",iorig); FS(P,"sinkid",sinkid); FS(P,"levelneib",levelneib);
      FS(P,"nstep",nstep); FS(P,"nlast",nlast); FS(P,"level",level); FV(P,"r",r,ndim); FV(P,"v",v,ndim); FV(P,"a",a,ndim);
      FV(P,"atree",atree,ndim); FV(P,"r0",r0,ndim); FV(P,"v0",v0,ndim); FV(P,"a0",a0,ndim); FS(P,"m",m); FS(P,"h",h); FS(P,"h_dust",h_dust); FS(P,"hrangesqd",hrangesqd);
      FS(P,"hfactor",hfactor); FS(P,"sound",sound); FS(P,"rho",rho); FS(P,"pressure",pressure); FS(P,"u",u); FS(P,"u0",u0);
      FS(P,"dudt",dudt); FS(P,"dudt0",dudt0); FS(P,"gpot",gpot); FS(P,"gpot_hydro",gpot_hydro); FS(P,"dt",dt); FS(P,"dt_next",dt_next); FS(P,"tlast",tlast);
      FS(P,"vsig_max",vsig_max); FS(P,"ionfrac",ionfrac);
    }
    if (is_sph<ndim>()) { typedef GradhSphParticle<ndim> P; vector<P*> v;
      for (int i=0;i<N;i++) v.push_back((P*) &s->hydro->GetParticlePointer(i));
      FS(P,"div_v",div_v); FS(P,"alpha",alpha); FS(P,"dalphadt",dalphadt); FS(P,"invomega",invomega); FS(P,"zeta",zeta);
    }
    if (is_mfv<ndim>()) { typedef MeshlessFVParticle<ndim> P; vector<P*> v;
      for (int i=0;i<N;i++) v.push_back((P*) &s->hydro->GetParticlePointer(i));
      FS(P,"invomega",invomega); FS(P,"zeta",zeta); FS(P,"div_v",div_v); FS(P,"ndens",ndens); FV(P,"Wprim",Wprim,ndim+2); FV(P,"Qcons0",Qcons0,ndim+2);
      FV(P,"dQ",dQ,ndim+2); FV(P,"dQdt",dQdt,ndim+2); FV(P,"alpha_slope",alpha_slope,ndim+2); FV(P,"rdmdt",rdmdt,ndim); FV(P,"rdmdt0",rdmdt0,ndim);
      field<P>(D,"B",v,ndim*ndim,[](P& p,int k)->double{return p.B[k/ndim][k%ndim];});
      field<P>(D,"grad",v,(ndim+2)*ndim,[](P& p,int k)->double{return p.grad[k/ndim][k%ndim];});
    }
  }
  if (s->nbody && s->nbody->Nstar >= 0) {
    typedef StarParticle<ndim> P; vector<P*> v; for (int i=0;i<s->nbody->Nstar;i++) v.push_back(&s->nbody->stardata[i]);
    FS(P,"s_flags",flags.get()); FS(P,"s_level",level); FS(P,"s_nstep",nstep); FS(P,"s_nlast",nlast); FV(P,"s_r",r,ndim); FV(P,"s_v",v,ndim); FV(P,"s_a",a,ndim);
    FV(P,"s_adot",adot,ndim); FV(P,"s_a2dot",a2dot,ndim); FV(P,"s_a3dot",a3dot,ndim); FS(P,"s_m",m); FS(P,"s_h",h); FS(P,"s_radius",radius); FS(P,"s_gpot",gpot);
    FS(P,"s_gpe",gpe); FS(P,"s_dt",dt); FS(P,"s_dt_next",dt_next); FS(P,"s_tlast",tlast); FV(P,"s_r0",r0,ndim); FV(P,"s_v0",v0,ndim); FV(P,"s_a0",a0,ndim);
  }
  if (s->sinks && s->sinks->Nsink > 0) {
    typedef SinkParticle<ndim> P; vector<P*> v; for (int i=0;i<s->sinks->Nsink;i++) v.push_back(&s->sinks->sink[i]);
    FS(P,"k_istar",istar); FS(P,"k_radius",radius); FS(P,"k_macctot",macctot); FS(P,"k_Ngas",Ngas); FS(P,"k_menc",menc); FS(P,"k_dmdt",dmdt); FV(P,"k_angmom",angmom,3); FS(P,"k_mmax",mmax); FS(P,"k_utot",utot); FS(P,"k_trot",trot);
  }
  { // binary statistics
    vector<double> o; NbodySystemTree<ndim>& T = s->nbodytree;
    D.scal("Norbit", T.Norbit); D.scal("Nbinary", T.Nbinary); D.scal("Ntriple", T.Ntriple); D.scal("Nquadruple", T.Nquadruple);
    for (int i=0;i<T.Norbit;i++) { BinaryOrbit& b = T.orbit[i];
      o.push_back(b.ichild1); o.push_back(b.ichild2); o.push_back(b.m); o.push_back(b.ecc); o.push_back(b.period); o.push_back(b.q); o.push_back(b.sma); o.push_back(b.binen);
      for (int k=0;k<3;k++) o.push_back(k<ndim ? b.r[k] : 0.0);
      for (int k=0;k<3;k++) o.push_back(k<ndim ? b.v[k] : 0.0);
      for (int k=0;k<3;k++) o.push_back(b.angmom[k]);
    }
    D.put("orbit", o, 17);
  }
  D.f.flush();
}

// Trees: every cell of a tree, the particle chains of its leaves and the leaf that holds a given point
template <int ndim, class T> static void treecells(Dump& D, const string& px, T* t) {
  vector<double> c, ch;
  for (int i=0;i<t->Ncell;i++) { auto& q = t->celldata[i];
    c.push_back(q.id); c.push_back(q.level); c.push_back(q.cnext); c.push_back(q.copen); c.push_back(q.ifirst); c.push_back(q.ilast);
    c.push_back(q.N); c.push_back(q.Nactive); c.push_back(q.m); c.push_back(q.rmax); c.push_back(q.hmax); c.push_back(q.maxsound);
    c.push_back(q.cdistsqd); c.push_back(q.mac); c.push_back(q.macfactor);
    for (int k=0;k<5;k++) c.push_back(q.q[k]);
    for (int k=0;k<ndim;k++) { c.push_back(q.r[k]); c.push_back(q.v[k]); c.push_back(q.rcell[k]); c.push_back(q.bb.min[k]); c.push_back(q.bb.max[k]);
      c.push_back(q.hbox.min[k]); c.push_back(q.hbox.max[k]); c.push_back(q.vbox.min[k]); c.push_back(q.vbox.max[k]); }
    if (q.copen == -1) {
      long guard = 0; int j = q.ifirst;
      while (j != -1 && q.N > 0) { ch.push_back(i); ch.push_back(j); if (j == q.ilast) break; j = t->inext[j]; if (++guard > t->Ntotmax) { ch.push_back(i); ch.push_back(-9); break; } }
    }
  }
  D.put(px+"cells", c, 20+9*ndim); D.put(px+"chain", ch, 2);
  D.scal(px+"Ncell", t->Ncell); D.scal(px+"ghost_range", ghost_range); D.scal(px+"ltot", t->ltot); D.scal(px+"Nleafmax", t->Nleafmax); D.scal(px+"Ntot", t->Ntot);
  vector<double> ac; vector<TreeCellBase<ndim> > cl;
  if (t->Ncell > 0 && t->Ntot > 0) { t->ComputeActiveCellList(cl); for (auto& q : cl) ac.push_back(q.id); }
  D.put(px+"active", ac, 1);
}
template <int ndim, template<int> class P> static void treeany(Dump& D, const string& px, TreeBase<ndim>* b) {
  if (auto t = dynamic_cast<KDTree<ndim,P,KDTreeCell>*>(b)) treecells<ndim>(D, px, t);
  else if (auto t = dynamic_cast<OctTree<ndim,P,OctTreeCell>*>(b)) treecells<ndim>(D, px, t);
  else if (auto t = dynamic_cast<OctTree<ndim,P,TreeRayCell>*>(b)) treecells<ndim>(D, px, t);
  else if (auto t = dynamic_cast<BruteForceTree<ndim,P,BruteForceTreeCell>*>(b)) treecells<ndim>(D, px, t);
  else { cerr << "HARNESS tree type" << endl; _exit(93); }
}
template <int ndim> static NeighbourSearch<ndim>* neibof() {
  Simulation<ndim>* s = static_cast<Simulation<ndim>*>(sim);
  if (is_sph<ndim>()) return static_cast<SphSimulation<ndim>*>(s)->sphneib;
  return static_cast<MeshlessFVSimulation<ndim>*>(s)->mfvneib;
}
template <int ndim> static void treedump(const string& fn) {
  Dump D(fn); NeighbourSearch<ndim>* nb = neibof<ndim>(); Simulation<ndim>* s = static_cast<Simulation<ndim>*>(sim);
  if (is_sph<ndim>()) { treeany<ndim,GradhSphParticle>(D, "t_", nb->GetTree()); if (s->hydro->NPeriodicGhost > 0) treeany<ndim,GradhSphParticle>(D, "g_", nb->GetGhostTree()); }
  else { treeany<ndim,MeshlessFVParticle>(D, "t_", nb->GetTree()); if (s->hydro->NPeriodicGhost > 0) treeany<ndim,MeshlessFVParticle>(D, "g_", nb->GetGhostTree()); }
}

static vector<double> readf(const string& fn) {
  ifstream f(fn.c_str(), ios::binary|ios::ate);
  if (!f) { cerr << "HARNESS cannot read " << fn << endl; _exit(90); }
  long n = f.tellg(); f.seekg(0); vector<double> d(n/8); f.read((char*) d.data(), n); return d;
}

template <int ndim> static void setfield(const string& type, const string& q, const vector<double>& d) {
  Simulation<ndim>* s = static_cast<Simulation<ndim>*>(sim);
  if (type=="star") {
    for (size_t i=0;i<d.size() && (int) i<s->nbody->Nstar;i++) { auto& p = s->nbody->stardata[i];
      if (q=="radius") p.radius = d[i]; else if (q=="h") { p.h = d[i]; p.invh = 1.0/d[i]; } 
      else if (q=="istar") p.istar=(int)d[i]; else if (q=="gpot") p.gpot = d[i];
      else if (q[0]=='a' && q.size()==2 && q[1]>='0' && q[1]<'0'+ndim) p.a[q[1]-'0'] = d[i]; else { cerr << "HARNESS field " << q << endl; _exit(91);} }
    return;
  }
  for (size_t i=0;i<d.size();i++) {
    Particle<ndim>& p = s->hydro->GetParticlePointer(i);
    if (q=="ptype") p.ptype = (int) d[i];
    else if (q=="dead") { if (d[i]!=0) { p.flags.set(dead); } }
    else if (q=="active") { if (d[i]!=0) p.flags.set(active); else p.flags.unset(active); }
    else if (q=="sound") p.sound = d[i];
    else if (q=="gpot") p.gpot = d[i];
    else if (q[0]=='r' && q.size()==2 && q[1]>='0' && q[1]<'0'+ndim) p.r[q[1]-'0'] = d[i];
    else if (q[0]=='v' && q.size()==2 && q[1]>='0' && q[1]<'0'+ndim) p.v[q[1]-'0'] = d[i];
    else if (q[0]=='a' && q.size()==2 && q[1]>='0' && q[1]<'0'+ndim) p.a[q[1]-'0'] = d[i];
    else if (q=="dudt") p.dudt = d[i];
    else if (q=="m") p.m = d[i];
    else if (q=="iorig") p.iorig = (int) d[i];
    else if (q=="u") p.u = d[i];
    else if (q=="h") p.h = d[i];
    else if (q=="rho") p.rho = d[i];
    else { cerr << "HARNESS field " << q << endl; _exit(91); }
  }
}

// Events: the calls that create sinks and accrete gas are intercepted at link time (-Wl,--wrap), and
// the state is dumped before and after each of them once an "eventtrace PREFIX" command was given.
static string evprefix; static int evcount = 0;
#define WRAPSINK(D, NAME, LEN, TAG) \
extern "C" void __real__ZN5SinksILi##D##EE##LEN##NAME##EidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(Sinks<D>*, int, double, Hydrodynamics<D>*, Nbody<D>*) __attribute__((weak)); \
extern "C" void __wrap__ZN5SinksILi##D##EE##LEN##NAME##EidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(Sinks<D>* k, int n, double t, Hydrodynamics<D>* h, Nbody<D>* b) { \
  if (!evprefix.empty()) dump<D>(evprefix + "." + to_string(evcount) + "." TAG "0", false); \
  __real__ZN5SinksILi##D##EE##LEN##NAME##EidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(k, n, t, h, b); \
  if (!evprefix.empty()) { dump<D>(evprefix + "." + to_string(evcount) + "." TAG "1", false); evcount++; } }
#define WRAPSINKS(D) WRAPSINK(D, SearchForNewSinkParticles, 25, "s") WRAPSINK(D, AccreteMassToSinks, 18, "c")
WRAPSINKS(1) WRAPSINKS(2) WRAPSINKS(3)

template <int ndim> static void command(const string& c, istringstream& ss);

static void run_line(const string& line) {
  istringstream ss(line); string c; ss >> c;
  if (c.empty() || c[0]=='#') return;
  if (c=="param") { string k, v; ss >> k; getline(ss, v); size_t b = v.find_first_not_of(' '); v = b==string::npos ? "" : v.substr(b);
    if (!params->intparams.count(k) && !params->floatparams.count(k) && !params->stringparams.count(k)) { cerr << "HARNESS unknown parameter " << k << endl; _exit(92); }
    params->SetParameter(k, v); return; }
  if (c=="paramfile") { string f; ss >> f; params->ReadParamsFile(f); return; }
  if (c=="recordparams") { params->RecordParametersToFile(); return; }
  if (c=="getparams") { string fn; ss >> fn; ofstream o(fn.c_str()); o << setprecision(17); for (auto& x : params->intparams) o << "i " << x.first << " " << x.second << "\n";
    for (auto& x : params->floatparams) o << "f " << x.first << " " << x.second << "\n"; for (auto& x : params->stringparams) o << "s " << x.first << " " << x.second << "\n"; return; }
  if (c=="getparam") { string k; ss >> k; cerr << "PARAM " << k << "=" << params->GetParameter(k) << endl; return; }
  if (c=="simparams") { string f; ss >> f; sim = SimulationBase::SimulationFactory(params->intparams["ndim"], params->stringparams["sim"], params); return; }
  if (c=="sim") { simtype = params->stringparams["sim"]; ND = params->intparams["ndim"];
    sim = SimulationBase::SimulationFactory(ND, simtype, params); return; }
  if (c=="restart") { sim->restart = true; return; }
  if (c=="quiet") { cout.setstate(ios::failbit); return; }
  if (c=="mark") { string x; ss >> x; cerr << "MARK " << x << endl; return; }
  if (ND==1) command<1>(c, ss); else if (ND==2) command<2>(c, ss); else command<3>(c, ss);
}

template <int ndim> static void command(const string& c, istringstream& ss) {
  Simulation<ndim>* s = static_cast<Simulation<ndim>*>(sim);
  if (c=="presetup") sim->PreSetupForPython();
  else if (c=="process") sim->ProcessParameters();
  else if (c=="import") { string q, ty, f; ss >> q >> ty >> f; vector<double> d = readf(f); sim->ImportArray(d.data(), (int) d.size(), q, ty); }
  else if (c=="field") { string ty, q, f; ss >> ty >> q >> f; setfield<ndim>(ty, q, readf(f)); }
  else if (c=="given_h") sim->initial_h_provided = true;
  else if (c=="rescale") s->ConvertToCodeUnits();
  else if (c=="setup") sim->SetupSimulation();
  else if (c=="genic") { sim->ProcessParameters(); sim->GenerateIC(); }
  else if (c=="step") { int n=1; ss >> n; for (int i=0;i<n;i++) sim->MainLoop(); }
  else if (c=="eventtrace") ss >> evprefix;
  else if (c=="steptrace") { // step N, dumping prefix.<i> after each
    int n; string pre; ss >> n >> pre; for (int i=0;i<n;i++) { if (sim->t >= sim->tend) break; sim->MainLoop(); dump<ndim>(pre + "." + to_string(i), false); } }
  else if (c=="syncto") { // syncto NMAX prefix T...: advance to the first instant at or after each T at which all stars and particles end a step
    int nmax; string pre; ss >> nmax >> pre; double T; int k=0, m=0;
    while (ss >> T) {
      bool ok = false;
      while (m < nmax) {
        sim->MainLoop(); m++;
        if (s->t < T) continue;
        ok = true;
        for (int i=0;i<s->nbody->Nnbody;i++) if (s->nbody->nbodydata[i]->nlast != s->n) ok = false;
        if (s->hydro) for (int i=0;i<s->hydro->Nhydro;i++) { Particle<ndim>& p = s->hydro->GetParticlePointer(i); if (!p.flags.is_dead() && p.nlast != s->n) ok = false; }
        if (ok) break;
      }
      if (!ok) break;
      dump<ndim>(pre + "." + to_string(k++), false);
    } }
  else if (c=="stepsync") { // run until resynchronised (n==0 / n==nresync), at most N steps, dumping each sync
    int n, nd; string pre; ss >> n >> nd >> pre; int k=0; for (int i=0;i<n && k<nd;i++) { sim->MainLoop(); if (s->n==s->nresync) { dump<ndim>(pre + "." + to_string(k), false); k++; } } }
  else if (c=="output") { cerr << "OUTPUT " << sim->Output() << endl; }
  else if (c=="run") { int n=-1; ss >> n; sim->Run(n); }
  else if (c=="irun") { int n=-1; ss >> n; auto l = sim->InteractiveRun(n); cerr << "IRUN " << l.size() << endl; }
  else if (c=="dump") { string f; ss >> f; dump<ndim>(f, false); }
  else if (c=="dumpall") { string f; ss >> f; dump<ndim>(f, true); }
  else if (c=="treedump") { string f; ss >> f; treedump<ndim>(f); dump<ndim>(f + ".p", true); }
  else if (c=="treebuild") { int r; ss >> r; neibof<ndim>()->BuildTree(r==1, 1, 2, r==2 ? 2 : 1, s->timestep, s->hydro); }       // 1 build, 0 restock, 2 extrapolate
  else if (c=="ghostbuild") { int r; ss >> r; neibof<ndim>()->BuildGhostTree(r==1, 1, 2, r==2 ? 2 : 1, s->timestep, s->hydro); }
  else if (c=="ghosts") { double tg; ss >> tg; neibof<ndim>()->SearchBoundaryGhostParticles(tg, s->simbox, s->hydro); }
  else if (c=="gather") { string q, f; ss >> q >> f; auto d = readf(q); Dump D(f); vector<double> o; int nmax; ss >> nmax; vector<int> l(nmax + 2, -77);  // queries (r, R): pairs (query, particle), -1 overflow
    for (size_t i=0;i<d.size();i+=ndim+1) { vector<double> rp(d.begin()+i, d.begin()+i+ndim); fill(l.begin(), l.end(), -77);
      int n = neibof<ndim>()->GetGatherNeighbourList(&rp[0], d[i+ndim], &s->hydro->GetParticlePointer(0), s->hydro->Nhydro, nmax, &l[1]);
      if (l[0] != -77 || l[nmax+1] != -77) { o.push_back(i/(ndim+1)); o.push_back(-2); }
      if (n < 0) { o.push_back(i/(ndim+1)); o.push_back(-1); }
      for (int j=0;j<n;j++) { o.push_back(i/(ndim+1)); o.push_back(l[1+j]); } }
    D.put("gather", o, 2); }
  else if (c=="ewald") { string q, f; ss >> q >> f; auto d = readf(q); vector<double> o;   // rows m, dr -> periodic correction of acceleration and potential
    for (size_t i=0;i<d.size();i+=ndim+1) { FLOAT dr[3], a[3], p; for (int k=0;k<ndim;k++) dr[k] = d[i+1+k];
      s->ewald->CalculatePeriodicCorrection(d[i], dr, a, p); for (int k=0;k<ndim;k++) o.push_back(a[k]); o.push_back(p); }
    Dump D(f); D.put("ewald", o, ndim+1); D.put("ngrid", vector<double>(s->ewald->Ngrid, s->ewald->Ngrid+3), 1); D.put("di", vector<double>(s->ewald->dI, s->ewald->dI+3), 1); }
  else if (c=="hmaxupd") neibof<ndim>()->GetTree()->UpdateAllHmaxValues(&s->hydro->GetParticlePointer(0));
  else if (c=="activeupd") neibof<ndim>()->UpdateActiveParticleCounters(s->hydro);
  else if (c=="settimestep") ss >> s->timestep;
  else if (c=="diag") { s->CalculateDiagnostics(); }
  else if (c=="recorddiag") { s->RecordDiagnostics(); }
  else if (c=="writesnap") { string f, fm; ss >> f >> fm; cerr << "WRITE " << sim->WriteSnapshotFile(f, fm) << endl; }
  else if (c=="readsnap") { string f, fm; ss >> f >> fm; cerr << "READ " << sim->ReadSnapshotFile(f, fm) << endl; }
  else if (c=="convert") s->ConvertToCodeUnits();
  else if (c=="state") { double t, a, b; int n1, n2, n3; double mm; ss >> t >> a >> b >> n1 >> n2 >> n3 >> mm; s->t = t; s->tsnaplast = a; s->tlitesnaplast = b; s->Noutsnap = n1; s->Noutlitesnap = n2; s->Nsteps = n3; s->hydro->mmean = mm; }
  else if (c=="snapload" || c=="snaplive") { // snapload FILE PREFIX / snaplive PREFIX, then TYPE:NAME:UNIT...
    string fn, pre, w; if (c=="snapload") ss >> fn; ss >> pre;
    SphSnapshotBase* q = SphSnapshotBase::SphSnapshotFactory(fn, sim, ndim);
    double th = q->t;
    if (c=="snapload") q->ReadSnapshot(sim->GetParam("out_file_form")); else q->CopyDataFromSimulation();
    { ofstream o((pre + ".info").c_str()); o << setprecision(17) << th << " " << q->t << " " << q->GetNTypes(); for (int i=0;i<q->GetNTypes();i++) o << " " << q->GetSpecies(i) << " " << q->GetNparticlesType(q->GetSpecies(i)); o << endl; }
    while (ss >> w) { size_t a = w.find(':'), b = w.find(':', a+1); string ty = w.substr(0,a), nm = w.substr(a+1,b-a-1), un = w.substr(b+1);
      SNAPFLOAT* arr; int n; SNAPFLOAT sc; UnitInfo ui = q->ExtractArray(nm, ty, &arr, &n, sc, un);
      ofstream o((pre + "." + ty + "." + nm).c_str(), ios::binary); for (int i=0;i<n;i++) { double x = arr[i]; o.write((char*) &x, 8); } double x = sc; o.write((char*) &x, 8);
      ofstream oi((pre + "." + ty + "." + nm + ".unit").c_str()); oi << ui.name << endl << ui.label << endl; } }
  else if (c=="render") { // render OUT col|slice NX NY X Y Z QUANTITY UNIT XMIN XMAX YMIN YMAX ZSLICE TYPE: values, then the scaling factor and the return code
    string fo, kind, xs, ys, zs, q, un, ty; int nx, ny; double a0, a1, b0, b1, zz; ss >> fo >> kind >> nx >> ny >> xs >> ys >> zs >> q >> un >> a0 >> a1 >> b0 >> b1 >> zz >> ty;
    SphSnapshotBase* snp = SphSnapshotBase::SphSnapshotFactory("", sim, ndim); snp->CopyDataFromSimulation();
    RenderBase* R = RenderBase::RenderFactory(ndim, sim); vector<SNAPFLOAT> v(nx*ny, -99.0); SNAPFLOAT sc = 0; int rc;
    if (kind=="col") rc = R->CreateColumnRenderingGrid(nx, ny, xs, ys, q, un, a0, a1, b0, b1, v.data(), nx*ny, *snp, ty, sc);
    else rc = R->CreateSliceRenderingGrid(nx, ny, xs, ys, zs, q, un, a0, a1, b0, b1, zz, v.data(), nx*ny, *snp, ty, sc);
    vector<double> d(v.begin(), v.end()); d.push_back(sc); d.push_back(rc); ofstream o(fo.c_str(), ios::binary); o.write((char*) d.data(), d.size()*8); }
  else if (c=="readheader") { string f, fm; ss >> f >> fm; HeaderInfo h = sim->ReadHeaderSnapshotFile(f, fm);
    fprintf(stderr, "HEADER %d %d %d %.17g\n", h.ndim, h.Nhydro, h.Nstar, (double) h.t); }
  else if (c=="restartsnap") sim->RestartSnapshot();
  else if (c=="binstats") { // what OutputDiagnostics/analysis would do for binary statistics
    s->nbodytree.CreateNbodySystemTree(s->nbody); s->nbodytree.FindBinarySystems(s->nbody); }
  else if (c=="units") { string fn; ss >> fn; ofstream o(fn.c_str()); o << setprecision(17); SimUnits& u = s->simunits;
    struct { const char* n; SimUnit* q; } Q[] = {{"r",&u.r},{"m",&u.m},{"t",&u.t},{"v",&u.v},{"a",&u.a},{"rho",&u.rho},{"sigma",&u.sigma},{"press",&u.press},{"f",&u.f},{"E",&u.E},{"mom",&u.mom},
      {"angmom",&u.angmom},{"angvel",&u.angvel},{"dmdt",&u.dmdt},{"L",&u.L},{"kappa",&u.kappa},{"B",&u.B},{"Q",&u.Q},{"Jcur",&u.Jcur},{"u",&u.u},{"dudt",&u.dudt},{"temp",&u.temp}};
    double x = 1.7;
    for (auto& q : Q) { SimUnit& z = *q.q; o << q.n << " " << z.inscale << " " << z.inSI << " " << z.outcgs << " " << z.outscale << " " << z.outSI << " "
      << z.Input_to_CodeUnits(x) << " " << z.Output_to_CodeUnits(x) << " " << z.Code_to_InputUnits(x) << " " << z.Code_to_OutputUnits(x) << " " << z.SI_to_CodeUnits(x) << " " << z.CGS_to_CodeUnits(x)
      << " " << z.Code_to_SIUnits(x) << " " << z.Code_to_CGSUnits(x) << " " << z.OutputScale(z.outunit) << " " << z.inunit << "|" << z.outunit << endl; } }
  else if (c=="setupunits") { int rui; string fn; ss >> rui; s->simunits.ReadInputUnits = rui; s->simunits.SetupUnits(params); }
  else if (c=="eos") { // (rho, u, p, r[ndim]) -> P, entropy, cs, T, u, u(P), state vector
    string fi, fo; ss >> fi >> fo; vector<double> d = readf(fi), r; EOS<ndim>* e = s->hydro->eos; e->set_nbody_data(s->nbody);
    for (size_t i=0;i+2+2*ndim<d.size();i+=3+2*ndim) { EosParticleProxy<ndim> p; p.rho = d[i]; p.u = d[i+1]; p.p = d[i+2]; for (int k=0;k<ndim;k++) { p.r[k] = d[i+3+k]; p.v[k] = d[i+3+ndim+k]; }
      r.push_back(e->Pressure(p)); r.push_back(e->EntropicFunction(p)); r.push_back(e->SoundSpeed(p)); r.push_back(e->Temperature(p)); r.push_back(e->SpecificInternalEnergy(p)); r.push_back(e->InternalEnergyFromPressure(p));
      StateVector<ndim> S; e->ConstructStateVector(p, S); r.push_back(S.Wprim.density); r.push_back(S.Wprim.pressure); r.push_back(S.Ucons.density); r.push_back(S.Ucons.energy); r.push_back(S.sound_speed);
      for (int k=0;k<ndim;k++) { r.push_back(S.Wprim.velocity[k]); r.push_back(S.Ucons.momentum[k]); } }
    ofstream o(fo.c_str(), ios::binary); o.write((char*) r.data(), r.size()*8); }
  else if (c=="extpot") { // (r[ndim], v[ndim]) -> a, adot, pot, each added to the given start values
    string fi, fo; double a0; ss >> fi >> fo >> a0; vector<double> d = readf(fi), r;
    for (size_t i=0;i+2*ndim<=d.size();i+=2*ndim) { FLOAT x[ndim], v[ndim], a[ndim], j[ndim], pot = a0; for (int k=0;k<ndim;k++) { x[k] = d[i+k]; v[k] = d[i+ndim+k]; a[k] = j[k] = a0; }
      s->extpot->AddExternalPotential(x, v, a, j, pot);
      for (int k=0;k<ndim;k++) r.push_back(a[k]); for (int k=0;k<ndim;k++) r.push_back(j[k]); r.push_back(pot); }
    ofstream o(fo.c_str(), ios::binary); o.write((char*) r.data(), r.size()*8); }
  else if (c=="rand") { // stream of the simulation's own generator
    int n; string fo, kind; double a, b; ss >> n >> fo >> kind >> a >> b; vector<double> r; for (int i=0;i<n;i++) r.push_back(kind=="float" ? s->randnumb->floatrand() : kind=="double" ? s->randnumb->doublerand() : kind=="int" ? (double) s->randnumb->intrand() : kind=="long" ? (double) s->randnumb->longintrand() : s->randnumb->gaussrand(a, b));
    ofstream o(fo.c_str(), ios::binary); o.write((char*) r.data(), r.size()*8); }
  else if (c=="xrand") { // stream of a generator of a given 64-bit seed
    unsigned long sd; int n; string fo, kind; double a, b; ss >> sd >> n >> fo >> kind >> a >> b; XorshiftRand g(sd); vector<double> r; vector<long> q;
    for (int i=0;i<n;i++) { if (kind=="long") q.push_back(g.longintrand()); else if (kind=="int") q.push_back(g.intrand()); else r.push_back(kind=="float" ? g.floatrand() : kind=="double" ? g.doublerand() : g.gaussrand(a, b)); }
    ofstream o(fo.c_str(), ios::binary); if (q.size()) o.write((char*) q.data(), q.size()*8); else o.write((char*) r.data(), r.size()*8); }
  else { cerr << "HARNESS unknown command " << c << endl; _exit(93); }
}

int main(int argc, char** argv) {
  ExceptionHandler::makeExceptionHandler(cplusplus);
  ifstream f(argv[1]); string line; vector<string> lines;
  while (getline(f, line)) lines.push_back(line);
  for (auto& l : lines) run_line(l);
  cout.flush(); cerr << "DONE" << endl;
  _exit(0);
}
