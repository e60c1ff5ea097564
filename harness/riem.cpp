// riem <in> <out>: Riemann solvers.  in (f64): ndim, solver (0 exact, 1 hllc, 2 hllc isothermal), zmf, gamma, n, then per problem Wl[nd+2], Wr[nd+2], n[nd], vface[nd]
// out per problem: flux . n (nd+2), vface after (nd), pstar, ustar, then the exact solver's samples at 5 given speeds
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <unistd.h>
#include "RiemannSolver.h"
using namespace std;
template <int nd> static void go(double* p, FILE* o) {
  int solver = (int) *p++; bool zmf = *p++ != 0; double gamma = *p++; int n = (int) *p++;
  ExactRiemannSolver<nd> E(gamma, zmf); HllcRiemannSolver<nd> H(gamma, zmf, solver==2);
  for (int i=0;i<n;i++) {
    FLOAT Wl[nd+2], Wr[nd+2], nn[nd], vf[nd], fl[nd+2][nd], s[5];
    for (auto& x : fl) for (auto& y : x) y = 0;
    for (auto& x : Wl) x = *p++; for (auto& x : Wr) x = *p++; for (auto& x : nn) x = *p++; for (auto& x : vf) x = *p++; for (auto& x : s) x = *p++;
    vector<double> r;
    FLOAT ps = -1, us = 0, ul = 0, ur = 0, cl = sqrt(gamma*Wl[nd+1]/Wl[nd]), cr = sqrt(gamma*Wr[nd+1]/Wr[nd]);
    for (int k=0;k<nd;k++) { ul += Wl[k]*nn[k]; ur += Wr[k]*nn[k]; }
    if (solver==0) { E.ComputeStarRegion(Wl[nd+1], Wr[nd+1], Wl[nd], Wr[nd], cl, cr, ul, ur, ps, us); E.ComputeFluxes(Wl, Wr, nn, vf, fl); }
    else H.ComputeFluxes(Wl, Wr, nn, vf, fl);
    for (int v=0;v<nd+2;v++) { double x = 0; for (int k=0;k<nd;k++) x += fl[v][k]*nn[k]; r.push_back(x); }
    for (int k=0;k<nd;k++) r.push_back(vf[k]);
    r.push_back(ps); r.push_back(us);
    for (int k=0;k<5;k++) { FLOAT P = 0, D = 0, U = 0; if (solver==0) E.SampleExactSolution(ps, us, s[k], Wl[nd+1], Wr[nd+1], Wl[nd], Wr[nd], cl, cr, ul, ur, P, D, U); r.push_back(P); r.push_back(D); r.push_back(U); }
    fwrite(r.data(), 8, r.size(), o);
  }
}
int main(int argc, char** argv) {
  ExceptionHandler::makeExceptionHandler(cplusplus);
  FILE* f = fopen(argv[1], "rb"); vector<double> d; double x; while (fread(&x,8,1,f)==1) d.push_back(x); fclose(f);
  FILE* o = fopen(argv[2], "wb"); int nd = (int) d[0];
  if (nd==1) go<1>(&d[1],o); else if (nd==2) go<2>(&d[1],o); else go<3>(&d[1],o);
  fclose(o); fprintf(stderr, "DONE\n"); fflush(0); _exit(0);
}
