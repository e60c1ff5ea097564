// mpole <in.f64> <out.f64>: gravity multipole functions.
// in: ndim, ncell, per cell (r[nd], m, q[5]), rc[nd], npts, pts.   out per point: mono, quad, fastmono, fastquad (pot, a[nd])
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <unistd.h>
#include "NeighbourSearch.h"
using namespace std;
template <int nd> static void go(double* p, FILE* o) {
  int nc = (int) *p++;
  vector<MultipoleMoment<nd> > c(nc);
  for (int i=0;i<nc;i++) { for (int k=0;k<nd;k++) c[i].r[k] = *p++; c[i].m = *p++; for (int k=0;k<5;k++) c[i].q[k] = *p++; }
  FLOAT rc[nd]; for (int k=0;k<nd;k++) rc[k] = *p++;
  int np = (int) *p++;
  FastMultipoleForces<nd> f1(rc), f2(rc);
  for (int i=0;i<nc;i++) { f1.AddMonopoleContribution(c[i]); f2.AddQuadrupoleContribution(c[i]); }
  for (int i=0;i<np;i++) {
    FLOAT r[nd]; for (int k=0;k<nd;k++) r[k] = *p++;
    for (int m=0;m<4;m++) {
      FLOAT a[nd], pot = 0; for (int k=0;k<nd;k++) a[k] = 0;
      if (m==0) ComputeCellMonopoleForces<nd>(pot, a, r, nc, c.data());
      if (m==1) ComputeCellQuadrupoleForces<nd>(pot, a, r, nc, c.data());
      if (m==2) f1.ApplyForcesTaylor(r, a, pot);
      if (m==3) f2.ApplyForcesTaylor(r, a, pot);
      double v[4] = {pot, a[0], nd>1 ? a[nd>1?1:0] : 0, nd>2 ? a[nd>2?2:0] : 0};
      fwrite(v, 8, 1+nd, o);
    }
  }
}
int main(int argc, char** argv) {
  ExceptionHandler::makeExceptionHandler(cplusplus);
  FILE* f = fopen(argv[1], "rb"); vector<double> d; double x; while (fread(&x,8,1,f)==1) d.push_back(x); fclose(f);
  FILE* o = fopen(argv[2], "wb");
  int nd = (int) d[0];
  if (nd==1) go<1>(&d[1],o); else if (nd==2) go<2>(&d[1],o); else go<3>(&d[1],o);
  fclose(o); fprintf(stderr, "DONE\n"); fflush(0); _exit(0);
}
