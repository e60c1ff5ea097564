// kern <kernel> <ndim> <res> <file of s values (f64)> <out>: all kernel functions, analytic then tabulated
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unistd.h>
#include "SmoothingKernel.h"
using namespace std;
template <int ndim> static void go(const string& name, int res, const vector<double>& s, FILE* o) {
  SmoothingKernel<ndim>* k = SmoothingKernel<ndim>::KernelFactory(name);
  TabulatedKernel<ndim> t0(name, res);
  TabulatedKernel<ndim> t(t0);      // the copy is what simulations use
  vector<double> d;
  d.push_back(k->kernrange); d.push_back(k->invkernrange); d.push_back(k->kernrangesqd); d.push_back(k->kernnorm);
  d.push_back(t.kernrange); d.push_back(t.invkernrange); d.push_back(t.kernrangesqd); d.push_back(t.kernnorm);
  for (double x : s) {
    SmoothingKernel<ndim>* q[2] = {k, &t};
    for (int i=0;i<2;i++) {
      d.push_back(q[i]->w0(x)); d.push_back(q[i]->w1(x)); d.push_back(q[i]->womega(x)); d.push_back(q[i]->wzeta(x));
      d.push_back(q[i]->wgrav(x)); d.push_back(q[i]->wpot(x)); d.push_back(q[i]->wdrag(x));
      d.push_back(q[i]->w0_s2(x*x)); d.push_back(q[i]->womega_s2(x*x)); d.push_back(q[i]->wzeta_s2(x*x));
      d.push_back(i==1 ? t.wLOS(x) : 0.0);
    }
  }
  fwrite(d.data(), 8, d.size(), o);
}
int main(int argc, char** argv) {
  ExceptionHandler::makeExceptionHandler(cplusplus);
  string name = argv[1]; int nd = atoi(argv[2]), res = atoi(argv[3]);
  FILE* f = fopen(argv[4], "rb"); vector<double> s; double x; while (fread(&x, 8, 1, f)==1) s.push_back(x); fclose(f);
  FILE* o = fopen(argv[5], "wb");
  if (nd==1) go<1>(name, res, s, o); else if (nd==2) go<2>(name, res, s, o); else go<3>(name, res, s, o);
  fclose(o); fprintf(stderr, "DONE\n"); fflush(0); _exit(0);
}
