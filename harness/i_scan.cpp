// Scission fragments of many seeds, without their decay: used only to choose seeds whose events are out of the ordinary.
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <unistd.h>
#include "cgmfEvents.h"
#include "config-ff.h"
#include "FissionFragments.h"
#include "rngcgm.h"
using namespace std;
int main() {
  FILE *out = fdopen(dup(1), "w");
  dup2(2, 1);
  string line;
  bool first = true;
  UniformRNG rng(1);
  while (getline(cin, line)) {
    istringstream is(line);
    string cmd; is >> cmd;
    if (cmd == "data") { string p; is >> p; setdatapath(p); fprintf(out, "OK\n"); }
    else if (cmd == "scan") {
      int iso, s0, n; double e; is >> iso >> e >> s0 >> n;
      if (first) { rng.set_seed(1); set_rng(rng); new cgmfEvent(iso, e, 0.0, -1.0); first = false; }
      static fissionFragmentType *l, *h; static int cur, first_seed; static UniformRNG r(1);
      l = new fissionFragmentType[n](); h = new fissionFragmentType[n]();
      for (int i = 0; i < n; i++) l[i].U = h[i].U = 0.0;
      FissionFragments *ff = new FissionFragments(iso, e, 0.0);
      cur = 0; first_seed = s0; r.set_seed(s0);
      // the first number drawn after a pair is complete starts the stream of the next seed, as a new event would
      double (*f)() = []() -> double { if (l[cur].U != 0.0 && h[cur].U != 0.0) r.set_seed(first_seed + ++cur); return r(); };
      set_rng(f);
      ff->generateInitialFissionFragmentHistories(l, h, n);
      for (int i = 0; i < n; i++)
        fprintf(out, "%d %d %d %.4f %.1f %.3f %d %d %.4f %.1f;", s0 + i, l[i].Z, l[i].A, l[i].U, l[i].spin, l[i].KE + h[i].KE, h[i].Z, h[i].A, h[i].U, h[i].spin);
      delete ff; delete[] l; delete[] h;
      fprintf(out, "\n");
    }
    fflush(out);
  }
}
