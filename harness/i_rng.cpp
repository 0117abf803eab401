// Random generators under histories of operations, through the public headers only.
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include "cgmfEvents.h"
#include "rngcgm.h"
#include "cgmfEvents_capi.h"
using namespace std;
static UniformRNG fn_gen(1);
static double fn() { return fn_gen(); }
int main() {
  FILE *out = fdopen(dup(1), "w");
  dup2(2, 1);
  map<int, shared_ptr<UniformRNG>> g;
  string line;
  while (getline(cin, line)) {
    istringstream is(line);
    string cmd; is >> cmd;
    if (cmd == "data") { fprintf(out, "OK\n"); fflush(out); continue; }
    fprintf(out, "R");
    while (true) {                       // several operations on one line
      int k = 0, s = 0, n = 0;
      if (cmd == "new") { is >> k >> s; g[k] = make_shared<UniformRNG>(s); }
      else if (cmd == "seed") { is >> k >> s; g.at(k)->set_seed(s); }
      else if (cmd == "copy") { is >> k >> s; g[k] = make_shared<UniformRNG>(*g.at(s)); }
      else if (cmd == "draw") { is >> k >> n; for (int i = 0; i < n; i++) fprintf(out, " %.17g", (*g.at(k))()); }
      else if (cmd == "skip") { is >> k >> n; double x = 0; for (int i = 0; i < n; i++) x += (*g.at(k))(); if (x < 0) fprintf(out, "?"); }
      else if (cmd == "use") { is >> k; set_rng(*g.at(k)); }
      else if (cmd == "useref") { is >> k; auto p = g.at(k); set_rng(std::function<double(void)>([p]() { return (*p)(); })); }
      else if (cmd == "usefn") { is >> k >> s; fn_gen.set_seed(s); if (k) setrngdptr(fn); else set_rng(fn); }
      else if (cmd == "lib") { is >> n; for (int i = 0; i < n; i++) fprintf(out, " %.17g", rng_cgm()); }
      else if (cmd == "heads") {         // the first numbers of consecutive seeds
        int m; is >> s >> n >> m; UniformRNG r(1);
        for (int i = 0; i < n; i++) { r.set_seed(s + i); for (int j = 0; j < m; j++) fprintf(out, " %.17g", r()); }
      }
      if (!(is >> cmd)) break;
    }
    fprintf(out, "\n"); fflush(out);
  }
}
