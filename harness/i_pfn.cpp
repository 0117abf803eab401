// Spectra of the neutrons emitted before fission, as the event generator computes them.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include "cgmfEvents.h"
#include "rngcgm.h"
#include "cgm.h"
#include "global.h"
#include "config.h"
#include "kcksyst.h"
#include "ripl2levels.h"
#include "excinterface.h"
#include "evapinterface.h"
using namespace std;
static UniformRNG base_rng(1);
static double plain() { return base_rng(); }
static FILE *out;
static Pdata pd[MAX_CHANNEL];
static Transmission *tc;
int main() {
  out = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 2;
  string line;
  set_rng(plain);
  cgmfEvent *keep = 0;
  while (getline(cin, line)) {
    istringstream is(line);
    string c;
    is >> c;
    if (c == "data") { string p; is >> p; setdatapath(p); base_rng.set_seed(1); keep = new cgmfEvent(98252, 0.0, 0.0, -1.0);
      tc = new Transmission[MAX_ENERGY_BIN];      // sizes are set while the event generator starts
      for (int k = 0; k < MAX_ENERGY_BIN; k++) tc[k].tran = new double[3 * MAX_J];
      fprintf(out, "OK\n"); }
    else if (c == "exc") {        // exc Ztarget Atarget E
      int z, a; double e;
      is >> z >> a >> e;
      vector<double> b[MAX_CHANNEL]; double *spc[MAX_CHANNEL];
      for (int j = 0; j < MAX_CHANNEL; j++) { b[j].assign(MAX_ENERGY_BIN, 0.0); spc[j] = b[j].data(); }
      excitonInterface(z, a, e, spc);
      int n = 0;
      for (int k = 0; k < MAX_ENERGY_BIN; k++) if (spc[neutron][k] != 0.0) n = k + 1;
      fprintf(out, "EX %d", n);
      for (int k = 0; k < n; k++) fprintf(out, " %.17g", spc[neutron][k]);
      fprintf(out, "\n");
    } else if (c == "evap") {     // evap Zcompound Acompound U c0 k0
      int z, a, c0, k0; double u;
      is >> z >> a >> u >> c0 >> k0;
      ncl[0].za.setZA(z, a);
      ncl[0].max_energy = u;
      int ne = statTotalNeutrons(u, &ncl[0].za);
      statSetupInitSystem(ne, pd);
      getRiplDiscreteLevels(ncl, ne);
      for (int i = 0; i <= ne; i++) {
        statFixDiscreteLevels(&ncl[i]);
        statSetupEnergyBin(&ncl[i]);
        statSetupLevelDensityParameter(&ncl[i], &ncl[i].ldp);
        statClearPopulation(&ncl[i]);
      }
      if (c0 >= ne) { fprintf(out, "EV -1\n"); fflush(out); continue; }
      vector<double> sp(MAX_ENERGY_BIN, 0.0);
      evapInterface(pd + neutron, tc, c0, k0, sp.data());
      int n = ncl[c0 + 1].ntotal;
      fprintf(out, "EV %d", n);
      for (int k = 0; k < n; k++) fprintf(out, " %.17g %.17g", tc[k].ecms, sp[k]);
      fprintf(out, "\n");
    } else if (c == "quit") break;
    else fprintf(out, "ERR\n");
    fflush(out);
  }
  (void)keep;
  _exit(0);
}
