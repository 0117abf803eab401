// Optical-model driver: "om Z A E..." -> per energy: lmax, reaction, then T(l,+), T(l,-) for l=0..lmax
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include "cgmfEvents.h"
#include "rngcgm.h"
#include "cgm.h"
#include "masstable.h"
#include "physics.h"
#include "global.h"
#include "config.h"
#include "kcksyst.h"
#include "ripl2levels.h"
using namespace std;
static UniformRNG base_rng(1);
static double plain() { return base_rng(); }
int main() {
  FILE *out = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 2;
  string line;
  set_rng(plain);
  cgmfEvent *keep = 0;
  while (getline(cin, line)) {
    istringstream is(line);
    string c;
    is >> c;
    if (c == "data") { string p; is >> p; setdatapath(p); base_rng.set_seed(1); keep = new cgmfEvent(98252, 0.0, 0.0, -1.0); fprintf(out, "OK\n"); }
    else if (c == "om") {
      int z, a;
      is >> z >> a;
      Pdata p;
      p.particle.setZA(0, 1); p.particleID = neutron; p.omp = 6 << 8; p.spin = 0.5; p.mass = NEUTRONMASS; p.mass_excess = ENEUTRON;
      ZAnumber t(z, a);
      double m = a + mass_excess(z, a) / AMUNIT, mu = m * NEUTRONMASS / (m + NEUTRONMASS);
      fprintf(out, "OM %.17g", mu);
      string s;
      while (is >> s) {
        vector<double> tr(3 * MAX_J + 64, -7.0);
        CrossSection cx;
        int l = omCalc(strtod(s.c_str(), 0), &p, &t, mu, tr.data(), &cx);
        fprintf(out, " %d %.17g", l, cx.reaction);
        for (int i = 0; i < 50; i++) fprintf(out, " %.17g %.17g", tr[3 * i], tr[3 * i + 1]);
      }
      fprintf(out, "\n");
    } else if (c == "st") {      // st Z A U : coefficients stored for neutron emission from the top state (bins, levels)
      int z, a; double u;
      is >> z >> a >> u;
      Pdata pd[MAX_CHANNEL];
      ncl[0].za.setZA(z, a);
      ncl[0].max_energy = u;
      int ne = statTotalNeutrons(u, &ncl[0].za);
      statSetupInitSystem(ne, pd);
      getDiscreteLevels(ncl, ne);
      for (int i = 0; i <= ne; i++) { statSetupEnergyBin(&ncl[i]); statSetupLevelDensityParameter(&ncl[i], &ncl[i].ldp); }
      if (!ncl[0].cdt[neutron].status) { fprintf(out, "ST closed\n"); fflush(out); continue; }
      Nucleus &d = ncl[ncl[0].cdt[neutron].next];
      double mu = d.mass * NEUTRONMASS / (d.mass + NEUTRONMASS), S = mass_excess(z, a - 1) + ENEUTRON - mass_excess(z, a);
      vector<Transmission> tc(MAX_ENERGY_BIN), td(MAX_LEVELS);
      for (auto &t : tc) { t.tran = new double[3 * MAX_J + 64](); }
      for (auto &t : td) { t.tran = new double[3 * MAX_J + 64](); }
      statStoreContinuumTransmission(0, 0, &pd[neutron], tc.data());
      statStoreDiscreteTransmission(0, 0, &pd[neutron], td.data());
      fprintf(out, "ST %.17g", mu);
      for (int q = 0; q < 2; q++) {
        int n = q ? d.ndisc : d.ntotal - 1, step = n / 8 + 1;
        for (int k = 0; k < n; k += step) {
          Transmission &t = q ? td[k] : tc[k];
          double e = u - S - (q ? d.lev[k].energy : d.excitation[k]);
          fprintf(out, " %d %.17g %.17g %d", q, e, t.ecms, e < 0 ? 0 : t.lmax);
          for (int i = 0; i < 30; i++) fprintf(out, " %.17g %.17g", t.tran[3 * i], t.tran[3 * i + 1]);
        }
      }
      fprintf(out, "\n");
      for (auto &t : tc) delete[] t.tran;
      for (auto &t : td) delete[] t.tran;
    } else if (c == "quit") break;
    else fprintf(out, "ERR\n");
    fflush(out);
  }
  (void)keep;
  _exit(0);
}
