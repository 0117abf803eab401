// Level densities and photon strengths of a nucleus set up as the event generator sets it up.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include "cgmfEvents.h"
#include "rngcgm.h"
#include "cgm.h"
#include "global.h"
#include "config.h"
#include "kcksyst.h"
#include "ripl2levels.h"
using namespace std;
static UniformRNG base_rng(1);
static double plain() { return base_rng(); }
static FILE *out;
static Pdata pd[MAX_CHANNEL];
static int setup(int z, int a, double u) {
  ncl[0].za.setZA(z, a);
  ncl[0].max_energy = u;
  int ne = statTotalNeutrons(u, &ncl[0].za);
  statSetupInitSystem(ne, pd);
  getDiscreteLevels(ncl, ne);
  for (int i = 0; i <= ne; i++) { statSetupEnergyBin(&ncl[i]); statSetupLevelDensityParameter(&ncl[i], &ncl[i].ldp); }
  return ne;
}
int main() {
  out = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 2;
  string line;
  set_rng(plain);
  cgmfEvent *keep = 0;
  while (getline(cin, line)) {
    istringstream is(line);
    string c;
    is >> c;
    if (c == "data") { string p; is >> p; setdatapath(p); base_rng.set_seed(1); keep = new cgmfEvent(98252, 0.0, 0.0, -1.0); fprintf(out, "OK\n"); }
    else if (c == "nuc") {       // nuc Z A U i : i-th nucleus of the neutron chain
      int z, a, i; double u;
      is >> z >> a >> u >> i;
      int ne = setup(z, a, u);
      if (i > ne) i = ne;
      Nucleus &n = ncl[i]; LevelDensity &l = n.ldp;
      fprintf(out, "NU %d %d %d %d %.17g %.17g", ne, (int)n.za.getZ(), (int)n.za.getA(), n.ndisc, n.lev[n.ndisc - 1].energy, (double)halfint(n.lev[0].spin));
      fprintf(out, " %.17g %.17g %.17g %.17g %.17g %.17g %.17g", l.pairing_energy, l.shell_correct, l.match_energy, l.a, l.temperature, l.E0, l.sigma0);
      fprintf(out, " %d", n.ncont);
      string s;
      while (is >> s) {
        double e = strtod(s.c_str(), 0);
        double r = ldLevelDensity(e, n.za.getA(), &l), ap = ldDensityParameter(e, n.za.getA(), &l);
        fprintf(out, " %.17g %.17g %.17g", r, ap, l.spin_cutoff);
      }
      fprintf(out, "\n");
    } else if (c == "dens") {    // stored densities per bin: excitation, even/odd over spins
      int z, a, i; double u;
      is >> z >> a >> u >> i;
      int ne = setup(z, a, u);
      if (i > ne) i = ne;
      Nucleus &n = ncl[i];
      fprintf(out, "DE %d %d", n.ncont, MAX_J);
      int st = n.ncont / 6 + 1;
      for (int k = 0; k < n.ncont; k += st) {
        fprintf(out, " %.17g %.17g", n.excitation[k], n.binwidth[k]);
        for (int j = 0; j < MAX_J; j++) fprintf(out, " %.17g %.17g", n.density[k][j].even, n.density[k][j].odd);
      }
      fprintf(out, "\n");
    } else if (c == "sd") {      // sd half sc sc0 : spin distribution and parity shares
      double h, s1, s0;
      is >> h >> s1 >> s0;
      fprintf(out, "SD %.17g %.17g", ldParityDistribution(1), ldParityDistribution(-1));
      for (int j = 0; j < MAX_J; j++) fprintf(out, " %.17g", ldSpinDistribution(j + h, s1, s0));
      fprintf(out, "\n");
    } else if (c == "gam") {     // gam Z A a beta  (kind eg a ex)...
      int z, a; double la, be;
      is >> z >> a >> la >> be;
      GDR g[MAX_GDR];
      ncl[0].za.setZA(z, a);
      statSetupGdrParameter(&ncl[0], la, g, be);
      fprintf(out, "GA");
      string s;
      while (is >> s) {
        double e, p, x; is >> e >> p >> x;
        double t = s == "E1" ? gdrGammaTransmission(GL, E1_MULTIPOL, e, E1, p, x)
                 : s == "M1" ? gdrGammaTransmission(SL, M1_MULTIPOL, e, M1, 0.0, 0.0)
                             : gdrGammaTransmission(SL, E2_MULTIPOL, e, E2, 0.0, 0.0);
        fprintf(out, " %.17g", t);
      }
      fprintf(out, "\n");
    } else if (c == "tg") {      // tg Z A U : transmissions stored for the decay of the top state, per bin
      int z, a; double u;
      is >> z >> a >> u;
      setup(z, a, u);
      GDR g[MAX_GDR];
      statSetupGdrParameter(&ncl[0], ncl[0].ldp.a, g, 0.0);
      vector<double> b[3]; double *tg[MAX_MULTIPOL];
      for (int i = 0; i < 3; i++) { b[i].assign(MAX_ENERGY_BIN, 0.0); tg[i] = b[i].data(); }
      statStoreGammaTransmission(0, tg, &ncl[0]);
      fprintf(out, "TG %d %.17g", ncl[0].ncont, ncl[0].ldp.a);
      int st = ncl[0].ncont / 12 + 1;
      for (int k = 1; k < ncl[0].ncont; k += st) fprintf(out, " %.17g %.17g %.17g %.17g", ncl[0].excitation[0] - ncl[0].excitation[k], tg[E1][k], tg[M1][k], tg[E2][k]);
      fprintf(out, "\n");
    } else if (c == "quit") break;
    else fprintf(out, "ERR\n");
    fflush(out);
  }
  (void)keep;
  _exit(0);
}
