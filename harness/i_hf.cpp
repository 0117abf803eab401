// Statistical decay of one nuclear state: what the library computes (spectraBinary, specMCMainFission)
// against the sum over neutron and photon channels written out here.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include "cgmfEvents.h"
#include "rngcgm.h"
#include "cgm.h"
#include "global.h"
#include "config.h"
#include "config-ff.h"
#include "kcksyst.h"
#include "ripl2levels.h"
#include "masstable.h"
#include "physics.h"
using namespace std;

static UniformRNG base_rng(1);
static double plain() { return base_rng(); }
static FILE *out;
static Pdata pd[MAX_CHANNEL];

static int setup(int z, int a, double u) {
  ncl[0].za.setZA(z, a);
  ncl[0].max_energy = u;
  int ne = statTotalNeutrons(u, &ncl[0].za);
  statSetupInitSystem(ne, pd);
  getDiscreteLevels(ncl, ne);
  for (int i = 0; i <= ne; i++) { statSetupEnergyBin(&ncl[i]); statSetupLevelDensityParameter(&ncl[i], &ncl[i].ldp); }
  GDR g[MAX_GDR];
  statSetupGdrParameter(&ncl[0], ncl[0].ldp.a, g, 0.0);
  return ne;
}

// top state (E, 2J, P) of nucleus c: bins below it, densities, unit population, decay
static bool decay1(int c, double e, int idx, int p) {
  Nucleus &n = ncl[c];
  n.max_energy = e;
  statSetupEnergyBin(&n);
  statSetupLevelDensity(&n, &n.ldp);
  bool open = n.cdt[neutron].status;
  if (open) {
    Nucleus &d = ncl[n.cdt[neutron].next];
    d.max_energy = e - n.cdt[neutron].binding_energy;
    statSetupEnergyBin(&d);
    statSetupLevelDensity(&d, &d.ldp);
  }
  if (p > 0) n.pop[0][idx].even = 1.0; else n.pop[0][idx].odd = 1.0;
  spectraBinary(c, pd, spc);
  return open;
}

static double share(Nucleus &n, double ex, double J2) {     // levels per MeV of one spin and one parity
  LevelDensity l = n.ldp;
  double r = ldLevelDensity(ex, n.za.getA(), &l);
  return 0.5 * r * ldSpinDistribution(J2 / 2.0, l.spin_cutoff, l.sigma0);
}

struct Cell { double even, odd; };
struct Expect {
  vector<vector<Cell> > c0, c1;      // [bin][spin index]
  vector<double> l0, l1;
  double tg, tn;
};

static bool tri(int a, int b, int c) { return c >= abs(a - b) && c <= a + b && (a + b + c) % 2 == 0; }

static void expect(int c, int J2, int P, Expect &x) {
  Nucleus &n = ncl[c];
  int h0 = n.za.getA() % 2;
  double E = n.excitation[0];
  x.c0.assign(n.ncont, vector<Cell>(MAX_J, Cell{0, 0}));
  x.l0.assign(n.ndisc, 0.0);
  x.c1.clear(); x.l1.clear();
  x.tg = x.tn = 0.0;
  double sn = n.cdt[neutron].binding_energy;
  if (sn == 0.0) sn = mass_excess(n.za.getZ(), n.za.getA() - 1) - n.mass_excess + ENEUTRON;
  int Pp[3] = {-P, P, P}, L2[3] = {2, 2, 4};
  for (int k = 1; k < n.ncont; k++) {
    double eg = E - n.excitation[k], ex = eg <= sn ? sn - eg : 0.0;
    double t[3] = {gdrGammaTransmission(GL, E1_MULTIPOL, eg, E1, n.ldp.a, ex), gdrGammaTransmission(SL, M1_MULTIPOL, eg, M1, 0, 0),
                   gdrGammaTransmission(SL, E2_MULTIPOL, eg, E2, 0, 0)};
    for (int i = 0; i < MAX_J; i++) {
      int j2 = 2 * i + h0;
      double w = -1;
      for (int m = 0; m < 3; m++) {
        if (!tri(J2, L2[m], j2) || (J2 == 0 && j2 == 0)) continue;
        if (w < 0) w = share(n, n.excitation[k], j2) * n.binwidth[k];
        double y = t[m] * w;
        (Pp[m] > 0 ? x.c0[k][i].even : x.c0[k][i].odd) += y;
        x.tg += y;
      }
    }
  }
  for (int i = 0; i < n.ndisc; i++) {
    double eg = E - n.lev[i].energy, a = ldDensityParameter(n.lev[i].energy, n.za.getA(), &n.ldp);
    double t[3] = {gdrGammaTransmission(GL, E1_MULTIPOL, eg, E1, a, n.lev[i].energy), gdrGammaTransmission(SL, M1_MULTIPOL, eg, M1, 0, 0),
                   gdrGammaTransmission(SL, E2_MULTIPOL, eg, E2, 0, 0)};
    int j2 = (int)(2 * n.lev[i].spin + 0.5);
    for (int m = 0; m < 3; m++)
      if (tri(J2, L2[m], j2) && !(J2 == 0 && j2 == 0) && n.lev[i].parity == Pp[m]) { x.l0[i] += t[m]; x.tg += t[m]; }
  }
  if (!n.cdt[neutron].status || E < n.cdt[neutron].binding_energy) return;
  Nucleus &d = ncl[n.cdt[neutron].next];
  int h1 = d.za.getA() % 2;
  double mu = d.mass * NEUTRONMASS / (d.mass + NEUTRONMASS), S = n.cdt[neutron].binding_energy;
  x.c1.assign(d.ncont, vector<Cell>(MAX_J, Cell{0, 0}));
  x.l1.assign(d.ndisc, 0.0);
  vector<double> t(3 * MAX_J + 64);
  vector<double> w(MAX_J);
  for (int k = 0; k < d.ncont; k++) {
    double e = E - d.excitation[k] - S;
    if (e < 0) continue;
    CrossSection cx;
    int lm = omCalc(e, &pd[neutron], &d.za, mu, t.data(), &cx);
    if (lm <= 0) continue;
    for (int i = 0; i < MAX_J; i++) w[i] = share(d, d.excitation[k], 2 * i + h1) * d.binwidth[k];
    for (int l = 0; l <= lm; l++) for (int s = 0; s < 2; s++) {
      int jn2 = 2 * l + (s ? -1 : 1);
      if (jn2 < 0) continue;
      int pf = l % 2 ? -P : P;
      for (int j2 = abs(J2 - jn2); j2 <= min(J2 + jn2, 2 * (MAX_J - 1)); j2 += 2) {
        int i = (j2 - h1) / 2;
        double y = t[3 * l + s] * w[i];
        (pf > 0 ? x.c1[k][i].even : x.c1[k][i].odd) += y;
        x.tn += y;
      }
    }
  }
  for (int k = 0; k < d.ndisc; k++) {
    double e = E - d.lev[k].energy - S;
    if (e < 0) continue;
    CrossSection cx;
    int lm = omCalc(e, &pd[neutron], &d.za, mu, t.data(), &cx);
    if (lm <= 0) continue;
    int j2 = (int)(2 * d.lev[k].spin + 0.5);
    for (int l = 0; l <= lm; l++) for (int s = 0; s < 2; s++) {
      int jn2 = 2 * l + (s ? -1 : 1);
      if (jn2 < 0 || (l % 2 ? -P : P) != d.lev[k].parity || !tri(J2, jn2, j2)) continue;
      x.l1[k] += t[3 * l + s];
      x.tn += t[3 * l + s];
    }
  }
}

// one cascade by the same decay widths, sampled here; photon and neutron energies, entry level
struct Hist { vector<double> g, n; int steps; bool forced; };
static Hist cascade(double U, int idx, int P, int ne) {
  Hist h; h.steps = 0; h.forced = false;
  int c = 0; double E = U;
  (void)ne;
  while (true) {
    bool open = decay1(c, E, idx, P);
    h.steps++;
    Nucleus &n = ncl[c];
    double r = rng_cgm(), s = 0;
    int nc = -1, nk = 0, nj = 0, np = 0; bool disc = false;
    for (int q = 0; q < (open ? 2 : 1) && nc < 0; q++) {
      int cc = q ? n.cdt[neutron].next : c;
      Nucleus &m = ncl[cc];
      for (int k = q ? 0 : 1; k < m.ncont && nc < 0; k++)
        for (int j = 0; j < MAX_J && nc < 0; j++) {
          if ((s += m.pop[k][j].even) >= r) { nc = cc; nk = k; nj = j; np = 1; }
          else if ((s += m.pop[k][j].odd) >= r) { nc = cc; nk = k; nj = j; np = -1; }
        }
      for (int k = 0; k < m.ndisc && nc < 0; k++) if ((s += m.lpop[k]) >= r) { nc = cc; nk = k; disc = true; }
    }
    double e1 = 0;
    bool force = false;
    if (nc < 0) { nc = c; force = true; }
    else if (!disc) {
      Nucleus &m = ncl[nc];
      double top = m.lev[m.ndisc - 1].energy;
      double hi = nk == 0 ? m.excitation[0] : 0.5 * (m.excitation[nk - 1] + m.excitation[nk]);
      double lo = max(0.5 * (m.excitation[nk + 1] + m.excitation[nk]), top);
      e1 = lo + (hi - lo) * rng_cgm();
      if (nc == c && e1 < top + CONTINUUM_LOWER_CUT) force = true;
    }
    if (force) {                 // nothing allowed, or no room left above the levels: one random E1 level, else closest spin
      h.forced = true;
      double best = -1; nk = -1;
      for (int i = 0; i < n.ndisc; i++) {
        if (n.lev[i].parity * P > 0) continue;
        if (fabs(n.lev[i].spin - idx) < 2 && n.lev[i].spin + idx >= 1) { double y = rng_cgm(); if (y > best) { best = y; nk = i; } }
      }
      if (nk < 0) { double dj = 100; for (int i = 0; i < n.ndisc; i++) if (fabs(n.lev[i].spin - idx) < dj) { dj = fabs(n.lev[i].spin - idx); nk = i; } }
      disc = true;
    }
    if (disc) e1 = ncl[nc].lev[nk].energy;
    if (nc == c) h.g.push_back(E - e1); else h.n.push_back(E - e1 - n.cdt[neutron].binding_energy);
    c = nc; E = e1; idx = nj; P = np;
    if (disc) {                  // levels of these schemes decay straight to the ground state without conversion
      if (nk > 0) h.g.push_back(E);
      return h;
    }
  }
}

int main() {
  out = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 2;
  string line;
  set_rng(plain);
  cgmfEvent *keep = 0;
  while (getline(cin, line)) {
    istringstream is(line);
    string cmd;
    is >> cmd;
    if (cmd == "data") { string p; is >> p; setdatapath(p); base_rng.set_seed(1); keep = new cgmfEvent(98252, 0.0, 0.0, -1.0); fprintf(out, "OK\n"); }
    else if (cmd == "hf") {      // hf Z A U c E idx P : decay of state (E, idx, P) in the c-th nucleus of the chain
      int z, a, c, idx, p; double u, e;
      is >> z >> a >> u >> c >> e >> idx >> p;
      int ne = setup(z, a, u);
      if (c > ne) c = ne;
      if (c > 0) e = min(e, ncl[c].max_energy);
      base_rng.set_seed(7);
      ncl[c].max_energy = e;
      statSetupEnergyBin(&ncl[c]);
      if (ncl[c].ncont == 0) { fprintf(out, "HF discrete\n"); fflush(out); continue; }
      decay1(c, e, idx, p);
      Nucleus &n = ncl[c];
      bool open = n.cdt[neutron].status && n.excitation[0] >= n.cdt[neutron].binding_energy;
      Expect x;
      expect(c, 2 * idx + n.za.getA() % 2, p, x);
      double ts = x.tg + x.tn, sum = 0, mn = 0, worst = 0, bad = 0, gam = 0; char where[128] = "-"; int cells = 0; double above = 0;
      bool nan = false;
      vector<double> act;
      for (int q = 0; q < (n.cdt[neutron].status ? 2 : 1); q++) {
        Nucleus &m = q ? ncl[n.cdt[neutron].next] : n;
        double emax = q ? e - n.cdt[neutron].binding_energy : e;
        for (int k = 0; k < m.ntotal; k++) for (int j = 0; j < MAX_J; j++) for (int par = 0; par < 2; par++) {
          if (q == 0 && k == 0) continue;              // the parent state itself
          double v = par ? m.pop[k][j].odd : m.pop[k][j].even;
          if (v != v) nan = true;
          sum += v; mn = min(mn, v); if (q == 0) gam += v;
          if (v != 0) cells++;
          if (v > 0 && m.excitation[k] > emax + 1e-9) above += v;
          double w = 0;
          if (k < m.ncont && ts > 0) {
            if (!q) w = par ? x.c0[k][j].odd : x.c0[k][j].even;
            else if (open) w = par ? x.c1[k][j].odd : x.c1[k][j].even;
            w /= ts;
          }
          if (w == 0 && v != 0) bad += fabs(v);
          double dv = fabs(v - w) / max(1e-13, max(fabs(w), fabs(v)));
          if (max(fabs(v), fabs(w)) > 1e-14 && dv > worst) { worst = dv; snprintf(where, sizeof where, "%s,bin%d,E=%.3f,J=%d/2,P=%d,p=%.3e,expected=%.3e", q ? "neutron" : "photon", k, m.excitation[k], 2 * j + (int)(m.za.getA() % 2), par ? -1 : 1, v, w); }
        }
        for (int i = 0; i < MAX_LEVELS; i++) {
          double v = m.lpop[i];
          if (v != v) nan = true;
          sum += v; mn = min(mn, v); if (q == 0) gam += v;
          if (v != 0) cells++;
          if (v > 0 && (i >= m.ndisc || m.lev[i].energy > emax + 1e-9)) above += v;
          double w = 0;
          if (i < m.ndisc && ts > 0) { if (!q) w = x.l0[i]; else if (open) w = x.l1[i]; w /= ts; }
          if (w == 0 && v != 0) bad += fabs(v);
          double dv = fabs(v - w) / max(1e-13, max(fabs(w), fabs(v)));
          if (max(fabs(v), fabs(w)) > 1e-14 && dv > worst) { worst = dv; snprintf(where, sizeof where, "%s,level%d,E=%.4f,p=%.3e,expected=%.3e", q ? "neutron" : "photon", i, m.lev[i].energy, v, w); }
        }
      }
      double top = p > 0 ? n.pop[0][idx].even : n.pop[0][idx].odd;
      fprintf(out, "HF %d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d %.17g %d %d %s\n", (int)nan, (int)open, ts, sum, mn, worst, bad, above, gam, cells, top, n.ncont, n.ndisc, where);
    } else if (cmd == "sim" || cmd == "mc") {   // Z A U idx P N seed
      int z, a, idx, p, N, seed; double u;
      is >> z >> a >> u >> idx >> p >> N >> seed;
      base_rng.set_seed(seed);
      fprintf(out, "MC");
      for (int i = 0; i < N; i++) {
        if (cmd == "sim") {
          int ne = setup(z, a, u);
          Hist h = cascade(u, idx, p, ne);
          fprintf(out, " %d %d", (int)h.n.size(), (int)h.g.size());
          for (double y : h.n) fprintf(out, " %.10g", y);
          for (double y : h.g) fprintf(out, " %.10g", y);
        } else {
          fissionEventType fe;
          fe.Z = z; fe.A = a; fe.U = u; fe.spin = idx + 0.5 * (a % 2); fe.parity = p;
          fe.preFragmentMomentum[2] = 1000.0;
          specMCMainFission(&fe);
          fprintf(out, " %d %d", fe.nu, fe.nug);
          for (int k = 0; k < fe.nu; k++) fprintf(out, " %.10g", fe.cmNeutronEnergies[k]);
          for (int k = 0; k < fe.nug; k++) fprintf(out, " %.10g", fe.cmPhotonEnergies[k]);
        }
      }
      fprintf(out, "\n");
    } else if (cmd == "simx") {  // Z A U N seed : decay of the nucleus as a whole, initial spin from the level density
      int z, a, N, seed; double u;
      is >> z >> a >> u >> N >> seed;
      base_rng.set_seed(seed);
      fprintf(out, "MC");
      for (int i = 0; i < N; i++) {
        int ne = setup(z, a, u);
        LevelDensity l = ncl[0].ldp;
        ldLevelDensity(u, a, &l);
        vector<double> w(MAX_J); double sum = 0;
        for (int j = 0; j < MAX_J; j++) sum += w[j] = ldSpinDistribution(j + 0.5 * (a % 2), l.spin_cutoff, l.sigma0);
        double r = rng_cgm() * sum; int idx = 0;
        while (idx < MAX_J - 1 && r > w[idx]) r -= w[idx++];
        Hist h = cascade(u, idx, rng_cgm() < 0.5 ? 1 : -1, ne);
        fprintf(out, " %d %d", (int)h.n.size(), (int)h.g.size());
        for (double y : h.n) fprintf(out, " %.10g", y);
        for (double y : h.g) fprintf(out, " %.10g", y);
      }
      fprintf(out, "\n");
    } else if (cmd == "quit") break;
    else fprintf(out, "ERR\n");
    fflush(out);
  }
  (void)keep;
  _exit(0);
}
