// Public-API driver: only cgmfEvents.h, cgmfEvents_capi.h and rngcgm.h are used.
// Line protocol on stdin; one reply line per command on a private copy of stdout.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include "cgmfEvents.h"
#include "cgmfEvents_capi.h"
#include "rngcgm.h"
using namespace std;

// strtod understands nan and inf, stream extraction does not
struct D { double &v; D(double &x) : v(x) {} };
static istringstream &operator>>(istringstream &is, D x) { string t; is >> t; x.v = strtod(t.c_str(), 0); return is; }
static FILE *out;
static UniformRNG base_rng(1);
static long ncalls = 0;
// negative seeds ask for a stream that visits the ends of the unit interval more often than a uniform one: every
// number of it is a legitimate random number, so whatever holds for every stream has to hold for it
static mt19937 pick_rng; static double pick_p = 0.0;
static void seed_rng(int s) {
  base_rng.set_seed(s < 0 ? -s : s);
  static const double ps[4] = {0.01, 0.03, 0.1, 0.25};
  pick_p = s < 0 ? ps[(-s) & 3] : 0.0;
  pick_rng.seed(s < 0 ? -s : s);
}
static double draw() {
  double r = base_rng();
  if (pick_p > 0.0) {
    double q = pick_rng() / 4294967296.0;
    if (q < pick_p) r = q < 0.5 * pick_p ? 1e-9 + 0.01 * r : 1.0 - 1e-9 - 0.01 * r;
  }
  return r;
}
static double counted() { ncalls++; return draw(); }
static double plain() { return draw(); }

static void d(double x) { fprintf(out, " %.17g", x); }
static void n(long x) { fprintf(out, " %ld", x); }

static void dump(cgmfEvent &e) {
  fprintf(out, "EV");
  n(e.getTargetNucleus()); d(e.getIncidentEnergy());
  n(e.getLightFragmentMass()); n(e.getLightFragmentCharge()); d(e.getLightFragmentKineticEnergy());
  d(e.getLightFragmentKineticEnergyPost()); d(e.getLightFragmentExcitationEnergy());
  d(e.getLightFragmentSpin()); n(e.getLightFragmentParity()); n(e.getLightFragmentNeutronNu()); n(e.getLightFragmentPhotonNu());
  d(e.getLightFragmentPreMomentumX()); d(e.getLightFragmentPreMomentumY()); d(e.getLightFragmentPreMomentumZ());
  d(e.getLightFragmentPostMomentumX()); d(e.getLightFragmentPostMomentumY()); d(e.getLightFragmentPostMomentumZ());
  n(e.getHeavyFragmentMass()); n(e.getHeavyFragmentCharge()); d(e.getHeavyFragmentKineticEnergy());
  d(e.getHeavyFragmentKineticEnergyPost()); d(e.getHeavyFragmentExcitationEnergy());
  d(e.getHeavyFragmentSpin()); n(e.getHeavyFragmentParity()); n(e.getHeavyFragmentNeutronNu()); n(e.getHeavyFragmentPhotonNu());
  d(e.getHeavyFragmentPreMomentumX()); d(e.getHeavyFragmentPreMomentumY()); d(e.getHeavyFragmentPreMomentumZ());
  d(e.getHeavyFragmentPostMomentumX()); d(e.getHeavyFragmentPostMomentumY()); d(e.getHeavyFragmentPostMomentumZ());
  int nn = e.getNeutronNu(), ng = e.getPhotonNu(), np = e.getPreFissionNeutronNu();
  n(nn); n(ng); n(np);
  for (int i = 0; i < nn; i++) {
    d(e.getNeutronEnergy(i)); d(e.getNeutronDircosu(i)); d(e.getNeutronDircosv(i)); d(e.getNeutronDircosw(i)); d(e.getNeutronAge(i));
    d(e.getCmNeutronEnergy(i)); d(e.getCmNeutronDircosu(i)); d(e.getCmNeutronDircosv(i)); d(e.getCmNeutronDircosw(i));
  }
  for (int i = 0; i < ng; i++) {
    d(e.getPhotonEnergy(i)); d(e.getPhotonDircosu(i)); d(e.getPhotonDircosv(i)); d(e.getPhotonDircosw(i)); d(e.getPhotonAge(i));
  }
  for (int i = 0; i < np; i++) {
    d(e.getPreFissionNeutronEnergy(i)); d(e.getPreFissionNeutronDircosu(i)); d(e.getPreFissionNeutronDircosv(i)); d(e.getPreFissionNeutronDircosw(i));
  }
  n(ncalls);
  fprintf(out, "\n");
}

// out-of-range indices must answer -1 everywhere
static void dumprange(cgmfEvent &e) {
  int nn = e.getNeutronNu(), ng = e.getPhotonNu(), np = e.getPreFissionNeutronNu();
  int idx[6]; 
  fprintf(out, "RG");
  for (int w = 0; w < 3; w++) {
    int m = w == 0 ? nn : w == 1 ? ng : np;
    idx[0] = -1; idx[1] = m; idx[2] = m + 1; idx[3] = 1000000; idx[4] = -1000000; idx[5] = 2147483647;
    for (int q = 0; q < 6; q++) {
      int i = idx[q];
      if (w == 0) {
        d(e.getNeutronEnergy(i)); d(e.getNeutronDircosu(i)); d(e.getNeutronDircosv(i)); d(e.getNeutronDircosw(i)); d(e.getNeutronAge(i));
        d(e.getCmNeutronEnergy(i)); d(e.getCmNeutronDircosu(i)); d(e.getCmNeutronDircosv(i)); d(e.getCmNeutronDircosw(i));
      } else if (w == 1) {
        d(e.getPhotonEnergy(i)); d(e.getPhotonDircosu(i)); d(e.getPhotonDircosv(i)); d(e.getPhotonDircosw(i)); d(e.getPhotonAge(i));
      } else {
        d(e.getPreFissionNeutronEnergy(i)); d(e.getPreFissionNeutronDircosu(i)); d(e.getPreFissionNeutronDircosv(i)); d(e.getPreFissionNeutronDircosw(i));
      }
    }
  }
  fprintf(out, "\n");
}

static void ddump(cgmfEvent &e) {
  fprintf(out, "DC");
  d(e.getLightFragmentDircosu()); d(e.getLightFragmentDircosv()); d(e.getLightFragmentDircosw());
  d(e.getHeavyFragmentDircosu()); d(e.getHeavyFragmentDircosv()); d(e.getHeavyFragmentDircosw());
  fprintf(out, "\n");
}
static void cddump() {
  fprintf(out, "DC");
  d(cgmf_getlfdircosu()); d(cgmf_getlfdircosv()); d(cgmf_getlfdircosw());
  d(cgmf_gethfdircosu()); d(cgmf_gethfdircosv()); d(cgmf_gethfdircosw());
  d(cgmf_getpostlfdircosu()); d(cgmf_getpostlfdircosv()); d(cgmf_getpostlfdircosw());
  d(cgmf_getposthfdircosu()); d(cgmf_getposthfdircosv()); d(cgmf_getposthfdircosw());
  fprintf(out, "\n");
}

static map<int, cgmfEvent *> held;
static map<int, long> heldcalls;
static int ciso = 0; static double cen = 0; static long ccalls = 0;

static void cdump(int iso, double en) {
  fprintf(out, "EV");
  n(iso); d(en);
  n(cgmf_getlfmass()); n(cgmf_getlfcharge()); d(cgmf_getlfke()); d(cgmf_getlfkepost()); d(cgmf_getlfu());
  d(cgmf_getlfspin()); n(cgmf_getlfparity()); n(cgmf_getlfnnu()); n(cgmf_getlfgnu());
  d(cgmf_getlfpremomentum_x()); d(cgmf_getlfpremomentum_y()); d(cgmf_getlfpremomentum_z());
  d(cgmf_getlfpostmomentum_x()); d(cgmf_getlfpostmomentum_y()); d(cgmf_getlfpostmomentum_z());
  n(cgmf_gethfmass()); n(cgmf_gethfcharge()); d(cgmf_gethfke()); d(cgmf_gethfkepost()); d(cgmf_gethfu());
  d(cgmf_gethfspin()); n(cgmf_gethfparity()); n(cgmf_gethfnnu()); n(cgmf_gethfgnu());
  d(cgmf_gethfpremomentum_x()); d(cgmf_gethfpremomentum_y()); d(cgmf_gethfpremomentum_z());
  d(cgmf_gethfpostmomentum_x()); d(cgmf_gethfpostmomentum_y()); d(cgmf_gethfpostmomentum_z());
  int nn = cgmf_getnnu(), ng = cgmf_getgnu(), np = cgmf_getprennu();
  n(nn); n(ng); n(np);
  for (int i = 0; i < nn; i++) {
    d(cgmf_getnerg(i)); d(cgmf_getndircosu(i)); d(cgmf_getndircosv(i)); d(cgmf_getndircosw(i)); d(cgmf_getntme(i));
    d(cgmf_getcmnerg(i)); d(cgmf_getcmndircosu(i)); d(cgmf_getcmndircosv(i)); d(cgmf_getcmndircosw(i));
  }
  for (int i = 0; i < ng; i++) {
    d(cgmf_getgerg(i)); d(cgmf_getgdircosu(i)); d(cgmf_getgdircosv(i)); d(cgmf_getgdircosw(i)); d(cgmf_getgtme(i));
  }
  for (int i = 0; i < np; i++) {
    d(cgmf_getprenerg(i)); d(cgmf_getprendircosu(i)); d(cgmf_getprendircosv(i)); d(cgmf_getprendircosw(i));
  }
  n(ncalls);
  fprintf(out, "\n");
}

static void cdumprange() {
  fprintf(out, "RG");
  for (int w = 0; w < 3; w++) {
    int m = w == 0 ? cgmf_getnnu() : w == 1 ? cgmf_getgnu() : cgmf_getprennu();
    int idx[6] = {-1, m, m + 1, 1000000, -1000000, 2147483647};
    for (int q = 0; q < 6; q++) {
      int i = idx[q];
      if (w == 0) {
        d(cgmf_getnerg(i)); d(cgmf_getndircosu(i)); d(cgmf_getndircosv(i)); d(cgmf_getndircosw(i)); d(cgmf_getntme(i));
        d(cgmf_getcmnerg(i)); d(cgmf_getcmndircosu(i)); d(cgmf_getcmndircosv(i)); d(cgmf_getcmndircosw(i));
      } else if (w == 1) {
        d(cgmf_getgerg(i)); d(cgmf_getgdircosu(i)); d(cgmf_getgdircosv(i)); d(cgmf_getgdircosw(i)); d(cgmf_getgtme(i));
      } else {
        d(cgmf_getprenerg(i)); d(cgmf_getprendircosu(i)); d(cgmf_getprendircosv(i)); d(cgmf_getprendircosw(i));
      }
    }
  }
  fprintf(out, "\n");
}

int main() {
  out = fdopen(dup(1), "w");
  dup2(2, 1);
  string line;
  while (getline(cin, line)) {
    istringstream is(line);
    string cmd; is >> cmd;
    if (cmd == "data") { string p; is >> p; setdatapath(p); fprintf(out, "OK\n"); }
    else if (cmd == "event" || cmd == "eventr" || cmd == "cevent" || cmd == "ceventr" || cmd == "eventd" || cmd == "ceventd") {
      int iso, seed; double en, t, tw; is >> iso; is >> D(en); is >> seed; is >> D(t); is >> D(tw);
      seed_rng(seed); ncalls = 0;
      if (cmd[0] == 'c') {
        setrngdptr(counted);
        cgmf_genfissevent(iso, en, t, tw);
        ciso = iso; cen = en; ccalls = ncalls;
        if (cmd == "cevent") cdump(iso, en); else if (cmd == "ceventd") cddump(); else cdumprange();
      } else {
        set_rng(counted);
        cgmfEvent e(iso, en, t, tw);
        if (cmd == "event") dump(e); else if (cmd == "eventd") ddump(e); else dumprange(e);
      }
    }
    else if (cmd == "hold") {
      int k, iso, seed; double en, t, tw; is >> k; is >> iso; is >> D(en); is >> seed; is >> D(t); is >> D(tw);
      seed_rng(seed); ncalls = 0; set_rng(counted);
      if (held.count(k)) { delete held[k]; held.erase(k); }
      held[k] = new cgmfEvent(iso, en, t, tw); heldcalls[k] = ncalls;
      dump(*held[k]);
    }
    else if (cmd == "show") {
      int k; is >> k;
      if (held.count(k)) { ncalls = heldcalls[k]; dump(*held[k]); } else fprintf(out, "NONE\n");
    }
    else if (cmd == "drop") {
      int k; is >> k;
      if (held.count(k)) { delete held[k]; held.erase(k); }
      fprintf(out, "OK\n");
    }
    else if (cmd == "cshow") { ncalls = ccalls; cdump(ciso, cen); }
    else if (cmd == "cyields") {
      int iso, seed, nev; double en; string f; is >> iso; is >> D(en); is >> nev; is >> seed; is >> f;
      seed_rng(seed); setrngdptr(plain);
      cgmf_genfissyields(iso, en, nev, f.c_str());
      fprintf(out, "OK\n");
    }
    else if (cmd == "clean") { cgmf_clean(); fprintf(out, "OK\n"); }
    else if (cmd == "cleanup") { cgmf_cleanup(); fprintf(out, "OK\n"); }
    else if (cmd == "yields") {
      int iso, seed, nev; double en; string f; is >> iso; is >> D(en); is >> nev; is >> seed; is >> f;
      UniformRNG rng(1); rng.set_seed(seed); set_rng(rng);
      cgmfYields *y = new cgmfYields(iso, en, nev, f);
      delete y;
      fprintf(out, "OK\n");
    }
    else if (cmd == "cgm" || cmd == "ccgm") {
      int za, seed; double ex, tm = 0.0; is >> za; is >> D(ex); is >> seed; is >> D(tm);
      seed_rng(seed); ncalls = 0;
      if (cmd == "cgm") {
        set_rng(plain);
        cgmEvent e(za, ex, tm);
        fprintf(out, "CG"); n(e.getPhotonNu()); n(e.getNeutronNu());
        for (int i = 0; i < e.getPhotonNu(); i++) d(e.getPhotonEnergy(i));
        for (int i = 0; i < e.getNeutronNu(); i++) d(e.getNeutronEnergy(i));
        for (int i = 0; i < e.getPhotonNu(); i++) { d(e.getPhotonAge(i)); d(e.getPhotonDircosu(i)); d(e.getPhotonDircosv(i)); d(e.getPhotonDircosw(i)); }
        for (int i = 0; i < e.getNeutronNu(); i++) { d(e.getNeutronAge(i)); d(e.getNeutronDircosu(i)); d(e.getNeutronDircosv(i)); d(e.getNeutronDircosw(i)); }
        for (int i = 0; i < e.getNeutronNu(); i++) { d(e.getCmNeutronEnergy(i)); d(e.getCmNeutronDircosu(i)); d(e.getCmNeutronDircosv(i)); d(e.getCmNeutronDircosw(i)); }
        fprintf(out, "\n");
      } else {
        setrngdptr(plain);
        int ng = 0, nn = 0; double g[30], e[30];
        cgm(za, ex, &ng, g, &nn, e);
        fprintf(out, "CG"); n(ng); n(nn);
        for (int i = 0; i < ng; i++) d(g[i]);
        for (int i = 0; i < nn; i++) d(e[i]);
        fprintf(out, "\n");
      }
    }
    else if (cmd == "quit") { break; }
    else fprintf(out, "ERR unknown command\n");
    fflush(out);
  }
  fflush(out);
  _exit(0);
}
