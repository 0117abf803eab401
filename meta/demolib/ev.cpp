// events through the public interface: one request "iso E seed t window" per line, one JSON object per event
#include <cstdio>
#include <iostream>
#include "cgmfEvents.h"
#include "rngcgm.h"
static UniformRNG g(1);
static double r() { return g(); }
int main() {
  FILE *o = fdopen(dup(1), "w");
  setdatapath(getenv("CGMFDATA") ? getenv("CGMFDATA") : "");
  int iso, seed; double E, t, w;
  while (std::cin >> iso >> E >> seed >> t >> w) {
    g.set_seed(seed); set_rng(r);
    cgmfEvent e(iso, E, t, w);
    fprintf(o, "{\"iso\":%d,\"E\":%.17g,\"seed\":%d", iso, E, seed);
#define F(S, X) fprintf(o, ",\"" S "\":{\"A\":%d,\"Z\":%d,\"KE\":%.17g,\"KEpost\":%.17g,\"U\":%.17g,\"J\":%.17g,\"P\":%d,\"nu\":%d,\"nug\":%d,\"p\":[%.17g,%.17g,%.17g],\"pp\":[%.17g,%.17g,%.17g]}", \
    e.get##X##FragmentMass(), e.get##X##FragmentCharge(), e.get##X##FragmentKineticEnergy(), e.get##X##FragmentKineticEnergyPost(), e.get##X##FragmentExcitationEnergy(), \
    (double)e.get##X##FragmentSpin(), e.get##X##FragmentParity(), e.get##X##FragmentNeutronNu(), e.get##X##FragmentPhotonNu(), \
    e.get##X##FragmentPreMomentumX(), e.get##X##FragmentPreMomentumY(), e.get##X##FragmentPreMomentumZ(), \
    e.get##X##FragmentPostMomentumX(), e.get##X##FragmentPostMomentumY(), e.get##X##FragmentPostMomentumZ())
    F("L", Light); F("H", Heavy);
    fprintf(o, ",\"n\":[");
    for (int i = 0; i < e.getNeutronNu(); i++)
      fprintf(o, "%s[%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g]", i ? "," : "", e.getNeutronEnergy(i), e.getNeutronDircosu(i), e.getNeutronDircosv(i), e.getNeutronDircosw(i), e.getNeutronAge(i),
        e.getCmNeutronEnergy(i), e.getCmNeutronDircosu(i), e.getCmNeutronDircosv(i), e.getCmNeutronDircosw(i));
    fprintf(o, "],\"g\":[");
    for (int i = 0; i < e.getPhotonNu(); i++)
      fprintf(o, "%s[%.17g,%.17g,%.17g,%.17g,%.17g]", i ? "," : "", e.getPhotonEnergy(i), e.getPhotonDircosu(i), e.getPhotonDircosv(i), e.getPhotonDircosw(i), e.getPhotonAge(i));
    fprintf(o, "],\"pre\":[");
    for (int i = 0; i < e.getPreFissionNeutronNu(); i++)
      fprintf(o, "%s[%.17g,%.17g,%.17g,%.17g]", i ? "," : "", e.getPreFissionNeutronEnergy(i), e.getPreFissionNeutronDircosu(i), e.getPreFissionNeutronDircosv(i), e.getPreFissionNeutronDircosw(i));
    fprintf(o, "]}\n"); fflush(o);
  }
}
