From 7afab2b50e7da9b6df1b0b535d0ba3effb4b5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:04 +0000
Subject: [PATCH 01/33] fix: pay the separation energies of sub-barrier
 pre-fission neutrons

When the sampled fission chance lies below the barrier of its daughter, the
neutron energies were left unset and the compound kept its full excitation
energy, so events had undefined pre-fission neutrons and up to ~7 MeV of
energy created.
---
 libcgmf/src/FissionFragments.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4a249f..d4b8baa 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5364,8 +5364,13 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
     // Determine the maximum pre-fission neutron energy (in c.o.m. frame)
     double eps_max = ncl[n].excitation[0] - barrier[n];
     // Can't sample negative energies -- i.e. we're below the barrier of the 2nd-chance daughter
-    if (eps_max < 0.) preeq_flag = false;
-    if (eps_max < 0.) return;
+    if (eps_max < 0.) {
+	preeq_flag = false;
+	// The neutrons are evaporated with (almost) no kinetic energy; the separation energies they cost still have to be paid
+	for (int i=0; i<n; i++) cmEnergy_pfn[i] = 1e-10;
+	*excitEnergy = ncl[n].excitation[0];
+	return;
+    }
 
     int kfmax = (int) ceil(eps_max/ENERGY_BIN);
 
-- 
2.43.0


From 42a79dfc3fabd2dbff9c7fb6093b272473ad508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:05 +0000
Subject: [PATCH 02/33] fix: keep the energy of the first pre-fission neutron
 positive

Just above the second-chance barrier only the first energy bin is open; the
spread over that bin could make the energy negative and the neutron's and
both fragments' momenta NaN.
---
 libcgmf/src/FissionFragments.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index d4b8baa..c4302ee 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5387,6 +5387,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
     } while (sp1[kf] < max_prob*rng_cgm());
 
     cmEnergy_pfn[0] = energy_grid1[kf] + 0.5*ENERGY_BIN*(1-2*rng_cgm()); // Continuum-to-continuum energy transfer
+    if (cmEnergy_pfn[0] <= 0.) cmEnergy_pfn[0] = 1e-10; // the first energy bin starts at zero
 
     // if the neutron was pre-equilibrium, construct the CDF for the angular sampling
     double Eexc = ncl[1].excitation[kf];
-- 
2.43.0


From 364cf0c991dc67a92262122a10afb984ec3e79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:57 +0000
Subject: [PATCH 03/33] fix: honour the time coincidence window of every event

The window passed to an event was only applied when that event was the first
of the process, so later events used a stale window.
---
 libcgmf/src/cgmfEvents.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8dfff50..eb2bb01 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -148,6 +148,7 @@ cgmEvent::cgmEvent (int isotope, double eng, double time) {
     initialization(o);
     firstcalc = false;
   }
+  set_time_coincidence_window(-1.0); // cascades are followed to the ground state
   cgmAllocateMemory();
 
   //---------------------------------------
@@ -388,8 +389,8 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   if(firstcalc) {
     initialization();
     firstcalc = false;
-    if(timew>0.0)set_time_coincidence_window(timew);
   }
+  set_time_coincidence_window(timew);
  	cgmAllocateMemory();
 //	allocateMemory();
 
-- 
2.43.0


From 8a81571b3754101d767000b48ea0093e71631d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:57 +0000
Subject: [PATCH 04/33] fix: refuse unsupported reactions in yields mode and
 with a failure status

Fission yields were generated without any input check, a NaN incident energy
passed the range test, and the remaining rejections ended with exit status 0.
---
 libcgmf/include/cgmfEvents.h     |  2 +-
 libcgmf/src/FissionFragments.cpp | 16 ++++++++--------
 libcgmf/src/cgmfEvents.cpp       |  4 +++-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/libcgmf/include/cgmfEvents.h b/libcgmf/include/cgmfEvents.h
index 2138d13..1cf73f9 100644
--- a/libcgmf/include/cgmfEvents.h
+++ b/libcgmf/include/cgmfEvents.h
@@ -234,11 +234,11 @@ protected:
 	double* preFissionNeutronAges;
 
 	void allocateMemory();
+	void checkInput (int, double);
 
 private:
 	
 	void initialization ();
-	void checkInput (int, double);
 
 };
 
diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4302ee..115094f 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -243,7 +243,7 @@ void FissionFragments::setOptions(void) {
 	    energySortingOption = "RTA";
 	    anisotropy_flag = true;
 	    if (incidentEnergy==0.0) {
-		cerr<<"ERROR: Only neutron-induced fission allowed for U238!"<<endl; exit(0);
+		cerr<<"ERROR: Only neutron-induced fission allowed for U238!"<<endl; exit(-1);
 	    }
 	    break;
 
@@ -259,7 +259,7 @@ void FissionFragments::setOptions(void) {
 	/* PLUTONIUMS */
 	case 94238: // Pu238
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu238!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu238!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -280,7 +280,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94240: // Pu240
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu240!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu240!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -300,7 +300,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94242: // Pu242
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu242!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu242!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -312,7 +312,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94244: // Pu244
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu244!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu244!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -326,7 +326,7 @@ void FissionFragments::setOptions(void) {
 	/* CALIFORNIUMS */
 	case 98252: // Cf252
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Cf252!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Cf252!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -338,7 +338,7 @@ void FissionFragments::setOptions(void) {
 
 	case 98254: // Cf254
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Cf254!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Cf254!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -351,7 +351,7 @@ void FissionFragments::setOptions(void) {
 	/* NOT SUPPORTED */
 	default:
 	    cerr << "ERROR: Cannot use CGMF (yet) for this isotope and/or incident energy" << endl;
-	    exit(0);
+	    exit(-1);
     }
     return;
 }
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index eb2bb01..626a623 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -535,6 +535,8 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	
 	fissionFragmentType *lf, *hf;
 	FissionFragments *ff;
+
+	checkInput (isotope, eng);
 	
 	lf = new fissionFragmentType [nevents];
 	hf = new fissionFragmentType [nevents];
@@ -590,7 +592,7 @@ void cgmfEvent::checkInput (int isotope, double einc) {
 
   if (not found) { cerr << "ERROR: Isotope not handled by CGMF or wrong incident energy\n"; exit(-1); }
   if (isotope<0 and einc!=0.0) { cerr << "ERROR: Only spontaneous fission is handled for this isotope\n"; exit(-1); }
-  if (isotope>0 and (einc>20.0 or einc<=0.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
+  if (isotope>0 and not (einc>0.0 and einc<=20.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
 
   return;
 
-- 
2.43.0


From 51b6a3e13f308d3f94a8625c488da2906efb04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 05/33] fix: end with a failure status when the yield data are
 missing

---
 libcgmf/src/Yields.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index fc3d91c..d5eed05 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -129,7 +129,7 @@ void Yields::setYieldParameters(void) {
     GaussData += MASSYIELDFILE; // 3-Gaussian parameterizations
     ifstream gaussfit(GaussData.c_str(),ios::in);
     if (!gaussfit.is_open()) {
-    	cerr << "The file " << GaussData << " was not found" << endl; exit(0);
+    	cerr << "The file " << GaussData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
@@ -173,7 +173,7 @@ void Yields::setYieldParameters(void) {
             cerr << "(n,f) ";
         }
         cerr << id_cn0 << endl;
-        exit(0);
+        exit(-1);
     }
     gaussfit.close();
     return;
@@ -268,7 +268,7 @@ void Yields::setTKEParameters(void) {
     TKEData += TKEYIELDFILE; // List of <TKE>(En), <TKE>(Ah), and s_TKE(Ah) parameterizations
     ifstream tkefit(TKEData.c_str(),ios::in);
     if (!tkefit.is_open()) {
-    	cerr << "The file " << TKEData << " was not found" << endl; exit(0);
+    	cerr << "The file " << TKEData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
-- 
2.43.0


From 014a13fb04573fc7c42ef316632aae668c4b32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 06/33] fix: report a missing number of events or an unwritable
 output file

Both ended in a null pointer dereference (or, for yields, in a success status
with nothing written).
---
 libcgmf/src/cgmfEvents.cpp |  1 +
 utils/cgmf/cgmf.cpp        | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 626a623..2fdf826 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -547,6 +547,7 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	// save fission yields
 	ofstream of;
 	of.open (&outfilename[0]);
+	if (!of.is_open()) { cerr << "ERROR: Cannot open output file " << outfilename << endl; exit(-1); }
 	//for (int i=0; i<nevents; i++) {
 	//	of << lf[i].Z << " " << lf[i].A << " " << lf[i].KE << " " << lf[i].U << " " << lf[i].spin << " " << lf[i].parity << endl;
 	//	of << hf[i].Z << " " << hf[i].A << " " << hf[i].KE << " " << hf[i].U << " " << hf[i].spin << " " << hf[i].parity << endl;
diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index ff9b764..78dfb2a 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -86,6 +86,13 @@ int main(int argc, char *argv[]) {
     }
   } else {
     FILE *fp = fopen(&outfilename[0],"w");
+    if (fp == NULL) {
+      cerr << "ERROR: Cannot open output file " << outfilename << endl;
+#ifdef MPIRUN
+      MPI_Finalize();
+#endif
+      exit(-1);
+    }
     if(ip==0) fprintf(fp, "# %5i %g %g\n", ZAIDt, incidentEnergy,timeCoincidenceWindow);
     for (int i=0; i<nevents; i++) {
       rng.set_seed(i+ip*nevents+startingEvent);
@@ -411,6 +418,14 @@ void readUserInput (int argc, char *argv[], int ip) {
   }
   outfilename += "."+sip.str();
 
+  if (nevents==0) {
+    cerr << "ERROR: The number of events must be given with option -n, and must not be zero" << endl;
+#ifdef MPIRUN
+    MPI_Finalize();
+#endif
+    exit(-1);
+  }
+
   if(timeCoincidenceWindow<0.){
     if(timeCoincidenceWindow!=-1.){
       cerr << "The time coincidence window can only be -1 (infinite time coincidence window) or positive" << endl;
-- 
2.43.0


From bca3b5ff979446511f20516789c48a032c33c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 07/33] fix: allow several events to be alive at the same time

The work arrays are global: deleting a second event freed them twice.
---
 libcgmf/src/terminate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/terminate.cpp b/libcgmf/src/terminate.cpp
index 1290704..48bb695 100644
--- a/libcgmf/src/terminate.cpp
+++ b/libcgmf/src/terminate.cpp
@@ -60,7 +60,11 @@ int cgmTerminateCode(std::string msg, double x)
 void cgmDeleteAllocated()
 {
 	delete [] ncl;
-	for(int i=0 ; i<SPECTRA_OUTPUT ; i++) delete [] spc[i];
+	ncl = NULL;
+	for(int i=0 ; i<SPECTRA_OUTPUT ; i++) {
+		delete [] spc[i];
+		spc[i] = NULL;
+	}
 }
 
 
@@ -69,6 +73,7 @@ void cgmDeleteAllocated()
 /**********************************************************/
 void cgmAllocateMemory()
 {
+	cgmDeleteAllocated(); // whatever an event that is still alive holds
 	try{
 		/*** compound nucleus */
 		ncl = new Nucleus [MAX_COMPOUND];
-- 
2.43.0


From 37f36c1d52aac35e2d926caf98e9e0fefaca553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 08/33] fix: let the C interface generate events again after
 cgmf_clean

The dangling event pointer was deleted a second time.
---
 libcgmf/src/cgmfEvents_capi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index e9de84f..09ded3c 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -164,6 +164,7 @@ double cgmf_getgtme(int i) {
 */
 void cgmf_clean() {
   if (cgmf_fevent != 0) delete cgmf_fevent;
+  cgmf_fevent = 0;
 //  riplDiscreteLevelsCleanup();
 }
 
-- 
2.43.0


From fd97bb7b9cce04ea4ed0476e4f3e3a9e899247c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 09/33] fix: make cgmf_genfissyields callable from C

The declaration had no file name, and the definition took a std::string, so
the declared C symbol did not exist.
---
 libcgmf/include/cgmfEvents_capi.h | 2 +-
 libcgmf/src/cgmfEvents_capi.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcgmf/include/cgmfEvents_capi.h b/libcgmf/include/cgmfEvents_capi.h
index 4ec7007..040a03c 100644
--- a/libcgmf/include/cgmfEvents_capi.h
+++ b/libcgmf/include/cgmfEvents_capi.h
@@ -24,7 +24,7 @@ void setdatapath (const char*);
 
 void   cgm(int, double, int*, double [], int*, double []);
 void   cgmf_genfissevent(int, double, double, double);
-void   cgmf_genfissyields(int, double, int);
+void   cgmf_genfissyields(int, double, int, const char*);
 
 int    cgmf_getnnu();
 double cgmf_getnerg(int);
diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index 09ded3c..5e7a097 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -75,7 +75,7 @@ spin and parity.
 \param nevents: number of fission events to generate
 
 */
-void cgmf_genfissyields (int za, double erg, int nevents, string outfilename) {
+void cgmf_genfissyields (int za, double erg, int nevents, const char* outfilename) {
   cgmf_yields = new cgmfYields (za, erg, nevents, outfilename);
 }
 
-- 
2.43.0


From de3c910e5f8faf233c7068ee254e9991f559aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 10/33] fix: let a cgmfYields object be deleted

Its destructor was declared but not defined, and the multiplicities the base
destructors look at were not initialized.
---
 libcgmf/src/cgmfEvents.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 2fdf826..3dc025a 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -359,6 +359,9 @@ int cgmEvent::cgmCheckRange(int z, int a, double e)
 
 
 cgmfEvent::cgmfEvent () {
+  neutronNu = 0;
+  photonNu  = 0;
+  preFissionNeutronNu = 0;
   initialization();
   cgmAllocateMemory();
   return;
@@ -573,11 +576,19 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 
         }
 	of.close();
+
+	delete [] lf;
+	delete [] hf;
+	delete ff;
 	
 	return;
 }
 
 
+cgmfYields::~cgmfYields () {
+	return;
+}
+
 /*! 
 
 */
-- 
2.43.0


From fa08490b93332b51382df2d76817d7afc8a2ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 11/33] fix: report the fragments' directional cosines

They were declared in both interfaces but always zero.
---
 libcgmf/src/cgmfEvents.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 3dc025a..e7cdeff 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -358,6 +358,18 @@ int cgmEvent::cgmCheckRange(int z, int a, double e)
 }
 
 
+// Directional cosines of a fragment before neutron emission, from its momentum
+static void setFragmentDirection (fissionEventType *fe) {
+  double norm = 0.0;
+  for (int i=0; i<3; i++) norm += fe->preFragmentMomentum[i]*fe->preFragmentMomentum[i];
+  norm = sqrt(norm);
+  if (norm>0.0) {
+    fe->fragmentDircosu = fe->preFragmentMomentum[0]/norm;
+    fe->fragmentDircosv = fe->preFragmentMomentum[1]/norm;
+    fe->fragmentDircosw = fe->preFragmentMomentum[2]/norm;
+  }
+}
+
 cgmfEvent::cgmfEvent () {
   neutronNu = 0;
   photonNu  = 0;
@@ -408,8 +420,6 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
 	cout.precision(3);
 	cout << std::fixed;
 
-  double norm;
-  
 	//-- light fragment calc. --------------------------------------------------
 
   eventLF.A = lf[0].A;
@@ -419,6 +429,7 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   eventLF.parity = lf[0].parity;
   eventLF.KE = lf[0].KE;
   for (int i=0; i<3; i++) eventLF.preFragmentMomentum[i] = lf[0].preMomentum[i];
+  setFragmentDirection (&eventLF);
 
   specMCMainFission (&eventLF);
 
@@ -431,6 +442,7 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   eventHF.parity = hf[0].parity;
   eventHF.KE = hf[0].KE;
   for (int i=0; i<3; i++) eventHF.preFragmentMomentum[i] = hf[0].preMomentum[i];
+  setFragmentDirection (&eventHF);
 
   specMCMainFission (&eventHF);
 
-- 
2.43.0


From 714ce7d9f52935a792e37a7c5c06c500cd126fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:27 +0000
Subject: [PATCH 12/33] fix: check the multiplicities of a fragment before
 storing its particles

Long cascades wrote past the end of the particle and time stamp arrays before
the multiplicity check ended the run.
---
 libcgmf/src/specmc.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index d62b498..df72dbf 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -67,7 +67,7 @@ void set_time_coincidence_window(double timew){
   time_coincidence_window=timew;
 }
 
-double gammaTimeStamp [ MAX_NUMBER_GAMMAS ];
+double gammaTimeStamp [ MAX_CASCADE ]; // one per step of the cascade (hs)
 
 /*!
  *
@@ -909,7 +909,6 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	double cmGammaEnergies    [MAX_NUMBER_GAMMAS];
 	double gammaEnergies      [MAX_NUMBER_GAMMAS];
 	double timeStamp          [MAX_NUMBER_GAMMAS];
-	double icEnergies		      [MAX_NUMBER_PARTICLES];
 	
 	int neutronMultiplicity=0;
 	int gammaMultiplicity=0;
@@ -933,23 +932,22 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
     mc_curr = hs[i].getMCPoint();
     mc_next = hs[i+1].getMCPoint();
     if (index==1) { // neutrons
+      if (neutronMultiplicity==MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
       cmNeutronEnergies[neutronMultiplicity++] = hs[i].getEnergy();
     } else if (index==0) { // gammas (no IC)
+      if (gammaMultiplicity==MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
       if (mc_curr.ifDiscrete()) {
 	timeStamp[gammaMultiplicity] = gammaTimeStamp[i]; // discrete-to-discrete
       }
       cmGammaEnergies[gammaMultiplicity++] = hs[i].getEnergy();
     } else { // Internal Conversion
-      icEnergies[icMultiplicity++] = hs[i].getEnergy();
+      icMultiplicity++;
     }
   }
 	
 	fe->nu  = neutronMultiplicity;
 	fe->nug = gammaMultiplicity;
 	
-	if (neutronMultiplicity>MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
-	if (gammaMultiplicity>MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
-	
 	double Vn[MAX_NUMBER_NEUTRONS][3];
 	double Vg[MAX_NUMBER_GAMMAS][3];
 	double cmVn[MAX_NUMBER_NEUTRONS][3];
-- 
2.43.0


From eec8ab635a7ae1f755e3f832d0d37fc01a744f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 13/33] fix: define the post-emission directional cosines
 declared in the C interface

---
 libcgmf/src/cgmfEvents_capi.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index 5e7a097..7d31ea6 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -10,6 +10,7 @@
  
  */
 
+#include <cmath>
 #include <string>
 
 #include "cgmfEvents_capi.h"
@@ -230,3 +231,14 @@ double cgmf_gethfpostmomentum_y () { return cgmf_fevent->getHeavyFragmentPostMom
 double cgmf_getlfpostmomentum_z () { return cgmf_fevent->getLightFragmentPostMomentumZ (); }
 double cgmf_gethfpostmomentum_z () { return cgmf_fevent->getHeavyFragmentPostMomentumZ (); }
 
+// directional cosines of the fragments after neutron emission
+static double direction (double p, double x, double y, double z) {
+  double norm = sqrt(x*x+y*y+z*z);
+  return norm>0.0 ? p/norm : 0.0;
+}
+double cgmf_getpostlfdircosu() { return direction(cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_z()); }
+double cgmf_getpostlfdircosv() { return direction(cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_z()); }
+double cgmf_getpostlfdircosw() { return direction(cgmf_getlfpostmomentum_z(), cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_z()); }
+double cgmf_getposthfdircosu() { return direction(cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_z()); }
+double cgmf_getposthfdircosv() { return direction(cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_z()); }
+double cgmf_getposthfdircosw() { return direction(cgmf_gethfpostmomentum_z(), cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_z()); }
-- 
2.43.0


From f9831b91306df6b53c2d2572884aafd05410d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:16 +0000
Subject: [PATCH 14/33] fix: look up the discrete levels of each nucleus of a
 chain by its own ZAID

A nucleus missing from the level file made the search read past the index,
and daughters were taken from the preceding entries of the file whatever they
were (before its start for the first entry), so a gap in the file hid the
levels of nuclei that are there.
---
 libcgmf/src/ripl2levels.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index d8c8b95..96f42b5 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -224,7 +224,7 @@ void getDiscreteLevels (Nucleus *ncl, int nemit) {
 		zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 		found=false;
 		id=-1;
-		while (!found && id<MAX_NUCLEI) {
+		while (!found && id<MAX_NUCLEI-1) {
 			id++;
 			if (zaidIndex[id]==zaid) found=true;
 		}
@@ -265,21 +265,19 @@ void getRiplDiscreteLevels (Nucleus *ncl, int nemit) {
 
 	MaxLevelCtl ml = reassign;
 
-	int zaid = 1000*ncl[0].za.getZ()+ncl[0].za.getA();
-
-	bool found =false;
-	int id=-1;
-	while (!found && id<MAX_NUCLEI-1) {
-		id++;
-		if (zaidIndex[id]==zaid) found=true;
-	}
-
 	for (int k=0; k<=nemit; k++) {
-		found = false;
-		if (zaidIndex[id-k]==zaid-k) found = true;
-		ncl[k].ndisc = numberLevels[id-k];
-		for (int i=0; i<ncl[k].ndisc; i++) {
-			ncl[k].lev[i] = allLevels[id-k][i];
+		int zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
+		bool found = false;
+		int id=-1;
+		while (!found && id<MAX_NUCLEI-1) {
+			id++;
+			if (zaidIndex[id]==zaid) found=true;
+		}
+		if (found) {
+			ncl[k].ndisc = numberLevels[id];
+			for (int i=0; i<ncl[k].ndisc; i++) {
+				ncl[k].lev[i] = allLevels[id][i];
+			}
 		}
 		fixLevels (&ncl[k], found, ml);
 	}
-- 
2.43.0


From 23a018feed75b04a13d58b07bfd8b998b39e8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:09 +0000
Subject: [PATCH 15/33] fix: start a discrete cascade from the level nearest to
 the excitation energy

statStoreLevelExcite returns the number of levels up to the nearest one; the
Monte Carlo cascade took it as the index of the level and so started one level
too high, emitting more energy than the fragment had.
---
 libcgmf/src/popinit.cpp | 2 +-
 libcgmf/src/specmc.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcgmf/src/popinit.cpp b/libcgmf/src/popinit.cpp
index 433f5fe..02cec64 100644
--- a/libcgmf/src/popinit.cpp
+++ b/libcgmf/src/popinit.cpp
@@ -217,7 +217,7 @@ int  statStoreLevelExcite(Nucleus *n)
 
   if( (n->ndisc == 1) && (n->ncont == 0) ) return(k);
 
-  for(int i=0 ; i<n->ndisc-1 ; i++){
+  for(int i=0 ; i<n->ndisc ; i++){
     x = fabs(n->max_energy - n->lev[i].energy);
     if(d>x){
       k = i;
diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index df72dbf..cbd52a7 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -155,7 +155,7 @@ void specMCMainFission(fissionEventType *fe)
 		/*** find nearest discrete level for given Ex */
 		int nstart = statStoreLevelExcite(&ncl[0]);
   	np = 0;
-		int final_state = mcGammaCascade(0,nstart,spc);
+		int final_state = mcGammaCascade(0,max(nstart-1,0),spc); // nstart counts levels
 		/*** insert final state */
 		int c = 0;
 		MCPoint mcurr;
@@ -268,7 +268,7 @@ void specMCMain(double initJ, int initP, double targE, double spinf, unsigned lo
 
     for(unsigned long t=0 ; t<nsim ; t++){
       np = 0;
-      mcGammaCascade(0,nstart,spc);
+      mcGammaCascade(0,max(nstart-1,0),spc); // nstart counts levels
       if(ctl.print_history) mcWriteHistory();
       recordEmittedParticles();
     }
-- 
2.43.0


From c30ffdfd3f3ee79590a657eb4cff6df8e0796c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 16/33] fix: read the data again after cgmf_cleanup

---
 libcgmf/src/FissionFragments.cpp | 1 +
 libcgmf/src/cgmfEvents.cpp       | 1 +
 libcgmf/src/ripl2levels.cpp      | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 115094f..d3f68b6 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -2006,6 +2006,7 @@ void readRTA (void) {
 void cleanupRTA (void) {
 
     delete [] RTAdata;
+    RTAdata = NULL;
 
     return;
 }
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index e7cdeff..dbd17da 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -674,5 +674,6 @@ void cgmf_cleanup(void) {
   riplDiscreteLevelsCleanup();
   cleanupRTA();
   specMCcleanup();
+  firstcalc = true; // the data have to be read again
 }
 
diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index 96f42b5..790752e 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -553,6 +553,11 @@ void riplDiscreteLevelsCleanup()
 	delete [] zaidIndex;
 	delete [] numberLevels;
 
+	allLevels    = NULL;
+	zaidIndex    = NULL;
+	numberLevels = NULL;
+	NUM_NUCLEI   = 0;
+
 }
 
 #ifdef DEVUTIL
-- 
2.43.0


From d769a9230c0a126400d376ed0817e71cd7fa5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 17/33] fix: read history files in which all fragments have the
 same multiplicity

np.asarray(..., dtype=object) builds a two-dimensional array when all the
lists have the same length (a single event, no neutrons at all, ...), and
the reader then failed in np.dstack.
---
 tools/CGMFtk/histories.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index a6e64e2..2cf3c4a 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -362,15 +362,15 @@ class Histories:
 		
 		nevents = int(nfragments/2)
 
-		cmNeutronEnergies=np.asarray(cmNeutronEnergies,dtype=object)
-		labNeutronEnergies=np.asarray(labNeutronEnergies,dtype=object)
-		cmGammaEnergies=np.asarray(cmGammaEnergies,dtype=object)
-		labGammaEnergies=np.asarray(labGammaEnergies,dtype=object)
-		photonAges=np.asarray(photonAges,dtype=object)
-		cmNeutronDircos=np.asarray(cmNeutronDircos,dtype=object)
-		labNeutronDircos=np.asarray(labNeutronDircos,dtype=object)
-		labPreFissionNeutronEnergies=np.asarray(labPreFissionNeutronEnergies,dtype=object)
-		labPreFissionNeutronDircos=np.asarray(labPreFissionNeutronDircos,dtype=object)
+		cmNeutronEnergies=self._listArray(cmNeutronEnergies)
+		labNeutronEnergies=self._listArray(labNeutronEnergies)
+		cmGammaEnergies=self._listArray(cmGammaEnergies)
+		labGammaEnergies=self._listArray(labGammaEnergies)
+		photonAges=self._listArray(photonAges)
+		cmNeutronDircos=self._listArray(cmNeutronDircos)
+		labNeutronDircos=self._listArray(labNeutronDircos)
+		labPreFissionNeutronEnergies=self._listArray(labPreFissionNeutronEnergies)
+		labPreFissionNeutronDircos=self._listArray(labPreFissionNeutronDircos)
 
 		data = np.dstack((A,Z,U,J,P,KEpre,nmult,gmult,cmNeutronEnergies,labNeutronEnergies,cmGammaEnergies, labGammaEnergies,photonAges,preFragmentsX,preFragmentsY,preFragmentsZ,postFragmentsX,postFragmentsY,postFragmentsZ,cmNeutronDircos,labNeutronDircos,prenmult,labPreFissionNeutronEnergies,labPreFissionNeutronDircos,KEpost))
 
@@ -379,6 +379,13 @@ class Histories:
 
 		return (data)
 
+	def _listArray (self,listOfLists):
+		""" Returns a one-dimensional array with one list per fragment, also when all the lists have the same length """
+		array = np.empty(len(listOfLists),dtype=object)
+		for i in range(len(listOfLists)):
+			array[i] = listOfLists[i]
+		return (array)
+
 	# Functions to return all quantities recorded
 	
 	def getFissionHistories(self):
-- 
2.43.0


From 114e62ea4c4a30f180ac548bff35cdd408d2c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 18/33] fix: Pnu with an energy threshold counts neutrons per
 event

nElab (per fragment) and preFissionNeutronElab (per event) have different
lengths and cannot be added; sum the neutrons of each event instead, without
the placeholder stored when there is no pre-fission neutron.
---
 tools/CGMFtk/histories.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 2cf3c4a..5b5c4a2 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -833,9 +833,10 @@ class Histories:
 		if (Eth is not None):
 			Eth = float(Eth)
 			nutot = []
-			#nE = self.nElabLF + self.nElabHF + self.preFissionNeutronElab
-			nE = self.nElab + self.preFissionNeutronElab
-			for x in nE:
+			for i in range(self.numberEvents):
+				x = self.nElabLF[i] + self.nElabHF[i]
+				if (self.preFissionNu[i]>0):
+					x = x + self.preFissionNeutronElab[i]
 				x = np.array(x)
 				nutot.append(len(x[x>=Eth]))
 			nutot = np.array(nutot)
-- 
2.43.0


From 254fc41df27edabb7469168855a62200f91dbecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 19/33] fix: UTKE and spinTKE refer to an undefined name

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 5b5c4a2..062e78a 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -982,7 +982,7 @@ class Histories:
 			TKE = self.TKEpre
 		elif (quantity=='UTKE'):
 			q=self.U
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
@@ -990,7 +990,7 @@ class Histories:
 			TKE = np.array(TKE)
 		elif (quantity=='spinTKE'):
 			q=self.J
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
-- 
2.43.0


From 49e1353131fd5b095dfaee06ee0996e6554dc956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 20/33] fix: nubarg and nubargtot accept an array of times

Comparing an array or a list with True does not give a single truth value.
---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 062e78a..3a7ac62 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -635,7 +635,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
@@ -689,7 +689,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
-- 
2.43.0


From 292cef22527614289d4ea8524841a0a8e3c61ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 21/33] fix: nubarg as a function of time is per fragment, as
 without a time window

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 3a7ac62..1835371 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -660,7 +660,7 @@ class Histories:
 				mask = np.logical_and(photonAges<=i,photonEnergies>=Eth)
 				nug.append(float(len(photonAges[mask])))
 			nug = np.array(nug)
-			nug = nug/float(self.numberEvents)
+			nug = nug/float(self.numberFragments)
 			return (times,nug)
 
 		else:
-- 
2.43.0


From a9da086f94ee005a8383e74666a8dca76132012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 22/33] fix: averages as a function of mass include the
 heaviest fragment

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 1835371..f74310d 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -895,7 +895,7 @@ class Histories:
 		spinA -- spin
 		TKEA -- total kinetic energy
 		"""
-		xA = np.arange(np.min(self.A),np.max(self.A))
+		xA = np.arange(np.min(self.A),np.max(self.A)+1)
 		nA = np.size(xA)
 		yA = np.zeros(nA)
 		if (quantity=='nuA'):
-- 
2.43.0


From bc03593274c64c5438fc60d88ce3424f9d0d52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 23/33] fix: averages as a function of TKE include the last bin

The events of the highest TKE bins were dropped and the last value returned
was always zero.
---
 tools/CGMFtk/histories.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index f74310d..17cddb8 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -971,8 +971,9 @@ class Histories:
 		UTKE -- excitation energy
 		spinTKE -- spin (J)
 		"""
-		xTKE = np.arange(np.min(self.TKEpre),np.max(self.TKEpre))
-		nTKE = np.size(xTKE)
+		minTKE = np.min(self.TKEpre)
+		nTKE = int(np.floor(np.max(self.TKEpre)-minTKE))+1
+		xTKE = minTKE+np.arange(nTKE)
 		yTKE = np.zeros(nTKE)
 		if (quantity=='nuTKE'):
 			q=self.nutot
@@ -996,8 +997,9 @@ class Histories:
 				TKE.append(x)
 				TKE.append(x)
 			TKE = np.array(TKE)
-		for i in range(nTKE-1):
-			r=q[np.logical_and(TKE>=xTKE[i],TKE<xTKE[i+1])]
+		binTKE = np.floor(TKE-minTKE)
+		for i in range(nTKE):
+			r=q[binTKE==i]
 			if (r.size):
 				yTKE[i]=np.mean(r)
 			else:
-- 
2.43.0


From 727eed4ee55baa05e458bf704a105fcb73d00aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 24/33] fix: nnangles pairs a neutron with the other neutrons
 only

Each neutron was also paired with itself, which added cos(theta)=1 once per
neutron to the distribution of opening angles.
---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 17cddb8..7c1e247 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1330,13 +1330,13 @@ class Histories:
 		c = 0
 		for i in range(len(nLF)):
 			for j in range(nLF[i]):
-				for k in range(j,nLF[i]):
+				for k in range(j+1,nLF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosLF.append(tempcos)
 					nncosAll.append(tempcos)
 			c=c+1
 			for j in range(nHF[i]):
-				for k in range(j,nHF[i]):
+				for k in range(j+1,nHF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosHF.append(tempcos)
 					nncosAll.append(tempcos)
-- 
2.43.0


From e9fa613d623ce4001dc24922cf3bda388519914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 25/33] fix: gammaSpec accepts a list of resolutions

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 7c1e247..0bff597 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1372,7 +1372,7 @@ class Histories:
 		eglist = np.array(Egamma)
 		deglist = np.array(dEgamma)
 
-		if np.any(eglist<0.) or np.any(dEgamma<0.):
+		if np.any(eglist<0.) or np.any(deglist<0.):
 			print("Gamma-ray energies and/or resolutions should be positive...")
 			return
 
-- 
2.43.0


From a0513132df5ad2879fedc9adc1118b43df3335b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 26/33] fix: neutron angles of runs in which a fragment group
 emits no neutron

nangles and nFangles failed with an IndexError when there were no neutrons
from the light or from the heavy fragments.
---
 tools/CGMFtk/histories.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 0bff597..1ea1bdc 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1189,9 +1189,9 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
+		ncosLight = np.array(ncosLight).reshape(-1,3)
+		ncosHeavy = np.array(ncosHeavy).reshape(-1,3)
+		ncosAll = np.array(ncosAll).reshape(-1,3)
 
 		ncosAll = ncosAll[nEAll>=Eth][:,2]
 		ncosLight = ncosLight[nELight>=Eth][:,2]
@@ -1286,12 +1286,12 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
-		FcosLight = np.array(FcosLight)
-		FcosHeavy = np.array(FcosHeavy)
-		FcosAll = np.array(FcosAll)
+		ncosLight = np.array(ncosLight).reshape(-1,3)
+		ncosHeavy = np.array(ncosHeavy).reshape(-1,3)
+		ncosAll = np.array(ncosAll).reshape(-1,3)
+		FcosLight = np.array(FcosLight).reshape(-1,3)
+		FcosHeavy = np.array(FcosHeavy).reshape(-1,3)
+		FcosAll = np.array(FcosAll).reshape(-1,3)
 
 		nFcosAll = ncosAll[nEAll>=Eth]*FcosAll[nEAll>=Eth]
 		nFcosAll = np.sum(nFcosAll,axis=1)
-- 
2.43.0


From 91ea252e41b21adb3546e45ad772520584caf155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:42 +0000
Subject: [PATCH 27/33] fix: apply the tabulated fragment anisotropy at every
 incident energy

The rounded energy (single precision) was compared for equality with the
tabulated one (double precision), so the anisotropy was only applied when the
energy rounds to a number exact in both, i.e. a multiple of 0.5 MeV.
---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index d3f68b6..ba040b7 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4789,7 +4789,7 @@ void FissionFragments::computeFragmentAngularDistribution (void) {
       for (int i=0;i<MAX_ZAIDc;i++){
          if (anisotropy[i+1][0]==ZAIDc-1){
             for (int j=1;j<=NUM_EGRID;j++){
-               if (roundf(incidentEnergy0*10)/10 == anisotropy[0][j]) {
+               if (lround(incidentEnergy0*10) == lround(anisotropy[0][j]*10)) { // both on a 0.1-MeV grid
                   anisotropyCoefficient = anisotropy[i+1][j];
                   break;
                }
-- 
2.43.0


From 7d60ece8548e89ebe892c28e0ee1a827b5bc5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 28/33] fix: do not carry the spin cut-off of one nucleus over
 to the next

ldLevelDensity leaves spin_cutoff alone when the constant-temperature form is used
at all energies, so statSetupLevelDensity used the value of whichever nucleus was
set up before in the same slot (the other fragment of the event).
---
 libcgmf/src/setup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcgmf/src/setup.cpp b/libcgmf/src/setup.cpp
index f4861e1..5be0752 100644
--- a/libcgmf/src/setup.cpp
+++ b/libcgmf/src/setup.cpp
@@ -197,6 +197,10 @@ void statSetupLevelDensityParameter(Nucleus *n, LevelDensity *ldp)
   ldp->a = kckAsymptoticLevelDensity(n->za.getA());
 
 
+  /*** forget the spin cut-off of the nucleus treated before,
+       it is not re-calculated when const. temp is used at all energies */
+  ldp->spin_cutoff = 0.0;
+
   /*** determine sigma2 from discrete levels */
   ldp->sigma0 = ldLevelSpinCutoff(n->ndisc, n->lev);
   if(ldp->sigma0 == 0.0) ldp->sigma0 = sqrt(kckSpinCutoff(n->za.getA()));
-- 
2.43.0


From 01ebaf70f632eac7ed7eab5e90a42e0eba07bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:50 +0000
Subject: [PATCH 29/33] fix: report a missing anisotropy or pre-equilibrium
 scattering file

Without anisotropy.dat the program crashed, without preeq-scattering-params.dat it
looped for ever; every other missing data file ends the run with a message.
---
 libcgmf/src/FissionFragments.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index ba040b7..6c09d8d 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4679,6 +4679,8 @@ void readAnisotropy (void) {
    }
 
 
+   if (!fp) cgmTerminateCode("anisotropy data file not found");
+
    while(getline(fp,line)){
       if(line[0] != '#') break;
    }
@@ -4725,7 +4727,9 @@ void readPreEqAngularDistributionParameters (void) {
     str = datadir + str;
     fp.open(&str[0]);
   }
- 
+
+  if (!fp) cgmTerminateCode("pre-equilibrium scattering data file not found");
+
   i=0;
   j=0;
   while (!fp.eof()) { // Loop through file
-- 
2.43.0


From 4226610613b832eb85c24b0f9b65525d112d82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:15 +0000
Subject: [PATCH 30/33] fix: weight the end points of the exciton transition
 rates with the matrix element

---
 libcgmf/src/excilambda.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libcgmf/src/excilambda.cpp b/libcgmf/src/excilambda.cpp
index 432995c..747b440 100644
--- a/libcgmf/src/excilambda.cpp
+++ b/libcgmf/src/excilambda.cpp
@@ -72,7 +72,7 @@ double preqLambdaPlusZ(Preeq *q, Exconf *e)
    double f2 = 4.0*f0;
 
    lambda += ( densinteg(e1,q,&xw[k],&xp[k],&xr[k])
-              +densinteg(e2,q,&xw[k],&xp[k],&xr[k]) )*f0;
+              +densinteg(e2,q,&xw[k],&xp[k],&xr[k]) )*f0 * ((k<2) ? c1 : c2);
 
    for(int i=1 ; i<ndiv ; i++){
      lambda += ((i%2==0) ? f1 : f2) * ((k<2) ? c1 : c2)
@@ -130,7 +130,7 @@ double preqLambdaPlusN(Preeq *q, Exconf *e)
    double f2 = 4.0*f0;
 
    lambda += ( densinteg(e1,q,&xw[k],&xp[k],&xr[k])
-              +densinteg(e2,q,&xw[k],&xp[k],&xr[k]) )*f0;
+              +densinteg(e2,q,&xw[k],&xp[k],&xr[k]) )*f0 * ((k<2) ? c1 : c2);
 
    for(int i=1 ; i<ndiv ; i++){
      lambda += ((i%2==0) ? f1 : f2) * ((k<2) ? c1 : c2)
@@ -206,7 +206,7 @@ double preqLambdaZeroZ(Preeq *q, Exconf *e)
  double f2 = 4.0*f0;
 
  lambda += ( densinteg(e1,q,&xw,&xp,&xr)
-            +densinteg(e2,q,&xw,&xp,&xr) )*f0;
+            +densinteg(e2,q,&xw,&xp,&xr) )*f0 * c1;
 
  for(int i=1 ; i<ndiv ; i++){
    lambda += ((i%2==0) ? f1 : f2) * c1
@@ -242,7 +242,7 @@ double preqLambdaZeroN(Preeq *q, Exconf *e)
  double f2 = 4.0*f0;
 
  lambda += ( densinteg(e1,q,&xw,&xp,&xr)
-            +densinteg(e2,q,&xw,&xp,&xr) )*f0;
+            +densinteg(e2,q,&xw,&xp,&xr) )*f0 * c1;
 
  for(int i=1 ; i<ndiv ; i++){
    lambda += ((i%2==0) ? f1 : f2) * c1
-- 
2.43.0


From 0c697374f9b2dde6d96ed89430762d195115b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:15 +0000
Subject: [PATCH 31/33] fix: set the emission times and directions of
 single-nucleus decays

---
 libcgmf/src/cgmfEvents.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index dbd17da..8f5d747 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -177,10 +177,19 @@ cgmEvent::cgmEvent (int isotope, double eng, double time) {
   neutronNu = mcl_nlinesn;
   allocateMemory();
   if (photonNu>0) {
-    for (int ii=0; ii<mcl_nlines; ii++) photonEnergies[ii] = mcl_glines[ii];
+    for (int ii=0; ii<mcl_nlines; ii++) {
+      photonEnergies[ii] = mcl_glines[ii];
+      photonAges[ii] = time;
+      photonDircosu[ii] = photonDircosv[ii] = photonDircosw[ii] = 0.0; // no direction is sampled
+    }
   }
   if (neutronNu>0) {
-    for (int ii=0; ii<mcl_nlinesn; ii++) neutronEnergies[ii] = mcl_elinesn[ii];
+    for (int ii=0; ii<mcl_nlinesn; ii++) {
+      neutronEnergies[ii] = cmNeutronEnergies[ii] = mcl_elinesn[ii];
+      neutronAges[ii] = time;
+      neutronDircosu[ii] = neutronDircosv[ii] = neutronDircosw[ii] = 0.0; // no direction is sampled
+      cmNeutronDircosu[ii] = cmNeutronDircosv[ii] = cmNeutronDircosw[ii] = 0.0;
+    }
   }
 
   return;
-- 
2.43.0


From 28500f43a8adbf0b55568390d4008b5b76ae9afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:10 +0000
Subject: [PATCH 32/33] fix: end all MPI processes when one cannot open its
 output file

---
 utils/cgmf/cgmf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index 78dfb2a..333b822 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -89,7 +89,7 @@ int main(int argc, char *argv[]) {
     if (fp == NULL) {
       cerr << "ERROR: Cannot open output file " << outfilename << endl;
 #ifdef MPIRUN
-      MPI_Finalize();
+      MPI_Abort (MPI_COMM_WORLD, 1); // the other processes may have opened theirs
 #endif
       exit(-1);
     }
-- 
2.43.0


From 4d236560a388f645459a6b8700939674964842a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:01 +0000
Subject: [PATCH 33/33] fix: seed the random generator with the constructor's
 argument

---
 libcgmf/include/rngcgm.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libcgmf/include/rngcgm.h b/libcgmf/include/rngcgm.h
index a50e354..6c92fef 100644
--- a/libcgmf/include/rngcgm.h
+++ b/libcgmf/include/rngcgm.h
@@ -34,10 +34,7 @@ class UniformRNG{
     std::uniform_real_distribution<> dist;
     std::mt19937 gen;
   public:
-    UniformRNG (int s) : seed(s) {
-      std::uniform_real_distribution<double> dist(0.0,1.0);
-      std::mt19937 gen(seed);
-    }
+    UniformRNG (int s) : seed(s), dist(0.0,1.0), gen(s) {}
     void set_seed (int s) {
       seed = s;
       gen.seed(seed);
-- 
2.43.0

