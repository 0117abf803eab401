"""Writes properties.jsonl and MANIFEST.json (run by hand when the list changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, claimed=claimed, reason=reason))


L = "libcgmf/src/"
EVT = "The only event-level tests compare a few fixed seeds of three reactions byte for byte (and cannot run without the level file that is not shipped); "

prop("C01", "Nucleon and charge conservation in every fission event",
     "In every fission event, for every supported nucleus, incident energy and random-number stream, the charges of the light and heavy fragments add up to the charge of the fissioning nucleus, and their masses plus the number of pre-fission neutrons add up to the mass of the initial compound nucleus (target plus one for neutron-induced, the nucleus itself for spontaneous fission). The light fragment is never heavier than the heavy one, every fragment still has more neutrons' worth of mass than charge after emitting its neutrons, and the event totals of neutrons and photons equal the sums over the two fragments. The same conservation holds for the fragments written by a yields-only run.",
     ["inputs"], "all 13 supported reactions, 0 < E <= 20 MeV, all seeds, all level data",
     EVT + "conservation has to hold for each of the 2^31 seeds at any energy.",
     [L + "FissionFragments.cpp", L + "cgmfEvents.cpp"], [("fragment sampling", L + "FissionFragments.cpp: sampleFissionFragments, constructYields"), ("event assembly", L + "cgmfEvents.cpp: cgmfEvent, cgmfYields")],
     "generated reactions/energies/seeds/level schemes, conservation oracle per event", "exploration: every generated event and yields line is judged; no claim beyond the generated seeds")
prop("C02", "Scission energy balance",
     "In every fission event the total kinetic plus total excitation energy of the two fragments equals the energy released: the mass difference between the initial compound nucleus and the two fragments plus any pre-fission neutrons, plus incident energy and neutron separation energy for neutron-induced fission, minus the kinetic energies the pre-fission neutrons carry off in the emitter's frame. The balance closes to rounding without pre-fission neutrons and to the 0.05 MeV energy bin per pre-fission neutron otherwise; excitation energies are never negative, kinetic energies are positive and shared in inverse proportion to the fragment masses. The same balance holds for the fragments written by a yields-only run.",
     ["inputs"], "all supported reactions, energies, seeds", EVT + "an imbalance at a particular energy, fission chance or nucleus pair is not seen by three fixed runs.",
     [L + "FissionFragments.cpp", L + "masstable.cpp"], [("TXE bookkeeping", L + "FissionFragments.cpp: computeFragmentInitialConditions, constructYields, getPrefissionNeutronEnergy")],
     "generated events, energy-balance oracle from an independent mass table", "exploration; trusts the snapshot of the evaluated mass table")
prop("C03", "Scission momentum balance",
     "In every fission event the momenta of the two fragments before emission add up, vectorially, to the momentum of the fissioning nucleus: zero for spontaneous fission, and otherwise the incident neutron's momentum along +z minus the momenta carried off by the pre-fission neutrons. Fragment kinetic energies agree with those momenta, pre-fission neutrons have unit direction vectors and non-negative energies, and no component is ever undefined.",
     ["inputs"], "all supported reactions, energies, seeds", EVT + "vector balance is not asserted by any test.",
     [L + "kinematics.cpp", L + "FissionFragments.cpp"], [("boost of pre-fission neutrons", L + "kinematics.cpp: boost_pfn, neutron_emission_boost")],
     "generated events, vector-balance oracle", "exploration")
prop("C04", "Neutron emission kinematics and fragment recoil",
     "Every neutron emitted by a fragment has, in the laboratory, the velocity obtained by adding the velocity of its emitter at that moment to its velocity in the emitter's rest frame, with unit direction vectors in both frames and positive energies. A fragment's momentum after emission equals its momentum before emission minus the laboratory momenta of its neutrons, photons have unit directions and positive energies that are the emitter-frame energies Doppler-shifted by the fragment's velocity after neutron emission, and the fragment's kinetic energy after emission is the one that belongs to that momentum.",
     ["inputs"], "all supported reactions, energies, seeds and neutron multiplicities", EVT + "none relates the reported energies and directions to each other.",
     [L + "kinematics.cpp", L + "specmc.cpp"], [("boost to the laboratory", L + "kinematics.cpp: boost, neutron_emission_boost"), ("recording", L + "specmc.cpp: recordEmittedParticlesFission")],
     "generated events, independent kinematics replay per fragment", "exploration; two known findings (kinetic energy after emission uses the mass before emission; photon directions are not rotated to the laboratory)")
prop("C05", "De-excitation energy closure",
     "For every fragment the initial excitation energy equals the sum of the neutron energies in the emitter's frame, their separation energies, the photon energies in the emitter's frame, the energies of internally converted transitions and the energy of the level in which the cascade stops; with an unlimited time window the cascade stops in the ground state. Without internal conversion and with an unlimited window the photons and neutrons alone therefore account for all of the excitation energy.",
     ["inputs", "configurations"], "all fragments, excitation energies, seeds and level schemes", EVT + "energy closure of a cascade depends on the level data, which no test varies.",
     [L + "specmc.cpp", L + "gamcas.cpp", L + "kinematics.cpp"], [("cascade bookkeeping", L + "specmc.cpp: mcHistoryLoop, mcGammaCascade, mcStoreHistory")],
     "generated events over generated level schemes, closure oracle", "exploration")
prop("C06", "Discrete gamma cascades follow the level scheme",
     "Every cascade ends through the discrete levels of the residual nucleus given in the level file: the last photons of a fragment form a connected chain of listed transitions down to the final level, each with exactly the difference of the two level energies. Transitions are taken with the listed branching ratios, a transition with conversion coefficient a emits a photon with probability 1/(1+a), and nuclei absent from the file have a ground state only.",
     ["inputs", "configurations"], "all level schemes in the documented file format, all seeds", "No test varies the level file, and branching is a statistical law that no single history decides.",
     [L + "ripl2levels.cpp", L + "specmc.cpp", L + "levden.cpp"], [("level file reader", L + "ripl2levels.cpp: readDiscreteLevelData, getDiscreteLevels"), ("cascade", L + "specmc.cpp: mcGammaCascade")],
     "generated level schemes, chain-membership oracle per event and chi-square on branching/conversion frequencies", "exploration; statistical thresholds at p<1e-7, confirmed on fresh seeds")
prop("C07", "Emission times and the coincidence window",
     "Photon ages are the requested start time plus a sum of exponentially distributed delays with the half-lives of the levels passed, never decrease along a fragment's cascade, and are exactly the start time for photons from the continuum or emitted before any level with a half-life is passed; neutrons have the start time. With a positive coincidence window passed to an event no photon is emitted later after the start time than the window and the cascade stops where the window closes; with a non-positive window the cascade runs to the ground state. The window passed to an event applies to that event whatever events were generated before in the same process.",
     ["inputs", "histories"], "all windows, start times, level half-lives, seeds and sequences of events", "The timing tests read one stored history file; the simulation of delays and the window are not exercised.",
     [L + "specmc.cpp", L + "cgmfEvents.cpp"], [("delay sampling and cut", L + "specmc.cpp: mcGammaCascade"), ("window", L + "cgmfEvents.cpp: cgmfEvent")],
     "generated windows/half-lives/event sequences; per-photon oracle, metamorphic window-truncation relation, exponential-law statistics", "exploration")
prop("C08", "Events are a function of their inputs and random stream only",
     "An event depends only on the reaction, energy, start time, window, data files and the numbers its random generator delivers: repeating it with the same seed gives bit-identical results in the same process, in a new process, after any sequence of other events, yields runs or cleanups, and with other events alive. A run split into ranges of starting event numbers produces the same events as one run over the whole range.",
     ["histories", "inputs"], "all sequences of events of mixed reactions before a given event", "Tests run one reaction per process, from a fresh process.",
     [L + "cgmfEvents.cpp", L + "FissionFragments.cpp", L + "specmc.cpp", "utils/cgmf/cgmf.cpp"], [("process-wide state", L + "cgmfEvents.cpp: firstcalc, ncl, spc; " + "libcgmf/include/rngcgm.h")],
     "stateful generation of event histories, differential against a fresh process", "exploration of generated histories")
prop("C09", "Unsupported requests are refused, supported ones run",
     "The command line and both programming interfaces accept exactly spontaneous fission of Pu-238, 240, 242, 244 and Cf-252, 254 (energy 0) and neutron-induced fission of U-233, 234, 235, 238, Np-237, Pu-239 and 241 at 0 < E <= 20 MeV. Any other nucleus or energy (negative, above 20, not a number, zero for an (n,f) target), a zero number of events, a window that is negative but not -1, a missing or invalid data directory or an output file that cannot be opened ends with an error message and a failure status instead of results, for events and for yields alike.",
     ["inputs", "fault_sequences"], "all integers as nucleus, all energies, all option combinations", "Tests only run supported requests.",
     [L + "cgmfEvents.cpp", "utils/cgmf/cgmf.cpp", L + "FissionFragments.cpp"], [("input check", L + "cgmfEvents.cpp: checkInput"), ("options", "utils/cgmf/cgmf.cpp: readUserInput")],
     "generated requests around and far from the supported set, accept/refuse oracle", "exploration")
prop("C10", "The history file is the events",
     "A run of N events writes a header with target, incident energy and window, followed by exactly N events in the documented layout; event i holds, to the printed precision, exactly what the programming interface returns for seed i plus the starting event number minus one, particles in order and attributed to the right fragment. Photon ages are written exactly when the window is given as -1 (unlimited), and the pre-fission neutron line exactly when there are pre-fission neutrons. A yields run of N events writes exactly N pairs of fragments, the same as the programming interface.",
     ["inputs", "configurations"], "all reactions, energies, numbers of events, starting events and windows", "Reference files cover a few fixed seeds; their tests cannot run here.",
     ["utils/cgmf/cgmf.cpp"], [("writer", "utils/cgmf/cgmf.cpp: printEventToFile, main")],
     "generated command lines; differential of the parsed file against the programming interface", "exploration")
prop("C11", "The printed summary is the average of the events",
     "The summary printed at the end of a run states the averages over exactly the events of the run: fragment masses, charges, kinetic and excitation energies, spins, multiplicities per fragment, of pre-fission neutrons and in total, and mean neutron and photon energies per particle. It names the right reaction, and every figure equals the average computed from the events to the printed two decimals.",
     ["inputs"], "all runs", "No test reads the summary.",
     ["utils/cgmf/cgmf.cpp"], [("accumulation", "utils/cgmf/cgmf.cpp: recordEvent, printSummaryEvents")],
     "generated runs; averages recomputed from the programming interface", "exploration")
prop("C12", "The C interface agrees with the C++ interface",
     "For every event, each function of the C interface returns the same value as its C++ counterpart for the same request and random stream, for the whole event and for each particle index; per-particle functions of both interfaces return -1 for any index outside the range and never fail. Fragment direction cosines are the unit vectors of the fragment momenta before (or after) emission. Cleaning up and generating again any number of times works.",
     ["inputs", "histories"], "all events, all integer indices, all sequences of generate and clean", "No test calls the C interface.",
     [L + "cgmfEvents_capi.cpp", "libcgmf/include/cgmfEvents.h"], [("wrappers", L + "cgmfEvents_capi.cpp")],
     "generated events and indices; differential of the two interfaces, stateful generate/clean sequences", "exploration")
prop("C13", "The analysis package reads back what a history file says",
     "Reading any history file produced by a run, with any number of events including one, gives back for every fragment and event exactly the values in the file: masses, charges, excitation and kinetic energies, spins, parities, momenta, multiplicities, and all neutron, photon (with ages when present) and pre-fission neutron energies and directions, in order and attributed to the right fragment and event. Reading a limited number of events gives the first ones.",
     ["inputs"], "all well-formed history files", "Tests read two stored files and check counts and a few means.",
     ["tools/CGMFtk/histories.py"], [("reader", "tools/CGMFtk/histories.py: _readHistoryFile")],
     "generated history files from an independent model; round-trip oracle", "exploration")
prop("C14", "Derived observables equal their definitions",
     "Every quantity the analysis package derives from the histories (average multiplicities, multiplicity distributions, mean energies, spectra, averages as a function of fragment mass and of total kinetic energy, time-gated photon quantities, photon-gated fragment lists, fragment and neutron angles, neutron-neutron opening angles, isomeric ratios and the summary table) equals its definition applied to the events of the file. It does so for every well-formed file and every argument in the documented range, including files in which all events have equal multiplicities or no particles at all. Thresholds and time limits count the particles lying exactly at them wherever the quantity is defined with 'at or above', 'up to' or an inclusive window.",
     ["inputs", "configurations"], "all well-formed history files and documented arguments", "Tests compare a handful of averages of one stored file.",
     ["tools/CGMFtk/histories.py"], [("observables", "tools/CGMFtk/histories.py")],
     "generated histories; each observable recomputed from its definition", "exploration; findings listed")
prop("C15", "Yields files read back and derived exactly",
     "Reading a yields file gives back exactly the fragments in it, light and heavy fragments told apart, and the derived quantities (neutron number, total kinetic and excitation energy per event, the averages of the summary table) equal their definitions applied to those fragments. Reading a limited number of events gives the first ones.",
     ["inputs"], "all well-formed yields files", "Tests count the events of one stored file.",
     ["tools/CGMFtk/yields.py"], [("reader and observables", "tools/CGMFtk/yields.py")],
     "generated yields files; round trip and recomputed definitions", "exploration")
prop("C16", "Fragment yields follow the shipped systematics",
     "Fragment masses, charges and total kinetic energies are distributed according to the parametrisations in the shipped data for the compound nucleus and excitation energy that fission: the mass distribution is the sum of the tabulated Gaussian modes and symmetric about half the compound mass, charges follow the charge systematics of the initial compound nucleus around the most probable charge with odd-even effects, and the mean and width of the kinetic energy as functions of mass follow their fits, rescaled to the tabulated mean at that energy.",
     ["inputs", "configurations"], "all supported reactions and energies", "Three reactions are compared with stored lists; the distributions at other energies and nuclei are untested.",
     [L + "Yields.cpp", L + "FissionFragments.cpp", "libcgmf/include/FissionFragments.h"], [("mass and kinetic energy", L + "Yields.cpp"), ("charge", L + "FissionFragments.cpp: ZDistribution")],
     "generated reactions/energies; chi-square/KS of sampled yields against an independent implementation of the laws", "exploration; statistical thresholds at p<1e-7, confirmed on fresh seeds")
prop("C17", "Fragment spins, parities and energy sharing follow their laws",
     "Each fragment's spin is distributed as (2J+1)exp(-J(J+1)/2B^2) with B^2 given by the tabulated temperature, deformation and spin scaling for that nucleus and excitation energy, integer for even and half-integer for odd mass; both parities are equally likely. The excitation energy is shared between the fragments according to the tabulated temperature ratio for that reaction and heavy mass.",
     ["inputs", "configurations"], "all supported reactions, energies and fragments", "Only byte comparison of three fixed reactions.",
     [L + "FissionFragments.cpp"], [("spin", L + "FissionFragments.cpp: spinParameter2, getInitialSpin"), ("sharing", L + "FissionFragments.cpp: computeFragmentExcitationEnergy")],
     "generated reactions/energies; probability-integral-transform statistics against an independent implementation", "exploration; statistical thresholds at p<1e-7, confirmed on fresh seeds")
prop("C18", "Decay probabilities are conserved and obey selection rules",
     "When an excited nucleus decays, the probability that leaves a state equals the probability that arrives in the states reachable from it by one neutron or one photon, none of the probabilities is negative, and no probability reaches states above the energy available. Transitions connect only spins and parities allowed by angular-momentum and parity conservation for the multipolarities and partial waves considered.",
     ["inputs"], "all nuclei, excitation energies, spins and parities", "No test looks at populations.",
     [L + "specmain.cpp", L + "stattrans.cpp", L + "specmc.cpp"], [("binary decay", L + "specmain.cpp: spectraBinary, specTransitionGamma/Particle")],
     "generated nuclei and populations; conservation and selection-rule oracle", "exploration")
prop("C19", "Neutron transmission coefficients are physical and follow the optical model",
     "For every nucleus and energy the neutron transmission coefficients lie between 0 and 1, vanish for partial waves beyond the reach of the nuclear potential, give a positive reaction cross section equal to their weighted sum, and agree with an independent solution of the Schroedinger equation for the same global optical potential.",
     ["inputs"], "all target nuclei and neutron energies reached in fission", "No test reaches the optical model directly.",
     [L + "omcalc.cpp", L + "omsetform.cpp", L + "omsetparm.cpp"], [("optical model", L + "omcalc.cpp: omCalc")],
     "generated nuclei/energies; range, sum-rule and differential oracle against an independent solver", "exploration")
prop("C20", "Photon strength functions are physical and follow the giant resonances",
     "Gamma-ray transmission coefficients are never negative, tend to zero with vanishing photon energy, peak at the giant resonance energies, and equal the documented Lorentzian forms with the documented systematics for resonance energy, width and strength.",
     ["inputs"], "all nuclei, photon energies, excitation energies", "No test reaches the photon strength function.",
     [L + "gdr.cpp", L + "gtrans.cpp"], [("strength", L + "gtrans.cpp: gdrGammaTransmission"), ("resonance systematics", L + "gdr.cpp")],
     "generated nuclei/energies; differential oracle against an independent implementation of the forms", "exploration")
prop("C21", "Level densities are positive, continuous and normalised",
     "The level density of every nucleus is positive and finite, increases with excitation energy, and is continuous with its logarithmic slope where the constant-temperature form meets the Fermi gas; its spin distribution is non-negative and sums to one over spins and parities.",
     ["inputs"], "all nuclei and excitation energies reached", "No test reaches level densities.",
     [L + "levden.cpp", L + "kcksyst.cpp"], [("level density", L + "levden.cpp: ldLevelDensity, ldSpinDistribution")],
     "generated nuclei/energies; invariants and differential oracle", "exploration")
prop("C22", "Pre-fission neutrons follow the multi-chance probabilities",
     "The number of pre-fission neutrons in an event is distributed according to the tabulated multi-chance fission probabilities interpolated at the incident energy, is zero for spontaneous fission and below the threshold of second-chance fission, and never exceeds what the energy allows. Their energies never exceed the energy available above the fission barrier of the nucleus they leave behind.",
     ["inputs"], "all (n,f) reactions and energies", "No test varies the energy of a reaction.",
     [L + "FissionFragments.cpp"], [("multi-chance sampling", L + "FissionFragments.cpp: getNumberPrefissionNeutrons, readMultichanceFissionData, getPrefissionNeutronEnergy")],
     "generated energies; exact binomial tests against interpolated tables, per-event energy bounds", "exploration; statistical thresholds at p<1e-7")
prop("C23", "No memory error or undefined behaviour on any supported input",
     "Generating events or yields, with any supported reaction and any level file in the documented format, reads and writes only memory it owns, uses no uninitialised values and ends normally; a cascade too long for the program's limits ends with an error message.",
     ["inputs", "configurations", "histories"], "all supported inputs, level files and call sequences", "Tests run without sanitizers on a few inputs.",
     ["libcgmf/src"], [("fixed-size work arrays", L + "specmc.cpp, " + L + "FissionFragments.cpp, " + L + "ripl2levels.cpp")],
     "generated inputs and call sequences under AddressSanitizer and UndefinedBehaviorSanitizer; differential between two fillings of uninitialised memory", "exploration")
prop("C24", "Single-nucleus decay conserves energy and is reproducible",
     "The decay of a single excited nucleus emits only as many neutrons as its excitation energy allows, each with at most the energy available, and the energies of the neutrons, their separation energies and the photon lines never exceed the initial excitation energy beyond the energy grid of 0.05 MeV. The same request with the same random stream gives the same particles through the C++ and the C interface, in any order of calls.",
     ["inputs", "histories"], "all nuclei and excitation energies in range, all seeds", "No test decays a single nucleus.",
     [L + "cgmfEvents.cpp", L + "specmc.cpp", L + "output.cpp"], [("single nucleus", L + "cgmfEvents.cpp: cgmEvent")],
     "generated nuclei, energies, seeds and level schemes; energy-bound and differential oracle", "exploration")
prop("C25", "Angular distributions: isotropic emission, tabulated anisotropy of fragments",
     "Neutrons are emitted isotropically in the rest frame of their emitter and pre-fission evaporation neutrons in that of the compound nucleus; photons are isotropic in the emitter's frame. Pre-equilibrium neutrons are emitted forward with the tabulated angular law. Fragments are isotropic in spontaneous fission, and in neutron-induced fission follow the anisotropy tabulated at the incident energy about the beam axis while isotropic around it.",
     ["inputs"], "all reactions, energies and seeds", "Angular laws are statistical; no test looks at directions.",
     [L + "kinematics.cpp", L + "FissionFragments.cpp"], [("sampling of directions", L + "kinematics.cpp: neutron_emission_boost, boost, boost_pfn")],
     "generated events; chi-square/KS of direction cosines against the laws", "exploration; statistical thresholds at p<1e-7, confirmed on fresh seeds")
prop("C26", "Missing data are reported, never silently replaced",
     "When any of the data files a calculation needs is missing, the run ends with an error message and a failure status before writing any event; a data file of the same name in the working directory takes precedence over the one in the data directory where the documentation says so.",
     ["fault_sequences", "configurations"], "every data file, removed or emptied, for events and yields", "Tests run with the complete data directory.",
     [L + "FissionFragments.cpp", L + "Yields.cpp", L + "ripl2levels.cpp", L + "masstable.cpp"], [("data readers", L + "*: read*")],
     "fault injection on generated data directories; refusal oracle", "exploration")

prop("C27", "Energies of pre-fission neutrons follow the exciton and evaporation spectra",
     "Every neutron emitted before fission has a centre-of-mass energy drawn from the spectrum the models give for the nucleus that emits it. The first one is a pre-equilibrium neutron with the tabulated probability of the target, 1/(1+exp((a0-E)/e0))+s*E+f0 (zero where that is negative and for targets not in the table), and then follows the two-component exciton-model spectrum of that target and incident energy; otherwise it is evaporated, as every later one is: the probability of an energy e is in proportion to e, to the summed neutron transmission coefficients [(l+1) T(l,l+1/2) + l T(l,l-1/2)] of the residual nucleus and to the level density of the residual nucleus at the excitation energy it is left with. The transition and emission rates of the exciton model are the integrals of matrix element times state densities, for every target. Spectra are normalised and never negative, end where the fissioning nucleus would be left below its barrier, and do not depend on what was calculated before.",
     ["inputs", "histories"], "every neutron-induced system and incident energy up to 20 MeV, every target nucleus of the actinide region and every level scheme, every sequence of calculations", "Tests check no pre-fission neutron energy.",
     [L + "excinterface.cpp", L + "exciton.cpp", L + "excilambda.cpp", L + "exciparm.cpp", L + "excipop.cpp", L + "evapinterface.cpp", L + "FissionFragments.cpp"],
     [("spectra", L + "excinterface.cpp: excitonInterface, evapinterface.cpp: evapInterface"), ("sampling", L + "FissionFragments.cpp: preeq_fraction, getPrefissionNeutronEnergy")],
     "generated targets, energies, level schemes and sequences compared bin by bin with an independent exciton model and evaporation spectrum; probability-integral transform of the energies of generated events", "exploration; statistical thresholds at p<1e-9, confirmed on replay")

prop("C28", "Parallel runs give what the serial program gives",
     "With the MPI build of the command-line program on N processes and n events each, process k writes n events to FILE.k, and the N files one after another are byte for byte the file of the serial run of N*n events with the same options (the header line is in FILE.0 only); the summary is printed once, by the first process, and gives the averages over all N*n events. A yields run (negative n) is made by the first process alone and is that of the serial program. When the input is refused, data are missing or one of the processes cannot open its output file, the whole run ends with a message and a failure status: no process is left waiting and no summary is printed.",
     ["configurations", "schedules", "fault_sequences", "inputs"], "every reaction, number of processes, number of events per process, time window and first seed, every choice of processes whose output cannot be written", "The test suite is built without MPI.",
     ["utils/cgmf/cgmf.cpp"], [("parallel run", "utils/cgmf/cgmf.cpp: main, printSummaryEvents, readUserInput")],
     "generated runs of the MPI build on 1 to 7 processes compared with the serial program; injected faults", "exploration")

prop("C29", "Random streams are reproducible, uniform and independent",
     "The random generator delivered with the library gives numbers in [0,1) that are uniform and uncorrelated, along a stream and across the streams of consecutive event numbers. A stream is determined by its seed alone: it is the same whether the seed is given at construction or later, whatever was drawn before, and whatever other generators or copies do; different seeds give different streams. The generator handed to the library, as an object or as a function, through the C++ or the C interface, is the one every number comes from. Events of consecutive numbers are different and uncorrelated.",
     ["inputs", "histories"], "all 32-bit seeds and all sequences of construction, seeding, copying and drawing", "Tests use seeds 1 to 500, set after construction, in one order.",
     ["libcgmf/include/rngcgm.h", "libcgmf/src/cgmfEvents.cpp"], [("generator", "libcgmf/include/rngcgm.h: UniformRNG"), ("installation", "libcgmf/src/cgmfEvents.cpp: set_rng")],
     "generated histories of operations on generators against a (seed, position) model; statistical tests over generated seeds", "exploration")

NOT_YET = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fp:
        for p in P:
            fp.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    checks, na = [], []
    for p in P:
        f = "checks/%s.py" % p["id"].lower()
        if p["claimed"] and os.path.exists(os.path.join(V, f)):
            checks.append(dict(property=p["id"], quick_cmd="python3-vt %s" % f, thorough_cmd="python3-vt %s --tier thorough" % f,
                               technique="property-based testing: " + p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
    m = dict(version=1, setup_cmd="python3-vt lib/build.py api_driver cgmf", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not claimed")


main()
