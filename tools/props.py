#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
D, G, C, F, L, B = "src/detail.rs", "src/gerg2008.rs", "src/composition.rs", "src/ffi.rs", "src/lib.rs", "build.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)), tech, note))


ANYSTATE = "every valid composition of the 21 components (pure, binary, trace, mixture, sums from 0.99 to 1.01), every temperature from 60 to 1200 K and density from nearly zero to dense liquid"
TESTS = "The tests check one 21-component gas at a handful of states"

prop("C01", "DETAIL pressure follows the AGA8-DETAIL equation for every mixture",
     "For every valid composition, temperature and density, the pressure and compressibility factor that the DETAIL calculator reports (from pressure() as well as from properties()) are those of the AGA 8 Part 1 DETAIL equation of state for that mixture, up to floating-point rounding (about 3e-12 of the terms summed). This covers every binary interaction, polar, quadrupole and quantum-gas contribution, and trace amounts. pressure() does not change T or D.",
     ["inputs"], ANYSTATE, TESTS + "; most of the 210 pair interactions and all pure or binary gases are never evaluated.", [D],
     [("coefficient tables and their combination", D + ": AN..GIJ, setup(), x_terms()"), ("residual Helmholtz energy", D + ": alphar()"), ("pressure and z", D + ": pressure(), properties()")],
     "online oracle: independent reference model with running error bounds over generated states",
     "Held on the states sampled; trusts the reference equations and tables in /verif/harness, which were written from the published form and audited against physical constants and a second formulation.", ["Detail::pressure", "Detail::z"])
prop("C02", "DETAIL thermodynamic properties follow the equation for every state",
     "For every valid composition, temperature and density, each value left by DETAIL properties() (mm, z, p, dp_dd, d2p_dd2, dp_dt, u, h, s, cv, cp, w, g, jt, kappa) is the one that follows by differentiation from the DETAIL Helmholtz energy with the standard's ideal-gas heat capacities, up to rounding; where the squared speed of sound is negative, w is 0.",
     ["inputs"], ANYSTATE, TESTS + " to 5-6 digits; ideal-gas terms and derivatives of other components and other temperatures are untested.", [D],
     [("ideal-gas terms", D + ": alpha0_detail(), TH0I"), ("derivatives of the residual part", D + ": alphar()"), ("property formulas", D + ": properties()")],
     "online oracle: automatic differentiation of an independent reference Helmholtz energy",
     "Held on the states sampled; same trust as C01.", ["Detail public fields after properties()"])
prop("C03", "GERG-2008 pressure follows the GERG-2008 equation for every mixture",
     "For every valid composition, temperature and density, the pressure and compressibility factor that the GERG-2008 calculator reports (from pressure() as well as from properties()) are those of the GERG-2008 equation for that mixture, up to floating-point rounding (about 3e-12 of the terms summed). This covers every pure-fluid term, every reducing parameter, every departure function, and trace amounts. pressure() does not change T or D.",
     ["inputs"], ANYSTATE, TESTS + "; most pure fluids, pairs and departure functions are only seen as small contributions.", [G],
     [("coefficient tables", G + ": setup(), NOIK, FIJ, GVIJ, BTIJ, GTIJ"), ("reducing functions", G + ": reducingparameters()"), ("residual Helmholtz energy", G + ": alphar(), tterms()"), ("pressure and z", G + ": pressure(), properties()")],
     "online oracle: independent reference model with running error bounds over generated states",
     "Held on the states sampled; trusts the reference equations and tables in /verif/harness. Contributions of fractions below 1e-14 are allowed to be present or absent.", ["Gerg2008::pressure", "Gerg2008::z"])
prop("C04", "GERG-2008 thermodynamic properties follow the equation for every state",
     "For every valid composition, temperature and density, each value left by GERG-2008 properties() (mm, z, p, dp_dd, d2p_dd2, d2p_dtd, dp_dt, u, h, s, cv, cp, w, g, jt, kappa) is the one that follows by differentiation from the GERG-2008 Helmholtz energy with the standard's ideal-gas terms, up to rounding; where the squared speed of sound is negative, w is 0.",
     ["inputs"], ANYSTATE, TESTS + " to 5-6 digits; ideal-gas terms, departure functions and derivatives of other components and temperatures are untested.", [G],
     [("ideal-gas terms", G + ": alpha0(), setup() (n0i, TH0I)"), ("derivatives of the residual part", G + ": alphar()"), ("property formulas", G + ": properties()")],
     "online oracle: automatic differentiation of an independent reference Helmholtz energy",
     "Held on the states sampled; same trust as C03.", ["Gerg2008 public fields after properties()"])
prop("C05", "DETAIL density() never claims a density that does not give the pressure",
     "When DETAIL density() succeeds, the density it leaves is positive and finite, reproduces the requested pressure (to a relative 3e-10 of the pressure scale p + D dp/dD) and does not lie where dp/dD < 0. When it fails with IterationFail the density left is the ideal-gas value p/(RT); for zero pressure it reports PressureTooLow and leaves density 0, and it reports that for no other pressure. T, p and composition are never changed by the call.",
     ["inputs", "histories"], "every valid composition, temperature 60-1200 K, pressure (zero, negative, tiny to 1e8 kPa), and every density left over or supplied as an estimate (negative) before the call", "The tests solve for the density at a few ordinary states and never look at failures, estimates or extreme pressures.", [D, L],
     [("Newton iteration in ln(p), ln(v) and its exits", D + ": density()")],
     "online oracle: reference equation evaluated at the returned density", "Held on the calls sampled; states where cancellation exceeds 1e-4 of the pressure scale are not judged.", ["Detail::density result", "Detail::d"])
prop("C06", "GERG-2008 density() never claims a density that does not give the pressure",
     "When GERG-2008 density(flag) succeeds, for any flag, the density it leaves is positive and finite, reproduces the requested pressure (to a relative 3e-10 of the pressure scale) and does not lie where dp/dD < 0; with flag > 0, p, dp/dD, d2p/dTdD, cv, cp and w^2 are also positive there. When it fails the density left is the ideal-gas value p/(RT), or 0 for zero pressure, which alone is reported as PressureTooLow. A state that flag 0 solves with all those properties positive is also solved, to the same density, by flag 1, and one with a negative one is refused by flag 1.",
     ["inputs", "histories"], "every valid composition, temperature 60-1200 K, pressure (zero, negative, tiny to 1e8 kPa), flag (-1 to 3), and every density left over or supplied as an estimate before the call", "The tests solve for the density at a few ordinary states with flag 0 and never look at flags, failures, estimates or extreme pressures.", [G, L],
     [("Newton iteration, restarts, phase check and exits", G + ": density()"), ("initial liquid estimate", G + ": pseudocriticalpoint()")],
     "online oracle: reference equation evaluated at the returned density", "Held on the calls sampled; states where cancellation exceeds 1e-4 of the pressure scale are not judged.", ["Gerg2008::density result", "Gerg2008::d"])
prop("C07", "density() finds the density wherever the isotherm rises to the pressure",
     "With a non-negative density left from before, density() succeeds at every state where the isotherm rises monotonically (least dp/dD above 0.2 RT for DETAIL, 0.03 RT for GERG-2008) from zero density to the requested pressure: for DETAIL, for pipeline gas and air from 143 to 676 K, and light gases without helium or large heavy ends from 225 K, up to 70 MPa; for GERG-2008, for any mixture from 60 to 1200 K up to 200 MPa with flags 0 and 1 (unless the phase check objects), and with flag 2 for pipeline gas, air and pure fluids above 1.3 times the mixture's critical temperature. For pure fluids at 0.7-0.95 of the critical temperature and 1.05-8 times the critical pressure, flag 2 finds the liquid.",
     ["inputs"], "every such composition, temperature, pressure, flag and leftover density", "The tests exercise a handful of convergent states; a solver that gives up early or diverges elsewhere passes them.", [D, G],
     [("iteration limits, step limits and restarts", D + ": density(); " + G + ": density()"), ("initial estimates", G + ": pseudocriticalpoint()")],
     "online oracle: monotonicity of the reference isotherm decides whether success is required", "Held on the calls sampled.", ["density() result"])
prop("C08", "Results depend only on the current inputs, not on earlier calls",
     "Whatever sequence of composition changes (through set_composition or the public x array, accepted or rejected), T, p and D changes, successful or failing calculations preceded it, molar_mass(), pressure(), density(flag) and properties() give the same results as a newly created calculator that is given the same x, T, p and D (bit for bit, or to rounding).",
     ["histories"], "every finite history of calls and field changes on a calculator, with inputs that may be equal to, near, or permutations of earlier ones, or not finite; except T = 0 and an all-zero composition, which are what an unused calculator holds", "The tests run one short history per calculator; stale cached terms only show after particular sequences.", [D, G],
     [("composition and temperature caches", D + ": xold, told, x_terms(), alphar(); " + G + ": xold, told, trold, drold, reducingparameters(), tterms()")],
     "differential monitor: used calculator against a fresh one after every call of random histories", "Held on the histories sampled.", ["all public fields and return values"])
prop("C09", "Calculators are independent of each other, also on concurrent threads",
     "Any number of calculators of either kind, created, used and dropped in any interleaving on one thread or concurrently on several, each give exactly the results they give when used alone, without data races.",
     ["schedules", "histories"], "every interleaving of calls on 2 to 5 calculators and every schedule of concurrent threads", "The tests use one calculator at a time.", [D, G, C],
     [("no state outside the calculator", D + ": struct Detail; " + G + ": struct Gerg2008")],
     "interleaving and thread stress against solo runs; ThreadSanitizer; Miri", "Held on the interleavings and thread schedules that occurred; TSan and Miri saw smaller workloads.", ["all public fields and return values"])
prop("C10", "Reported properties obey the thermodynamic identities between them",
     "At every state the values reported together satisfy p = zRTD, h = u + p/D, g = h - Ts, cp - cv = T(dp/dT)^2/(D^2 dp/dD), w^2 = (cp/cv)(dp/dD)/M, kappa = w^2 M/(zRT) and the Joule-Thomson relation, and pressure() agrees with properties(). The reported derivatives are the derivatives of the reported values: dp_dd, dp_dt, d2p_dd2 (and d2p_dtd for GERG-2008) of p, cv of u and of s, and the Maxwell relations between s, u and p hold.",
     ["inputs"], "every valid composition, temperature from 100 to 1000 K and density", "The tests compare numbers at a few states; identities at other states are not looked at.", [D, G],
     [("property formulas", D + ": properties(); " + G + ": properties()"), ("analytic derivatives", D + ": alphar(), alpha0_detail(); " + G + ": alphar(), alpha0()")],
     "online oracle: identities, and finite differences of the library's own outputs with error estimates", "Held on the states sampled; needs no reference model. Finite differences resolve about 1e-8 relative.", ["all public fields"])
prop("C11", "The dilute limit is the ideal gas, with h and s zero at 298.15 K, 101.325 kPa",
     "At zero density every property is finite and that of the ideal gas: p = 0, z = 1, dp/dD = RT, cp - cv = R, h - u = RT, kappa = cp/cv, w^2 = (cp/cv)RT/M. As density goes to zero every property approaches those values linearly (entropy and Gibbs energy up to R ln D), the Joule-Thomson coefficient and d2p/dD2 approaching their second-virial values (T dB/dT - B)/cp and 2RTB. The ideal-gas enthalpy and entropy of every pure component are zero at 298.15 K and 101.325 kPa (within 0.002 J/mol and 5e-6 J/mol/K).",
     ["inputs"], "every valid composition, temperature from 150 to 1000 K, density zero and 1e-13 to 1e-4 mol/l", "No test uses a small or zero density.", [D, G],
     [("zero-density branches", D + ": properties(), alpha0_detail(); " + G + ": properties(), alpha0()"), ("ideal-gas integration constants", D + ": setup(), TH0I; " + G + ": setup(), n0i")],
     "online oracle: ideal-gas relations and virial bounds", "Held on the states sampled; the size of the first-order deviation is bounded by the reference second virial coefficient.", ["all public fields"])
prop("C12", "Composition sum, check and normalize obey their documented arithmetic",
     "For every 21 numbers: sum() is their sum to rounding; check() says Empty when the sum is within 1e-10 of zero, Ok when the sum is within 1e-2 of one, and BadSum otherwise, NaN included; normalize() with a positive sum scales every component by one factor so that the sum is 1 and check() accepts, is idempotent, and otherwise reports an error (Empty for a zero or negative sum) and leaves all components untouched. Ok is never accompanied by a non-finite fraction, and check() and sum() change nothing.",
     ["inputs"], "every 21 double-precision numbers, including negative, huge, tiny, non-finite and cancelling ones", "The tests try five compositions.", [C],
     [("sum", C + ": sum()"), ("thresholds", C + ": check()"), ("scaling", C + ": normalize()")],
     "online oracle: compensated summation and exact classification", "Held on the inputs sampled; sums within rounding of a threshold are not judged.", ["Composition fields and results"])
prop("C13", "set_composition accepts what check() accepts, all or nothing",
     "For both calculators set_composition returns exactly what check() says of its argument. On success each named component takes its own place in the calculation, and the results are those of that gas and no other; on error the composition in force, and all else in the calculator, stays as it was.",
     ["inputs", "histories"], "every sequence of accepted and rejected compositions on a calculator, with any component values", "The tests set one valid composition per calculator and one empty one.", [D, G, C],
     [("validation and copying", D + ": set_composition(); " + G + ": set_composition()")],
     "online oracle: field-by-field comparison and reference properties after each call", "Held on the sequences sampled.", ["x, mm, z, u, s, cp, p"])
prop("C14", "Molar mass is the mole-fraction average of the component molar masses",
     "For every valid composition both calculators report, from the molar-mass call and from properties(), the sum of mole fraction times the standard's molar mass of each component (relative 1e-13), and the molar-mass call changes nothing else.",
     ["inputs"], "every valid composition, including pure gases and traces, before and after any other calculation", "The tests check one gas; a wrong molar mass of a minor component is below their tolerance.", [D, G],
     [("weighted sum and tables", D + ": molar_mass(), MMI; " + G + ": molar_mass(), MMI_GERG")],
     "online oracle: independent table of molar masses", "Held on the compositions sampled (every pure component and pair among them).", ["mm"])
prop("C15", "The C interface does exactly what the Rust interface does",
     "Every sequence of calls of the exported C functions on one or several handles returns bit for bit the values, error codes and properties that the same sequence of calls of the Rust interface gives: setters and getters touch the value they name, calculate_* run the calculation they name (GERG density with flag 0), get_properties reports the current values under their own names, and the error out-parameter is always written.",
     ["histories", "inputs"], "every sequence of calls with any numbers, on interleaved handles of both kinds", "No test calls the C interface.", [F],
     [("wrappers", F + ": detail::*, gerg2008::*")],
     "differential monitor: lock-step execution of C-interface and Rust-interface calls", "Held on the call sequences sampled.", ["every return value and out-parameter"])
prop("C16", "The C interface is memory-safe: handles own their memory, null is not used",
     "Every handle made by a new function is a separate object that keeps its state when passed between threads and whose memory is returned completely by one call of free; freeing null does nothing; any other call with a null handle never touches memory through it (it stops the process in a controlled way, or returns). No sequence of calls on live handles reads or writes memory it does not own.",
     ["histories", "schedules"], "every sequence of creating, using, passing on and freeing handles of both kinds", "No test calls the C interface; leaks and invalid accesses do not show in results.", [F],
     [("boxing and unboxing", F + ": *_new(), *_free()"), ("null checks", F + ": assert!(!ptr.is_null())")],
     "allocator accounting, AddressSanitizer, Miri, and child processes for null handles", "Held on the sequences run; Miri saw a small workload.", ["allocator balance", "process exit status"])
prop("C17", "The generated C header compiles and describes the real library",
     "The header produced by the build compiles as C99, C17 and C++17; it declares exactly the functions the library exports; sizes, alignments, field offsets, and enumerator values it implies are those of the library; and C and C++ programs written against it, linked to the static or the shared library, get the results of the Rust interface.",
     ["configurations", "inputs"], "every exported function and shared structure, the supported C and C++ dialects and both library kinds, and every state used in calls", "No test compiles the header or links the library.", [F, B, C, L],
     [("header generation", B), ("C layout of shared types", C + ", " + L + ", " + F + ": #[repr(C)]"), ("exported symbols", F + ": #[no_mangle] extern \"C\"")],
     "C/C++ programs with guard values, ASan and UBSan, run against the built library", "Held for gcc and clang on this platform and the calls made.", ["compiler exit status", "program output", "nm"])
prop("C18", "Every call returns normally for every input, and never claims false success",
     "For any numbers whatever in the composition, T, p, D and flag (NaN, infinities, zeros, negatives, subnormals), every public call returns in bounded time without panicking. Non-finite fractions are never accepted by set_composition; density() never reports success with a density that is not positive and finite, nor for a non-finite T or a pressure that is not positive and finite. Afterwards the calculator works normally on valid inputs.",
     ["inputs", "fault_sequences"], "every combination of double-precision values and integer flags, in any sequence with valid ones", "The tests use ordinary inputs and one empty composition.", [D, G, C],
     [("iteration limits", D + ": density(); " + G + ": density()"), ("range checks before ln and division", D + ": density(), properties(); " + G + ": density(), properties()"), ("validation", C + ": check()")],
     "hostile-input fuzzing with panic, CPU-time and result monitors; overflow checks, AddressSanitizer, Miri", "Held on the calls sampled; bounded time means 0.5 s of CPU time for each small group of calls.", ["return, panic, d"])
prop("C19", "Results do not depend on how the library was built",
     "The same calls give the same results and errors (to a relative 1e-10) whether the library is built in debug or release, with or without overflow checks and debug assertions, size-optimised as shipped, with or without the C interface, with panics that unwind or abort, for older or newer processors of the same kind, or for 32-bit and big-endian ones.",
     ["configurations", "inputs"], "the build profiles, features and targets, every call sequence on gases away from phase boundaries", "The tests run in one profile, on one processor.", [D, G, C, "Cargo.toml"],
     [("no build-dependent code", "src/*.rs")],
     "trace comparison between seven builds, and with builds for other processors run by Miri", "Held on the calls sampled; few of them on other processors.", ["all public fields and return values"])
prop("C20", "The two equations of state agree for natural gas in the normal range",
     "For natural gas, methane, nitrogen, argon, helium and air at 270-350 K up to 12 MPa, DETAIL and GERG-2008 both find a density and agree on density and z, speed of sound, cp, cv, kappa, enthalpy and entropy within limits that shrink to rounding with the pressure, nearly in proportion. At 12 MPa they are, in that order: for pure methane, nitrogen and argon and for air 0.3 %, 0.2 %, 1.7 %, 2.2 %, 0.45 %, 28 J/mol, 0.085 J/(mol K); for methane with nitrogen and carbon dioxide (at most 0.2 % of ethane to pentanes) 0.3 %, 0.35 %, 1.8 %, 1.7 %, 0.6 %, 37, 0.12; with ethane to pentanes (0.02 % of others) 2 %, 1.3 %, 5.5 %, 4.5 %, 2.5 %, 135, 0.42; for other gases of at least 85 % methane 3.2 %, 2.5 %, 10 %, 8 %, 3.7 %, 180, 0.6; for the rest 5 %, 7.5 %, 12 %, 10 %, 11 %, 200, 0.6. The molar masses agree within 5e-5.",
     ["inputs"], "every such gas (at least 70 % methane, up to 20 % nitrogen, 10 % each of carbon dioxide, ethane and hydrogen, 4 % propane, 3 % carbon monoxide, 1.8 % butanes, 0.6 % pentanes, 0.2 % heavier hydrocarbons and 0.3 % of each other component), temperature and pressure", "The tests never compare the two models.", [D, G],
     [("both equations", D + "; " + G)],
     "differential monitor between the library's own two models", "Held on the states sampled; needs no reference model, and is coarse.", ["all public fields"])
prop("C21", "Supercritical gases behave physically",
     "For natural gas, air and light gases at 1.35 times the critical temperature and above (and at least 220 K), up to 60 MPa, density() succeeds and dp/dD > 0, dp/dT > 0, cv > 1.2 R, cp > cv, kappa > 1, z is between 0.2 and 4 and w between 50 and 5000 m/s; along an isotherm density and Gibbs energy rise and entropy falls with pressure; along an isobar density falls, and enthalpy and entropy rise, with temperature. Changes of g along the isotherm are the area under dp/D, and changes of h (less the area under dp/D on the isotherm) that under T ds, between the bounds the two ends give.",
     ["inputs"], "every such gas (for DETAIL: mixtures of at most a fifth hydrogen and three tenths carbon monoxide, and no helium-rich ones), temperature and pressure", "The tests look at isolated states, not at trends.", [D, G],
     [("both equations and solvers", D + "; " + G)],
     "online oracle: physical inequalities along random isotherms and isobars", "Held on the states sampled; needs no reference model.", ["all public fields"])
prop("C22", "Outputs change continuously with inputs",
     "A tiny change of T, D or one mole fraction (including from zero to a trace) changes each output of properties() by no more than the equation's sensitivity to that input times the change, plus rounding: there are no jumps, thresholds or dead zones anywhere between two states.",
     ["inputs"], "every valid composition, temperature from 150 to 1000 K, density up to 25 mol/l, steps of 1e-12 to 1e-7 (traces of 1e-18 to 1e-9), and whole paths in T, D, one fraction or the composition", "The tests do not compare neighbouring states.", [D, G],
     [("smooth formulas and cache invalidation", D + ": x_terms(), alphar(); " + G + ": reducingparameters(), alphar()")],
     "online oracle: change of outputs against change of the reference equation, for close pairs and by bisection along paths", "Held on the pairs sampled; the sensitivity comes from the reference equations.", ["all public fields after properties()"])
prop("C23", "density() inverts pressure() on single-phase states",
     "On states where the isotherm rises throughout to the pressure in question (least slope as in C07), computing the pressure from a density and then the density from that pressure returns the density one started from, to a relative 1e-10, whatever density was in the calculator before the solve.",
     ["inputs"], "every valid composition for GERG-2008 and natural gas, air and light gases for DETAIL, temperature, density and prior density", "The tests do the two calculations separately at one state.", [D, G],
     [("solver and equation agree", D + ": density(), pressure(); " + G + ": density(), pressure()")],
     "round-trip monitor", "Held on the states sampled; the reference equation only decides whether a state qualifies.", ["d"])

prop("C24", "Pure fluids have the right vapour pressure and critical point",
     "With GERG-2008, each of the 21 pure fluids at 0.6 to 0.94 of its critical temperature has one pressure at which gas and liquid have the same Gibbs energy, within 1.2 % of the vapour pressure by corresponding states (Ambrose-Walton; 6 % for CO2, hydrogen, CO, water and helium): there density(0) and density(1) find the gas, and any liquid that density(2) finds is that in balance. The slope of the vapour-pressure curve is the difference of entropy by the difference of volume (relative 2e-6), and the latent heat is T times the difference of entropy (1e-8). At the critical temperature and density the pressure is within 2 % of the published critical pressure, and dp/dD and d2p/dD2 are nearly zero (0.006 RT, 0.06 RT/Dc).",
     ["inputs"], "every component, every temperature in that range, with any state left over", "No test looks at a pure fluid, a liquid, or a phase boundary.", [G],
     [("pure-fluid Helmholtz energies", G + ": NOIK, COIK, DOIK, TOIK, alphar()"), ("critical constants", G + ": DC, TC"), ("which root the solver finds", G + ": density()")],
     "online oracle: equal Gibbs energies, Clapeyron's equation and published critical constants", "Held on the states sampled; the reference equation supplies the liquid root only. density(2) gives up on many liquids at low pressure, as the published algorithm does; that is not judged.", ["Gerg2008 public fields", "density() result"])
prop("C25", "Calls write only the fields they are for",
     "In every history, set_composition writes only the mole fractions (none of them when it refuses), molar_mass only mm, pressure() only z, and density() only d and z (with GERG-2008 flags above 0 also the properties of the state the phase check looked at). properties() leaves T, D and the composition alone, and for GERG-2008 p too. All other public fields keep their bits.",
     ["histories"], "every history of calls and field changes, with valid, rejected and non-finite inputs and failing calls", "The tests read only the fields just computed.", [D, G],
     [("outputs of each call", D + ": set_composition(), molar_mass(), pressure(), density(), properties(); " + G + ": the same")],
     "frame monitor: every public field bit for bit before and after each call", "Held on the histories sampled.", ["all public fields"])
prop("C26", "Dilute mixtures are ideal mixtures of their components",
     "At densities of 1e-10 to 1e-9 mol/l and 250 to 1000 K, u, h, s, g, cv, cp and mm of a mixture (of fractions of 1e-4 or more) are the mole-fraction averages of what the same model reports for each component alone, at the same temperature and at its partial density (Gibbs' theorem), to 1e-7 of RT or 10 J/(mol K) plus a part proportional to the density (4e-6 at 1e-9).",
     ["inputs"], "every such composition (sum 1), temperature and density, for both models", "The tests look at one mixture only.", [D, G],
     [("ideal-gas part and mixing terms", D + ": alpha0_detail(); " + G + ": alpha0()")],
     "metamorphic monitor: mixture against its components, with the library's own outputs", "Held on the states sampled; needs no reference model.", ["all public fields after properties()"])
prop("C27", "Calculators keep no memory",
     "Dropping a calculator returns all the memory taken in its life, and the memory in use does not grow with the number or variety of calls made on it, whether they succeed or fail. (Something may be set up once for good, but not every time.)",
     ["histories"], "every history of calls on calculators of both kinds, including rejected compositions, failing solves and non-finite inputs", "Leaks do not show in results.", [D, G, C],
     [("no state outside the calculator, no growth within", D + ": struct Detail; " + G + ": struct Gerg2008")],
     "allocator accounting around whole lives and long runs of calls", "Held on the histories sampled; growth below one byte per call or so goes unnoticed in the long runs.", ["allocator balance"])

prop("C28", "A negative density is an estimate, and leads to the density next to it",
     "Where T, p and a density agree on a stable part of the isotherm (p > 0, dp/dD > 0; gas, liquid, supersaturated or superheated alike), density() called with the negative of an estimate near that density succeeds and returns that density (relative 1e-9), whatever other densities have the same pressure, and with any flag (flags above 0 where the properties there are positive). Near means: Newton's method in ln p over ln D provably converges from there (step times curvature below 0.2). A density that is not negative is no estimate: density() then gives, bit for bit, what it gives from D = 0.",
     ["inputs"], "every valid composition, temperature, density up to 4 critical densities and estimate, for both models", "No test passes an estimate.", [D, G],
     [("use of D as estimate", D + ": density(); " + G + ": density()")],
     "online oracle: Newton-Kantorovich condition on the reference equation, then the density next to the estimate", "Held on the states and estimates sampled.", ["density() result", "d", "z"])
prop("C29", "C handles do not affect each other, also on concurrent threads",
     "Any number of handles of either kind may be used at the same time, each by one thread, or interleaved on one thread: every returned value, error code, getter and field of get_properties is, bit for bit, what the Rust interface gives for that handle's calls alone. Handles may be made and freed concurrently, several threads may call get_properties on one handle that nobody is changing (it changes nothing), and there are no data races.",
     ["schedules", "histories"], "every set of handles, call sequences, interleavings and thread schedules", "The tests use one C handle on one thread.", [F, D, G],
     [("no state outside the handle", F + ": all functions; " + D + "; " + G)],
     "linearised reference runs against concurrent and interleaved runs, ThreadSanitizer, Miri", "Held on the schedules that occurred.", ["C interface", "thread schedule"])

prop("C30", "Every call returns after a bounded amount of work",
     "Whatever the inputs and the history, density() returns within 400 times the work of one properties() call on a 21-component gas, and every other call, of Composition as well, within 60 times; a 2 MiB stack is enough. The work per call does not grow with the number of calls made before.",
     ["inputs", "histories"], "every history of calls on calculators of both kinds, with valid, rejected and non-finite inputs and failing solves", "The tests have no time limits and make a handful of calls.", [D, G, C],
     [("iteration limits", D + ": density(), bmix(); " + G + ": density()")],
     "per-call CPU-time monitor, calibrated on the library itself", "Held on the histories sampled; work below the bounds (the longest seen is about a fifth of them) is not judged.", ["thread CPU clock", "stack limit"])
prop("C31", "Calculations touch nothing outside their calculator",
     "No call on a calculator, a composition or a handle opens, reads or writes files, standard streams or sockets, sleeps, starts processes or threads, handles signals, or sets timers. Environment variables, locale, working directory, panic hook and the floating-point control registers stay as they were.",
     ["histories"], "every history of calls through both interfaces, with valid, rejected and non-finite inputs and failing solves", "Effects of that kind do not show in results.", [D, G, F, C],
     [("pure computation", D + "; " + G + "; " + C + "; " + F)],
     "system calls trapped by a seccomp filter on the calling thread, control registers and environment compared", "Held on the histories sampled; x86-64 Linux. Where seccomp is refused, the kernel's counts of reads and writes are used instead.", ["system calls", "MXCSR", "x87 control word", "environment"])
prop("C32", "The same calls give the same results in every process",
     "What a history of calls returns and leaves in the public fields depends, bit for bit, on nothing but the calls and their arguments: not on what else ran in the process before or on which thread, nor on the addresses it was given, the environment variables, locale, directory, name, limits, number of processors, or the time.",
     ["histories", "schedules"], "every history of calls through both interfaces, in every process and order", "The tests run in one environment.", [D, G, F, C],
     [("no dependence on surroundings", "src/*.rs")],
     "differential monitor: hashes of whole histories from processes with different orders, threads, addresses and surroundings", "Held on the histories and surroundings sampled, on one machine and one build.", ["all public fields and return values"])

prop("C33", "Every calculator starts the same, however made, and can be moved",
     "A calculator from new(), from Default (also by mem::take or on another thread) or made after any number of others has all public fields zero, and every sequence of calls on it returns and leaves, bit for bit, what it does on one from new(); a default Composition is empty. Moving a calculator to another address, swapping two, or sending one to another thread between calls changes nothing. Calculators and compositions are Send and Sync.",
     ["histories"], "every way of making a calculator, every history of calls (valid, rejected, failing, non-finite), with moves at any point", "The tests make calculators with new() only, and keep them where they are.", [D, G, C],
     [("construction and setup", D + ": Default, new(), setup(); " + G + ": Default, new(), setup()")],
     "differential monitor: a calculator made and moved in random ways against one from new() that stays put", "Held on the histories sampled.", ["all public fields and return values"])

prop("C34", "density() gives the gas wherever there is a gas",
     "Where the isotherm rises from zero density to a first maximum (gas and liquid can both exist, T between 0.4 and 1.25 critical temperatures) and the pressure is below 0.93 of that maximum, GERG-2008 density() with flag 0 or 1, and without an estimate, succeeds and returns the gas density, the one on that first rising part, for every mixture and also where a liquid has the same pressure. DETAIL density() does so for air and pure light gases (methane, nitrogen, carbon dioxide, ethane, hydrogen, oxygen, carbon monoxide, argon) above 0.55 Tc; for natural gases above 0.5 Tc it returns the gas density or fails with IterationFail, and never gives another density. (Not where dp/dD on the way is below 0.1 RT.)",
     ["inputs"], "every valid composition, temperature and pressure of that kind, and every density left over from before", "The tests solve for states of one density.", [D, G],
     [("start from the ideal gas, restarts in the liquid only afterwards", D + ": density(); " + G + ": density()")],
     "online oracle: first rising part of the reference isotherm, and the density there", "Held on the states sampled.", ["density() result", "d"])
prop("C35", "GERG-2008 density() finds compressed liquids",
     "Where the pressure is above 1.1 times the highest pressure of the gas, up to 300 times, and exactly one density has it (other maxima of the isotherm stay below 0.95 of it), GERG-2008 density() with flag 0, 1 or 2, and without an estimate, succeeds and returns that density, for pure fluids from 0.5 to 1.0 critical temperatures (hydrogen, water, helium and hexane to decane from 0.86) and for natural gases and air from 0.82 to 1.08. (Flags above 0: where the properties there are positive.)",
     ["inputs"], "every such gas, temperature and pressure, and every density left over from before", "The tests solve for gases only.", [G],
     [("restarts at liquid densities", G + ": density(), pseudocriticalpoint()")],
     "online oracle: the only root of the reference isotherm", "Held on the states sampled.", ["density() result", "d"])

(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p, _, _ in P))
man = dict(version=1, setup_cmd="python3 check.py --setup",
           checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json", technique=t, level="exploration", level_note=n) for p, t, n in P],
           not_applicable=[], notes="No hooks in /repo: everything needed is public. Monitors are in harness/, the driver is check.py.")
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
