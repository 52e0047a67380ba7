BASE = " Exhaustive within the stated alphabet, silent about values outside of it; trusts the compiler, the harness and its reference model."
NOTES = {
 "G01": ("exhaustive enumeration of shapes x positions x rays on the real code against an interval model of the solids",
         "Every ray of the alphabet is compared with the material intervals computed in long double; rays within rounding of a tangent/edge/face must be consistent with the slightly grown and shrunk solid." + BASE),
 "G02": ("exhaustive exploration of all border-to-border walks over shapes x positions x directions on the real code against an interval model",
         "Location predicates and walks are compared with the material intervals of the reference solids." + BASE),
 "G03": ("exhaustive enumeration of constructions, copies, JSON descriptions and pairs on the real code",
         "All attribute tuples, single-attribute differences and single-key corruptions of the alphabet." + BASE),
 "D01": ("exhaustive enumeration of profiles x rays x path lengths on the real code against quadrature of the reference density",
         "Column depth is compared with Gauss quadrature of both the library's own density and the reference density; oblique paths on radial axes up to their curvature." + BASE),
 "D02": ("exhaustive enumeration of profiles x rays x grammages x maximum distances on the real code, inverted by a reference model",
         "Targets inside, at and beyond the maximum distance, including 1e20." + BASE),
 "D03": ("exhaustive enumeration of all copy/assign/clone/destroy sequences up to a depth and of all pairs of profiles on the real code (address sanitizer)",
         "Histories on pools of two objects; equality over all single-parameter changes." + BASE),
 "M01": ("exhaustive enumeration of all operation sequences up to a depth on pools of polynomials and splines, every value checked after every sequence against a long double model",
         "Sequences of up to 4 (thorough 5) operations." + BASE),
 "M02": ("exhaustive enumeration of a sphere lattice of directions x deflection angles x vectors on the real code against long double geometry",
         "All lattice directions including both poles and their immediate neighbourhood, all deflection angles including values beyond +-1 by rounding." + BASE),
 "M03": ("exhaustive enumeration of functions x brackets x tolerances and of (mean, sigma, limits, random number) tuples on the real code against bracketing and long double reference inverses",
         "Random numbers over a grid of the unit interval including its ends." + BASE),
 "M04": ("exhaustive enumeration of functions x methods x intervals x settings x shares and of all operation sequences up to a depth on two integrators on the real code (address sanitizer) against analytic antiderivatives",
         "Histories of 3 (thorough 4) of 32 operations, every result compared with the one of a fresh object and every reached share with the antiderivative." + BASE),
 "M05": ("exhaustive enumeration of table shapes, of all operation sequences up to a depth on two tables and of every byte prefix (crash point) of the stored files on the real code (address sanitizer)",
         "Polynomials below the interpolation order are reproduced exactly; histories of 4 (thorough 5) of 22 operations; every cut of text and binary files of seven tables; failing writes." + BASE),
 "M06": ("explicit-state exploration of all operation sequences on the real generator against a stream-position model",
         "Every sequence of up to 5 (quick) or 6 (thorough) of 13 operations (seed, draw, store, restore, user generators, default, library use, decay) is run on the real generator and compared, after each operation, with the model state (origin of the stream, position, active generator); reference streams are recorded in fresh processes. About 100 uses of library objects (all secondary calculators, cross sections, scattering, decays, tables, media) are checked at several stream positions and under user generators to leave the stream untouched." + BASE),
 "K01": ("explicit-state exploration of all operation sequences on real decay tables against a multiset model; shares of the selection located exactly by bisection",
         "All sequences of up to 5 (thorough 6) of 16 operations on two tables, with instrumented channels that count live clones (address sanitizer); all ordered tables of up to 4 (5) of 9 ratios; all pairs of library channels." + BASE),
 "K02": ("exhaustive enumeration of random answers fed to the real decay code (choice exploration), conservation laws judged in extended precision",
         "32 channels x 7 boosts x 6 directions; two-body: all pairs of 13 random numbers; leptonic: all tuples of 7 values with up to 3 (thorough 5) deviations; many-body: up to 2 (3) deviations with and without rejection; distributions by enumeration of a fine grid of random numbers. Rejection loops are continued with a fixed sequence." + BASE),
 "P01": ("explicit-state exploration of all registration/look-up histories on the real registry (fresh process per history) and exhaustive single-property changes against a map model",
         "All sequences of up to 4 (thorough 5) of 13 operations (create, identical, conflicting by each way, look-up, state look-up, copy, change of a copy), each in its own process under the address sanitizer; all predefined particles x 14 property changes x constructor/builder; all 512 setter subsets in both orders and with re-use of the builder." + BASE),
 "P02": ("explicit-state exploration of all creation/look-up histories on the real registries (fresh process per history) and exhaustive single-parameter changes, against recomputed definitions",
         "All sequences of up to 4 (thorough 5) of 12 operations, each in its own process under the address sanitizer; all names x capitalisations; all single-parameter variants of three media, all pairs; derived values recomputed independently (numerical Woods-Saxon integral, Tsai radiation length, handbook values)." + BASE),
 "P03": ("explicit-state exploration of all operation histories on two real states plus exhaustive types x momenta and field-difference subsets against a plain-data model",
         "24 types x 257 momenta; all 1024 subsets of differing fields; histories of up to 5 (thorough 6) of 16 operations (address sanitizer)." + BASE),
 "C01": ("exhaustive enumeration of (cut, energy, kinematic limits) tuples, JSON descriptions and all their single corruptions on the real code, against the definition",
         "13 x 9 x 2 settings x 150 energies x 100 limit pairs, all setting pairs, boundaries at the neighbouring representable number." + BASE),
 "C04": ("exhaustive enumeration of the implementation (all parametrisations x options x particles x elements x threshold/grid energies x loss grid; all pairs of configurations for hashes)",
         "Enumerates every parametrisation/option/particle with 27 elements; limits, finiteness, sign, thresholds, hash collisions. Not judged: values exactly on the edge of phase space; v_max>1 in empty ranges; Compton and weak below their stated limit (technical limits)." + BASE),
 "C02": ("exhaustive enumeration of the implementation (all parametrisations x options x particles x media x cuts x energies) against an independent adaptive Gauss-Kronrod quadrature",
         "Reference: own adaptive quadrature of the parametrisation with known error; ionisation additionally by the exact difference between two cuts. Tolerances reflect the library's Romberg false convergence (1.5%, brems dEdx 3%, Compton/ionisation 0.4% at single points; half of the points within 3e-3). Cases without cut are skipped for bremsstrahlung (infrared divergence) ." + BASE),
 "C03": ("exhaustive enumeration of the implementation (all parametrisations x targets x cuts x energies x rate shares) with inverse-function and independent-quadrature oracles",
         "Inverse function check: cumulative rate below the sampled loss is the requested share. Tolerance 8e-3 (0.12 near thresholds), 80% of points within 2e-4. Upper end only judged through its share." + BASE),
 "C05": ("exhaustive enumeration of configurations (all names x spellings x options x multipliers; all single-key corruptions) with the directly built parametrisation as oracle",
         "Compares type, name, hash, cuts and values with the parametrisation constructed directly. For epair without LPM the hash is not compared (two constructors, different but consistent hashes)." + BASE),
 "T01": ("exhaustive enumeration (bounded) of energy pairs, triples and amounts against independent quadrature; all ordered pairs of queries for history independence",
         "stub processes with closed integrands through the public CrossSectionBase interface plus default sets; found a non-terminating integration of tiny intervals (tau decay depth) and NaN time at rest" + BASE),
 "T02": ("exhaustive enumeration (bounded) of process sets, rates and random numbers incl. every share border",
         "order-independent: exact counts of choices and loss quantiles per share" + BASE),
 "T04": ("exhaustive enumeration (bounded) of sector layouts, hierarchy orders, positions and directions through the real Propagator, against reference intervals",
         "geometry reference shared with G-properties; straight tracks" + BASE),
 "T03": ("stateless exploration of the real Propagator: scripted physics and random numbers, every answer vector with a bounded number of deviations, in enumerated sector layouts, with every recorded step checked against an independent account of the geometry and the scripted physics",
         "Sector layouts (single, ball, adjacent boxes, shell, nested, hidden, crossing, different energy limits) x start points (inside, far, on faces) x physics options (plain, decay, randomisation, scattering+deflection, all) x stop conditions; every random number is one of three values; all scripts with up to 2-4 deviations from the uneventful one among the first 60 draws. Each recorded point is checked: monotone energy/distance/time, displacement, direction, grammage, continuous loss, time, which event was due, the physics used is that of the sector in charge everywhere on the step, and a reason for the end." + BASE),
 "T05": ("explicit enumeration of all recorded tracks up to a depth over an alphabet of steps, losses and decay; every query of the real history object compared with an independent account of the same track",
         "All tracks of up to 4 (thorough 7) steps: straight and two bent continuous steps, two stochastic losses, decay; three starts (one with the points exactly on borders, one generic); homogeneous, linear and exponential density and a nested sector with other physics; 14 geometries (solid, hollow, containing, missed, cut, at the border). Queries: states for energies and distances at, between and beyond the recorded points, entry, exit, closest approach, hit, energy lost, track and loss lists in total, by type, by name, inside a geometry, unknown names." + BASE),
 "S01": ("exhaustive bounded enumeration on the real code: models x particles x media x energies x paths x random numbers x directions, sequences of questions and copies; oracle: Lynch-Dahl formula, quadrature of Highland's integral, numerical Fourier integrals of Moliere's distribution",
         "Directions: 8x7 incoming directions (poles included) x offsets up to 40; models: Highland, HighlandIntegral (direct and interpolated), Moliere, MoliereInterpol and none, by type, by name in any case and through the JSON configuration with multipliers; 10 particles (neutral, fractional and double charge) x 5 media x energies from just above the mass to 1e9 MeV x 8 paths x 15 random numbers; all sequences of up to 3 questions with a copy at every place; all pairs compared. The Moliere distribution is compared with an independent numerical evaluation of its characteristic function (1e-5 in the core); the definition of the mean Z^2/A of a mixture is the one of the code." + BASE),
 "S02": ("exhaustive bounded enumeration on the real code: models x particles x components x energies x losses x random numbers, all subsets of models with multipliers applied to directions; oracle: kinematics, distribution functions of the publications",
         "Six models x 6 particles x 4 media x energies 1.001 m to 1e13 MeV x losses at, just inside and between the kinematic limits (and around the transition of Van Ginneken's parametrization) x 14 random numbers from 0 to 1-2^-53; all subsets of models built in three ways (objects, references, JSON configuration) x multipliers of one or several types x all 16 interaction types x 7 directions through PropagationUtility::DirectionDeflect, with the number of random numbers used; all names, prefixes and default types. Angles beyond pi of the Gaussian models are cut at pi." + BASE),
 "S03": ("exhaustive enumeration of models x losses x random numbers on the implementation, oracle kinematics and published distributions",
         "Every secondary production model the library has (19: three for bremsstrahlung, ionisation, photonuclear, two for electron pairs, muon pairs, weak interaction, Compton, annihilation, photoelectric, photo muon pairs, photoproduction, five for photon pairs) x every particle it serves x components of two media (thorough three) x energies from the mass (1+1e-12) to 1e13 MeV x losses at and next to the kinematic limits and between x each random number on a grid incl. 0 and 1-2^-53 with the others at two values, all ends at once x 7 directions incl. the poles. Random numbers beyond those asked for are NaN. Oracle: particle types of the process, position, time, unit directions, masses, energy balance, momentum balance where the model uses two-body kinematics, angles from the formulas of the models, asymmetry of pairs from the published Kelner-Kokoulin-Petrukhin formulas (harness/kkp.h, written independently), energy fractions from the quadrature of the differential cross section, exactly one random number turns the event rigidly around the parent. SecondariesCalculator: all (every 7th for muons) subsets of processes, replacing models, missing models, targets outside of the medium." + BASE),
}
NA = {}
