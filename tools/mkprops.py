#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are edited)."""
import json, os
D = "src/PROPOSAL/detail/PROPOSAL/"
H = "src/PROPOSAL/PROPOSAL/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ geometry
prop("G01", "Border distances are the true ray/surface crossings",
 "For every sphere, box and cylinder (solid or hollow), every position and every direction, the reported border distances describe the first piece of the solid's material ahead on the ray: (distance to its entry, distance to its exit) if the particle is not in it yet, (distance to its exit, -1) if the particle is in the material or on its border moving into it, and (-1,-1) if there is no material ahead. Crossings closer than the geometry precision count as already passed, and this holds wherever the position is (outside, inside, in the hollow, on a face) and for rays through edges, rims and corners.",
 ["inputs", "configurations"],
 "all shapes and placements of the alphabet x all positions of a lattice that contains faces, edges, axes, the hollow and far points x all directions of a lattice that contains axis-parallel, diagonal, grazing and generic ones",
 "Geometry_TEST samples random rays for one size of each shape and a few hand-written ones; rays through edges, along faces, from the hollow and for displaced solids are an infinite set it never quantifies over.",
 [D+"geometry/Sphere.cxx", D+"geometry/Box.cxx", D+"geometry/Cylinder.cxx", D+"geometry/Geometry.cxx"],
 [("DistanceToBorder of each shape", D+"geometry/{Sphere,Box,Cylinder}.cxx")], observe=["Geometry::DistanceToBorder"])
prop("G02", "Inside, in front and behind partition every ray consistently",
 "For every geometry, position and direction exactly one of 'inside', 'in front of' and 'behind' holds, it agrees with the true set membership of points that are off the surface, and the location value agrees with it. Walking along a ray from border to border changes 'inside' exactly at each crossing and ends behind the geometry; for solids without hollow, entering and leaving are reported exactly at these crossings. The distance to the closest approach is the signed path length to the point of the ray nearest to the geometry's centre.",
 ["inputs", "histories"],
 "all (geometry, position, direction) triples of the alphabet and all walks along them from border to border until the ray has left the geometry",
 "The tests check single calls for hand-picked or random points; the partition and the walk are statements about every point and every sequence of crossings.",
 [D+"geometry/Geometry.cxx", D+"geometry/Sphere.cxx", D+"geometry/Box.cxx", D+"geometry/Cylinder.cxx"],
 [("IsInside/IsInfront/IsBehind/GetLocation", D+"geometry/Geometry.cxx")], observe=["Geometry::GetLocation", "Geometry::IsEntering", "Geometry::IsLeaving"])
prop("G03", "Geometry configuration, copy and equality agree with behaviour",
 "A geometry made from a JSON description, from the factory or by copying behaves exactly (location, distances, hierarchy, attributes) like the one constructed directly with the same numbers, including fractional and defaulted ones, and compares equal to it. Two geometries compare equal exactly when shape, position, hierarchy and every dimension agree, invalid descriptions are rejected with an exception, and comparison is symmetric.",
 ["configurations", "histories"],
 "all attribute tuples of the alphabet for the three shapes, all single-attribute differences, all single-key omissions/corruptions of the JSON description",
 "Tests compare a handful of constructed objects; JSON construction is exercised only with whole-number dimensions.",
 [D+"geometry/Geometry.cxx", D+"geometry/GeometryFactory.cxx", D+"geometry/Sphere.cxx", D+"geometry/Box.cxx", D+"geometry/Cylinder.cxx"],
 [("JSON constructors and operator==", D+"geometry/"), ("CreateGeometry", D+"geometry/GeometryFactory.cxx")])
# ------------------------------------------------------------------- density
prop("D01", "Column depth is the line integral of the local density",
 "For every density profile (homogeneous, exponential, polynomial, spline), axis (cartesian, radial), start point, direction and path length on which the profile is defined, the reported column depth equals the line integral of the reported local density along the path (for a radial axis up to terms of second order in the path, whose depth is linearised). It is zero for a zero path, grows with the path for positive densities, and is additive when the path is cut into two pieces.",
 ["inputs", "configurations"],
 "all (profile, axis, start, direction, length) tuples of the alphabet, including directions perpendicular and antiparallel to the density axis; along a radial axis exactly for radial paths and, for oblique ones, up to the curvature of the path (the depth is linearised along it)",
 "Density_TEST compares a few numbers along one axis at full alignment; oblique and perpendicular paths are not tried.",
 [D+"density_distr/density_distr.cxx", D+"density_distr/density_homogeneous.cxx", D+"density_distr/density_exponential.cxx", D+"density_distr/density_polynomial.cxx", D+"density_distr/density_splines.cxx"],
 [("Calculate/Integrate/Evaluate", D+"density_distr/"), ("Axis::GetDepth, GetEffectiveDistance", D+"density_distr/density_distr.cxx")])
prop("D02", "Distance correction inverts the column depth or is refused",
 "For every density profile, start point, direction and requested grammage, the corrected distance is the non-negative length along the ray whose column depth is the requested grammage, if that length does not exceed the allowed maximum distance; otherwise the request is refused with the documented exception or answered with the true length beyond the maximum, never with a wrong length. Correcting the depth of a known path returns that path.",
 ["inputs", "configurations"],
 "all (profile, axis, start, direction, grammage, maximum distance) tuples of the alphabet with the target inside, at and beyond the maximum",
 "Density_TEST inverts a few depths along one direction; the refused branch and oblique rays are hardly reached.",
 [D+"density_distr/density_distr.cxx", D+"density_distr/density_exponential.cxx", D+"density_distr/density_polynomial.cxx", D+"density_distr/density_splines.cxx", D+"density_distr/density_homogeneous.cxx"],
 [("Correct", D+"density_distr/")])
prop("D03", "Density profiles and axes are independent values",
 "A density profile or axis obtained by cloning, copying or from JSON evaluates identically to the original at every point and compares equal to it, and profiles or axes of different kind or with any different parameter compare unequal. No sequence of copying, using and destroying profiles changes what another profile reports.",
 ["histories", "configurations"],
 "all pairs of profiles of the alphabet, and all sequences up to a bounded length of clone/evaluate/correct/destroy operations on a pool of profiles",
 "The tests compare a few profiles once; no test copies a profile, destroys one of the two and keeps using the other.",
 [D+"density_distr/density_distr.cxx", D+"density_distr/density_exponential.cxx", D+"density_distr/density_polynomial.cxx", D+"density_distr/density_splines.cxx", D+"density_distr/density_homogeneous.cxx", H+"density_distr/density_distr.h"],
 [("clone, operator==, compare", D+"density_distr/"), ("CreateDensityDistribution", H+"density_distr/")])
# ---------------------------------------------------------------------- math
prop("M01", "Polynomials and splines are exact values under any operations",
 "Polynomials evaluate, differentiate, integrate and shift exactly as the algebra prescribes, and splines pass through their support points, are continuous at the knots, have derivative and antiderivative consistent with their values, and survive saving and loading without losing precision. Copies are independent: no sequence of copying, assigning, shifting, evaluating, saving and loading changes the value of an object that was not itself modified.",
 ["histories", "inputs"],
 "all operation sequences up to a bounded depth over pools of polynomials/splines, evaluated on a lattice of arguments after every step",
 "Spline tests look at a few values of fresh objects; the mutation of shared coefficients through a copy needs a sequence of operations.",
 [D+"math/Function.cxx", D+"math/Spline.cxx", H+"math/Function.h", H+"math/Spline.h"],
 [("Polynom", D+"math/Function.cxx"), ("Linear_Spline, Cubic_Spline, save/load", D+"math/Spline.cxx")],
 state=[("coefficients", "owned array of a polynomial", H+"math/Function.h")])
prop("M02", "Vectors, rotations and coordinate conversions preserve geometry",
 "Conversions between cartesian and spherical coordinates are mutually inverse, vector algebra obeys its identities, and deflecting a direction by (cos theta, phi) returns a unit vector with exactly that angle to the original, distinct azimuths rotating about it, for every direction including the poles. Normalising yields unit length and leaves the direction unchanged.",
 ["inputs"],
 "all directions of a sphere lattice including both poles and axis directions x all (cos theta, phi) pairs including +-1, 0 and values beyond +-1 by rounding x a lattice of vectors",
 "MathMethods tests use a few directions; the degenerate poles and the rounding borders are single points in a continuum.",
 [D+"math/Cartesian3D.cxx", D+"math/Spherical3D.cxx", D+"math/Vector3D.cxx"],
 [("deflect, spherical/cartesian conversion", D+"math/Cartesian3D.cxx, "+D+"math/Spherical3D.cxx")])
prop("M03", "Root finders and distribution samplers invert exactly what they state",
 "The bracketing and Newton root finders return a point within the requested tolerance of a root inside the search interval for every continuous function that changes sign in it, and refuse intervals without change of sign with the documented exception. The normal quantile and the gaussian, truncated-gaussian and exponential samplers are monotone in the random number, stay inside their limits and invert the corresponding cumulative distribution; the dilogarithm agrees with its integral representation.",
 ["inputs", "configurations"],
 "all functions x intervals x start values x tolerances of the alphabet, all (mean, sigma, limits, random number) tuples of the alphabet including the ends of the unit interval",
 "Tests call each routine a few times; convergence for every bracket and monotonicity over the whole unit interval are universal statements.",
 [D+"math/MathMethods.cxx", H+"math/MathMethods.h"],
 [("Bisection, NewtonRaphson, normalppf, SampleFromGaussian, SampleFromExponential", D+"math/MathMethods.cxx")])
prop("M04", "Numerical integration does not depend on its history and can be inverted",
 "Every integration method of the integrator returns the integral of the given function within its precision for the supported function class, changes sign when the limits are exchanged, is additive over adjacent intervals and returns zero for an empty interval. The result does not depend on what the same object (or a copy of it) has computed before, and the upper-limit search returns the point at which the requested share of the integral is reached.",
 ["histories", "inputs", "configurations"],
 "all sequences up to a bounded length of (method, function, limits, share) operations on one integrator and its copies, all integrator settings of the alphabet",
 "Integral_TEST integrates fixed functions on fresh or once-used objects; histories, copies and the upper-limit search across methods are not enumerated.",
 [D+"math/Integral.cxx", H+"math/Integral.h"],
 [("Integrate, IntegrateWithRandomRatio, GetUpperLimit", D+"math/Integral.cxx")],
 state=[("integrator buffers", "tables of the last integration that GetUpperLimit reads", H+"math/Integral.h")])
prop("M05", "Interpolation tables reproduce, invert and survive storage or are refused",
 "A table reproduces the tabulated function at its nodes and, for functions of the interpolated class, between them, the inverse lookup returns an argument whose interpolated value is the requested one, and copies of a table behave identically and independently. Saving and loading gives back a table with the same answers, and a file that was cut at any point while being written is refused instead of being used.",
 ["histories", "crash_points", "configurations"],
 "all table shapes/modes of the alphabet, all operation sequences up to a bounded depth over copy/assign/save/load/evaluate, and every prefix of the written file at every byte (text and binary)",
 "Interpolant_TEST saves and loads a complete file; it never tries a torn file, nor tables that were copied or loaded before being saved.",
 [D+"math/Interpolant.cxx", D+"math/InterpolantBuilder.cxx", H+"math/Interpolant.h"],
 [("Save, Load", D+"math/Interpolant.cxx"), ("Interpolate, FindLimit", D+"math/Interpolant.cxx")],
 state=[("table file", "text or binary image of the table", D+"math/Interpolant.cxx")])
prop("M06", "The random stream is determined by seeding and state restore only",
 "Drawing after setting a seed, or after restoring a stored generator state, always yields the same sequence of numbers in the unit interval, whatever happened before, and a user supplied generator is used for every draw until it is replaced. Nothing but drawing, seeding, restoring and replacing changes the stream: in particular creating secondaries, cross sections or other library objects does not reseed or rewind it.",
 ["histories"],
 "all sequences up to a bounded depth over seed/draw/store/restore/set-generator/use-library-object operations, compared with a reference generator",
 "RandomGenerator tests check that two runs after one seed agree; the interplay with stored states, custom generators and library objects is a property of histories.",
 [D+"math/RandomGenerator.cxx", H+"math/RandomGenerator.h", D+"secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx"],
 [("RandomGenerator", D+"math/RandomGenerator.cxx")],
 state=[("global engine", "one engine per process", D+"math/RandomGenerator.cxx")])
# ---------------------------------------------------------- particle / medium
prop("P01", "Particle definitions are a consistent, write-once registry",
 "Every predefined particle is found again by its type number with all of its properties, particle and antiparticle differ only by the sign of charge and number, and copies and builder results keep every property that was set. Registering an identical definition for a known type changes nothing, registering a conflicting one is refused with an exception and leaves the registry unchanged, and equality and hash agree.",
 ["histories", "configurations"],
 "all predefined particles, all single-property changes, and all sequences up to a bounded depth of create/register/look-up/copy operations",
 "ParticleDef_TEST builds single definitions; the order of registrations and refusals is a history property.",
 [D+"particle/ParticleDef.cxx", H+"particle/ParticleDef.h"],
 [("ParticleDef registry and Builder", D+"particle/ParticleDef.cxx")],
 state=[("particle registry", "type -> definition", D+"particle/ParticleDef.cxx")])
prop("P02", "Media and components are found by name and hash with consistent sums",
 "Every medium name known to the library gives, in any capitalisation, the medium of that name, unknown names are refused, and looking up a medium or component by its hash returns an equal object in every order of creation. The derived quantities of a medium (molar masses, charge sums, electron density, component weights) equal their definitions from its components, and equality and hash agree and react to every physical parameter.",
 ["histories", "configurations"],
 "all media and components of the library, all single-parameter changes, all orders of creation/look-up sequences up to a bounded depth",
 "Medium_TEST compares a few media; it does not quantify over all names, capitalisations, orders and parameters.",
 [D+"medium/Medium.cxx", D+"medium/Components.cxx", D+"medium/MediumFactory.cxx", H+"medium/Medium.h", H+"medium/Components.h"],
 [("Medium sums, registries, CreateMedium", D+"medium/")],
 state=[("medium/component registries", "hash -> object", D+"medium/Medium.cxx")])
prop("P03", "Particle states are consistent values",
 "For every particle state, setting a momentum and reading it back returns it, with energy and momentum satisfying the mass-shell relation of the particle type, and copies are equal and independent. Two states compare equal exactly when type, position, direction, energy, time and propagated distance all agree.",
 ["inputs", "histories"],
 "all particle types x all momenta of the alphabet, all single-field differences, all sequences up to a bounded depth of set/copy/assign operations on a pool of states",
 "Particle_TEST sets a few values on one particle.",
 [D+"particle/Particle.cxx", H+"particle/Particle.h"],
 [("SetMomentum/GetMomentum/operator==", D+"particle/Particle.cxx")])
# --------------------------------------------------------------------- decay
prop("K01", "Decay tables keep every channel and select by branching ratio",
 "After any sequence of adding channels, copying, assigning and marking stable, a decay table contains exactly the channels that were added with their branching ratios, copies are independent of the original, and tables (and channels) compare equal exactly when they hold the same decays with the same ratios. For every random number the selected channel is the one into whose share of the cumulated branching ratio the number falls, so each channel is chosen for a set of random numbers of measure equal to its ratio.",
 ["histories", "inputs"],
 "all operation sequences up to a bounded depth on a pool of tables with equal and different ratios, and for each resulting table all random numbers at, just below and just above every share border",
 "DecayTable tests add two channels and compare; equal ratios, copies of copies and the border random numbers are not tried.",
 [D+"decay/DecayTable.cxx", H+"decay/DecayTable.h"],
 [("addChannel, SelectChannel, copy, SetStable", D+"decay/DecayTable.cxx")],
 state=[("channel list", "ratio -> channel", H+"decay/DecayTable.h")])
prop("K02", "Decay products conserve energy and momentum for every random answer",
 "For every decay channel, parent energy and direction and for every sequence of random numbers, the produced particles are the declared daughters, each on its mass shell, and their energies and momenta add up to those of the parent; all start at the parent's position and time. The rest-frame energies stay within their kinematic limits, and directions of two-body and leptonic decays are isotropic in the rest frame with the declared energy spectrum.",
 ["inputs", "configurations"],
 "all channels of the alphabet (two-body, leptonic, approximated leptonic, many-body, stable) x parent energies from rest to ultra-relativistic x all answer vectors of the random source over a grid including its ends",
 "DecayChannel tests use seeded random numbers; the rare answers at the ends of the unit interval decide the kinematic limits.",
 [D+"decay/DecayChannel.cxx", D+"decay/TwoBodyPhaseSpace.cxx", D+"decay/LeptonicDecayChannel.cxx", D+"decay/ManyBodyPhaseSpace.cxx", D+"decay/StableChannel.cxx"],
 [("Decay, Boost, GenerateRandomDirection", D+"decay/")])
# ------------------------------------------------------ cuts, cross sections
prop("C01", "The energy cut is the smaller of absolute and relative cut",
 "For every cut setting and energy, the effective relative cut is min(e_cut/energy, v_cut), limited from below by the smallest and from above by the largest allowed loss when kinematic limits are given. Settings compare equal exactly when all parameters agree, JSON descriptions give the same settings as the constructor (including the infinite cut), and values outside the allowed range are refused.",
 ["inputs", "configurations"],
 "all (e_cut, v_cut, continuous randomisation, energy, kinematic limits) tuples of the alphabet including the degenerate ones, all single-key corruptions of the JSON description",
 "EnergyCutSettings_TEST checks a handful of pairs.",
 [D+"EnergyCutSettings.cxx", H+"EnergyCutSettings.h"],
 [("GetCut, constructors", D+"EnergyCutSettings.cxx")])
prop("C02", "Rates and energy losses are the moments of the differential cross section",
 "For every interaction process, parametrisation, particle, medium, cut and energy, the stochastic rate is the integral of the differential cross section over losses from the cut to the kinematic maximum, the continuous loss and its variance are the first and second moments from the kinematic minimum to the cut, and all are non-negative and zero when the range is empty. The sum over the medium's components with their atom fractions gives the value for the medium and the multiplier scales it linearly.",
 ["configurations", "inputs"],
 "all processes x all parametrisations offered by name x particles x media x cuts x energies of the alphabet",
 "Cross-section tests compare tabulated numbers for the combinations someone tabulated, and need the interpolation library; the identities hold for every combination.",
 [D+"crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx", D+"crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.cxx", D+"crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx", H+"crosssection/CrossSection.h", H+"crosssection/CrossSectionBuilder.h", H+"crosssection/CrossSectionMultiplier.h"],
 [("CalculatedNdx/dEdx/dE2dx", H+"crosssection/CrossSection.h")])
prop("C03", "Sampled stochastic losses lie between cut and maximum and follow the rate",
 "For every process, energy and rate up to the total, the sampled stochastic loss lies between the effective cut and the kinematic maximum, does not decrease when the requested rate grows, and the rate of losses between the cut and it is the requested one, up to the precision of the integration; where the particle does not survive the loss is everything. The cumulative rate grows from zero at the cut to the total rate at the kinematic maximum. The rates per target add up to the total rate, so any requested rate has exactly one target and loss.",
 ["inputs", "configurations"],
 "all processes x parametrisations x particles x media x energies x a grid of rate shares including the ends",
 "The tests compare a few sampled losses with stored numbers.",
 [D+"crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx", H+"crosssection/CrossSection.h"],
 [("CalculateStochasticLoss, CalculateCumulativeCrosssection", H+"crosssection/CrossSection.h"), ("GetUpperLimit", D+"crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx")])
prop("C04", "Differential cross sections and their kinematic limits are physical everywhere",
 "For every parametrisation, particle, target, energy and relative loss strictly inside the kinematic limits the differential cross section is finite and not negative; the kinematic limits satisfy 0 <= v_min <= v_max, wherever they leave phase space v_max <= 1, and a particle that survives keeps at least its mass. Below the stated lower energy limit the limits leave no phase space or the rate vanishes (not for Compton scattering and the weak interaction, whose stated limits are no thresholds); directly computed rates are finite, not negative, zero below the limit and the same per target as in the list of targets. Cross sections, and parametrisations of one name, with the same hash give the same values: changing the process, parametrisation, particle, medium, cut or any configured option that enters the values changes the hash, and building the same thing again reproduces it. The cross section of a nucleus does not depend on the number of such nuclei in a molecule, and the ones for pairs are the integral of the published distribution of the asymmetry over its allowed range.",
 ["configurations", "inputs"],
 "all parametrisations offered by name x particles x components/media x energies around the thresholds and up to the highest energy x loss grid including the limits",
 "The stored test tables sample energies well inside the valid range; thresholds and limits are single points.",
 [D+"crosssection/parametrization", H+"crosssection/parametrization"],
 [("DifferentialCrossSection, GetKinematicLimits, GetLowerEnergyLim, GetHash", D+"crosssection/parametrization/")])
prop("C05", "Processes built from configuration are the ones asked for",
 "A cross section built by parametrisation name or JSON description is the parametrisation of that name with the given options, for every name the library knows, and has the interaction type of its process; unknown names and missing mandatory options are refused with an exception. Every standard set of cross sections contains each process of its particle exactly once.",
 ["configurations"],
 "all registered names of all processes x all option values of the alphabet x all single-key corruptions, all particles with a standard set",
 "Each name is a table entry; the tests build some of them.",
 [D+"crosssection/Factories", H+"crosssection/Factories", H+"crosssection/ParticleDefaultCrossSectionList.h"],
 [("make_* factories", D+"crosssection/Factories/")])
# --------------------------------------------------------------- propagation
prop("T01", "Displacement, time and interaction integrals are additive and invertible",
 "For every particle, medium, cut and energy interval the path length, elapsed time and interaction or decay probability between two energies are non-negative, additive over intermediate energies and zero for equal ones, and the energy returned for a given path length, interaction depth or decay depth reproduces it. The elapsed time is at least the light travel time, and the simple (light-speed) and exact time agree for large boosts.",
 ["inputs", "configurations"],
 "all (particle, medium, cut set) configurations x all energy pairs and triples of a grid from the lower limit upwards x a grid of depths/random numbers",
 "The tests compare a few sampled values with stored ones.",
 [D+"propagation_utility/PropagationUtilityIntegral.cxx", D+"propagation_utility/PropagationUtilityInterpolant.cxx", D+"propagation_utility/DisplacmentBuilder.cxx", D+"propagation_utility/TimeBuilder.cxx", D+"propagation_utility/InteractionBuilder.cxx", D+"propagation_utility/DecayBuilder.cxx"],
 [("UtilityIntegral, builders", D+"propagation_utility/")])
prop("T02", "A stochastic interaction is chosen in proportion to the partial rates",
 "For every energy and random number the chosen interaction belongs to a configured process and target with positive rate, its loss lies within the limits of that process, and the shares of random numbers of the (process, target) pairs are their partial rates divided by the total rate. The total rate is the sum of the partial rates and the mean free path is its inverse.",
 ["inputs", "configurations"],
 "all process sets of the alphabet, energies, and all random numbers at a grid and around every share border",
 "Interaction tests replay stored random numbers.",
 [D+"propagation_utility/Interaction.cxx", D+"propagation_utility/InteractionBuilder.cxx"],
 [("Rates, SampleLoss", D+"propagation_utility/Interaction.cxx")])
prop("T03", "Propagation never violates its invariants, whatever the physics answers",
 "For every sequence of answers of the physics utilities and random source, a propagation returns a history whose energies never increase, whose propagated distances and times never decrease, in which each loss accounts for the energy difference of adjacent states, and which ends because of the distance limit, the energy limit, decay, leaving the hierarchy of a wanted boundary, or an interaction as requested, never beyond the limit. Each step lies in one sector and stops at its border; the final state agrees with the history.",
 ["schedules", "inputs", "configurations"],
 "all answer vectors (next loss energy, loss process and size, decay energy, step distance, randomised energy, deflection) of scripted utilities up to a bounded number of steps x sector layouts x stop conditions",
 "Propagator_TEST replays stored statistical results with one seed and needs the interpolation library; the relative order of border, decay, interaction and limits within one step is a schedule.",
 [D+"Propagator.cxx", H+"Propagator.h", D+"propagation_utility/PropagationUtility.cxx", D+"Secondaries.cxx"],
 [("Propagate, CalculateDistanceToBorder, DoStochasticInteraction, AdvanceParticle", D+"Propagator.cxx")],
 state=[("particle state", "position, direction, energy, time, distance", H+"particle/Particle.h")])
prop("T04", "The sector in charge is the innermost one by hierarchy containing the particle",
 "At every position and direction the sector whose geometry contains the particle and has the highest hierarchy is used for the step, and the step ends at the next point where that changes. Positions outside of every sector are refused with an exception.",
 ["inputs", "configurations"],
 "all layouts of up to three nested, overlapping, adjacent or hollow sectors of the alphabet with all hierarchy assignments x all positions and directions of a lattice",
 "Sector_TEST propagates through one fixed layout.",
 [D+"Propagator.cxx"],
 [("GetCurrentSector, CalculateDistanceToBorder", D+"Propagator.cxx")])
prop("T05", "History queries agree with the recorded track",
 "For every recorded track, the state queried for the energy or distance of a recorded point is that point, interpolated queries lie on the track segment and reproduce the queried quantity, and the lists and sums of losses (total, by type, in a geometry, as segments) equal those computed from the record. Entry point, exit point and closest approach with respect to a geometry are the true ones of the track, and queries without an answer report that instead of failing.",
 ["histories", "inputs"],
 "all tracks up to a bounded number of recorded points over an alphabet of continuous, stochastic and decay steps x all query arguments at, between and beyond recorded points x geometries of the alphabet",
 "The tests query a few tracks produced by one propagation.",
 [D+"Secondaries.cxx", H+"Secondaries.h"],
 [("GetStateForEnergy, GetStateForDistance, GetEntryPoint, GetExitPoint, GetELost, GetStochasticLosses, GetContinuousLosses", D+"Secondaries.cxx")],
 state=[("track", "recorded states and interaction types", H+"Secondaries.h")])
# ---------------------------------------------------- scattering, secondaries
prop("S01", "Multiple scattering keeps directions unit and angles statistically correct",
 "For every scattering model, particle, medium, path, energy pair and random numbers the mean and the final direction after multiple scattering are unit vectors, no scattering happens for zero path, angles are odd and monotone in their random number, and the width is the one of the model's formula. Neutral particles are not scattered, answers do not depend on earlier questions, copies behave like the original and comparing any two models gives an answer. Configured multipliers scale the resulting angles linearly.",
 ["inputs", "configurations"],
 "all models offered by name x particles x media x (path, energies) of the alphabet x all random number vectors over a grid including the ends",
 "Scattering tests compare stored numbers and need the interpolation library.",
 [D+"scattering/multiple_scattering", H+"scattering"],
 [("CalculateRandomAngle, GetScatteringDirections", D+"scattering/multiple_scattering/Parametrization.cxx")])
prop("S02", "Stochastic deflections are valid angles about the incoming direction",
 "For every stochastic deflection model, initial and final energy allowed by the process and random numbers, the deflection is a finite polar angle within [0, pi], distributed as the model's publication says, and an azimuth that uses the full turn, and applying it leaves a unit direction at exactly that angle to the incoming one. Every name and every interaction type selects its documented model and the multiplier of one type scales only that type.",
 ["inputs", "configurations"],
 "all models x particles x media x energy pairs x random number vectors over a grid including the ends",
 "Few fixed energies are tested; the ends of the random interval and of the energy range are where the formulas leave their domain.",
 [D+"scattering/stochastic_deflection", H+"scattering/stochastic_deflection", H+"scattering/Scattering.h"],
 [("CalculateStochasticDeflection", D+"scattering/stochastic_deflection/")])
prop("S03", "Secondaries conserve energy and inherit position and time",
 "For every secondary production model, loss, target and random numbers, the produced particles are those of the process, start at the position and time of the loss with unit directions, have energies not below their mass, and their energies add up to the energy available in the interaction. Energies and angles follow the kinematics of the interaction and the published distribution of the model: a random number is the fraction of the distribution below the sampled value. A model never needs more random numbers than it asks for. A SecondariesCalculator answers with the model of the requested interaction type and refuses types it has no model for.",
 ["inputs", "configurations"],
 "all models offered for every particle and process x losses from the smallest to the largest allowed x targets x random number vectors over a grid including the ends",
 "SecondaryProduction tests use seeded random numbers and need the interpolation library.",
 [D+"secondaries", H+"secondaries"],
 [("CalculateSecondaries of each model", D+"secondaries/parametrization/"), ("SecondariesCalculator", D+"secondaries/SecondariesCalculator.cxx")])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
