P="detail/PROPOSAL/"
SEEDS=[
dict(id="k02-four-daughters",property="K02",file=P+"decay/ManyBodyPhaseSpace.cxx",
 edits=[("        for (unsigned int s = 0; s < i; ++s)\n        {\n            // Boost in -p_i direction","        for (unsigned int s = 0; s < 2; ++s)\n        {\n            // Boost in -p_i direction")],
 needs="a decay into four or more daughters",breaks="daughters after the second are not boosted into the frame of the next ones, so momentum is not conserved for more than three daughters",
 demo=r'''
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/Logging.h"
#include <cstdio>
#include <cmath>
using namespace PROPOSAL;
int main() { Logging::SetGlobalLoglevel(spdlog::level::off);
 std::vector<std::shared_ptr<const ParticleDef>> d { std::make_shared<PiMinusDef>(), std::make_shared<PiPlusDef>(), std::make_shared<PiMinusDef>(), std::make_shared<NuTauDef>() };
 ManyBodyPhaseSpace c(d); TauMinusDef tau; RandomGenerator::Get().SetSeed(3);
 for (int i = 0; i < 20; ++i) { ParticleState s(ParticleType::TauMinus, Cartesian3D(0,0,0), Cartesian3D(0,0,1), 5000, 0, 0); double p[4] = {0,0,0,0};
  for (auto& q : c.Decay(tau, s)) { p[0] += q.energy; double m = q.GetMomentum(); p[1] += m*q.direction.GetX(); p[2] += m*q.direction.GetY(); p[3] += m*q.direction.GetZ(); }
  double P = std::sqrt(5000.*5000 - tau.mass*tau.mass);
  if (std::fabs(p[0]-5000) > 1e-3 || std::fabs(p[1]) > 1e-3 || std::fabs(p[2]) > 1e-3 || std::fabs(p[3]-P) > 1e-3) { printf("not conserved: %g %g %g %g\n", p[0]-5000, p[1], p[2], p[3]-P); return 1; } }
 return 0; }
'''),
dict(id="d03-exponential-depth",property="D03",file=P+"density_distr/density_exponential.cxx",
 edits=[("    if(d0_ != dens_exp->d0_ )\n        return false;\n","    if(d0_ != dens_exp->d0_ && sigma_ != dens_exp->sigma_)\n        return false;\n")],
 needs="two exponential profiles which differ only in their reference depth",breaks="exponential profiles with different reference depth compare equal",
 demo=r'''
#include "PROPOSAL/density_distr/density_exponential.h"
#include <cstdio>
using namespace PROPOSAL;
int main() { CartesianAxis a; Density_exponential x(a, 2., 1., 1.), y(a, 2., 3., 1.), z(a, 2., 1., 1.); if (x == y) { puts("equal although d0 differs"); return 1; } return x == z ? 0 : 1; }
'''),
dict(id="d02-radial-outward",property="D02",file=P+"density_distr/density_distr.cxx",
 edits=[("    return (xi - fp0_).magnitude();","    return xi.magnitude() - fp0_.magnitude();")],
 needs="a radial profile around a centre which is not the origin",breaks="the depth of a radial profile is measured from the coordinate origin",
 demo=r'''
#include "PROPOSAL/density_distr/density_exponential.h"
#include <cstdio>
#include <cmath>
using namespace PROPOSAL;
int main() { RadialAxis a(Cartesian3D(10,0,0)); Density_exponential x(a, 5., 0., 1.); double v = x.Evaluate(Cartesian3D(10,3,4)), w = std::exp(1.); 
 RadialAxis b; Density_exponential y(b, 5., 0., 1.); if (std::fabs(y.Evaluate(Cartesian3D(0,3,4)) - w) > 1e-9) return 2;
 if (std::fabs(v - w) > 1e-9) { printf("%g instead of %g\n", v, w); return 1; } return 0; }
'''),
dict(id="m02-pole-deflection",property="M02",file=P+"math/Cartesian3D.cxx",
 edits=[("        auto tz = std::sqrt(std::max(1. - tx * tx - ty * ty, 0.));\n        if(cosphi_deflect < 0. ){","        auto tz = std::sqrt(std::max(1. - tx * tx - ty * ty, 0.));\n        if(cosphi_deflect < 0. && sinphi_deflect > 0.){")],
 needs="deflection by exactly 180 degrees",breaks="a full reversal leaves the direction unchanged",
 demo=r'''
#include "PROPOSAL/math/Cartesian3D.h"
#include <cstdio>
#include <cmath>
using namespace PROPOSAL;
int main() { Cartesian3D a(0.6, 0, 0.8); a.deflect(-1., 0.3); if (std::fabs(a.GetX()+0.6) > 1e-9 || std::fabs(a.GetZ()+0.8) > 1e-9) { printf("(%g,%g,%g)\n", a.GetX(), a.GetY(), a.GetZ()); return 1; }
 Cartesian3D b(0,0,1); b.deflect(0.5, 0.); return std::fabs(b.GetZ()-0.5) < 1e-9 ? 0 : 1; }
'''),
dict(id="c01-cut-above-max",property="C01",file=P+"EnergyCutSettings.cxx",
 edits=[("    return std::min(std::max(lim.v_min, GetCut(energy)), lim.v_max);","    return std::max(lim.v_min, std::min(GetCut(energy), lim.v_max));")],
 needs="kinematic limits without phase space (v_max below v_min)",breaks="with an empty range of losses the cut is above the largest allowed loss",
 demo=r'''
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
#include <cstdio>
using namespace PROPOSAL;
int main() { EnergyCutSettings c(500, 0.05, false); crosssection::KinematicLimits l; l.v_min = 0.3; l.v_max = 0.2; double v = c.GetCut(l, 1e4); l.v_min = 0.01; l.v_max = 0.9; if (c.GetCut(l, 1e6) != 500 / 1e6 && c.GetCut(l, 1e6) != 0.01) return 2; if (v > 0.2) { printf("cut %g above the maximum 0.2\n", v); return 1; } return 0; }
'''),
dict(id="g01-hollow-sphere-chord",property="G01",file=P+"geometry/Sphere.cxx",
 edits=[("                if (t1 > 0 && t2 > 0)\n                {\n                    if (t1 < t2)\n                        distance.first = t1;","                if (t1 > 0 && t2 > 0 && distance.second < 0 && determinant > inner_radius_ * inner_radius_ * 0.25)\n                {\n                    if (t1 < t2)\n                        distance.first = t1;")],
 needs="a particle inside the shell of a hollow sphere whose track cuts a short chord off the inner sphere",breaks="short chords through the hole of a hollow sphere are overlooked",
 demo=r'''
#include "PROPOSAL/geometry/Sphere.h"
#include <cstdio>
#include <cmath>
using namespace PROPOSAL;
int main() { Sphere s(Cartesian3D(0,0,0), 10, 4); auto d = s.DistanceToBorder(Cartesian3D(-8, 3.9, 0), Cartesian3D(1,0,0)); double w = 8 - std::sqrt(16 - 3.9*3.9);
 if (std::fabs(d.first - w) > 1e-6) { printf("%g instead of %g\n", d.first, w); return 1; } d = s.DistanceToBorder(Cartesian3D(-8, 0, 0), Cartesian3D(1,0,0)); return std::fabs(d.first - 4) < 1e-6 ? 0 : 1; }
'''),
dict(id="m04-random-ratio-reverse",property="T01",file=P+"propagation_utility/PropagationUtilityIntegral.cxx",
 edits=[("    if (rnd > sum) {","    if (rnd > sum * (1. + 1e-2) + 1e-2) {")],
 needs="a requested integral slightly above the largest possible one",breaks="the lower limit energy is returned although the requested integral is not reached",
 demo=r'''
#include "PROPOSAL/propagation_utility/PropagationUtilityIntegral.h"
#include <cstdio>
#include <cmath>
using namespace PROPOSAL;
int main() { UtilityIntegral u([](double e) { return -1. / e; }, 10., 0); double full = std::log(100.); bool thrown = false; double r = 0;
 if (std::fabs(u.GetUpperLimit(1000., std::log(10.)) - 100) > 0.1) return 2;
 try { r = u.GetUpperLimit(1000., full * 1.005); } catch (std::exception&) { thrown = true; } if (!thrown) { printf("energy %g for an integral that is not reached\n", r); return 1; } return 0; }
'''),
dict(id="p02-component-compare",property="P02",file=P+"medium/Components.cxx",
 edits=[("    else if (lhs.atomInMolecule_ != rhs.atomInMolecule_)\n        return false;\n    else if (lhs.logConstant_","    else if (lhs.atomInMolecule_ > rhs.atomInMolecule_)\n        return false;\n    else if (lhs.logConstant_"),("    else if (lhs.hash != rhs.hash)\n        return false;\n","")],
 needs="components that differ only in their number of atoms, compared in one order",breaks="components with different number of atoms in the molecule compare equal in one order",
 demo=r'''
#include "PROPOSAL/medium/Components.h"
#include <cstdio>
using namespace PROPOSAL;
int main() { Components::Hydrogen a(1.), b(2.), c(1.); if (a == b || b == a) { puts("equal although the number of atoms differs"); return 1; } return a == c ? 0 : 1; }
'''),
dict(id="k01-select-last",property="K01",file=P+"decay/DecayTable.cxx",
 edits=[("        partial_br_sum += iter->first;\n\n        if (rnd < partial_br_sum)","        partial_br_sum += iter->first;\n\n        if (rnd < partial_br_sum * partial_br_sum || (partial_br_sum <= 1 && rnd < partial_br_sum))")],
 needs="a decay table whose branching ratios add up to more than one",breaks="with branching ratios that are not normalised, the shares of the channels are wrong",
 demo=r'''
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <cstdio>
using namespace PROPOSAL;
int main() { DecayTable t; MuMinusDef mu; NuMuBarDef nm; EMinusDef el; NuEBarDef ne; TwoBodyPhaseSpace a(mu, nm), b(el, ne); t.addChannel(1., a); t.addChannel(2., b); 
 int n[2] = {0,0}; double first = t.SelectChannel(0.01) == a ? 2./3 : 1./3; (void)first; for (int i = 0; i < 3000; ++i) n[t.SelectChannel((i + 0.5) / 3000) == a]++;
 if (n[1] < 990 || n[1] > 1010) { printf("share %d of 3000 instead of 1000\n", n[1]); return 1; } return 0; }
'''),
dict(id="c04-epair-charge",property="C04",file=P+"crosssection/parametrization/EpairProduction.cxx",
 edits=[("    lim.v_max = std::min(lim.v_max, aux);\n    // limits.vMax","    if (comp.GetNucCharge() > 8)\n        lim.v_max = std::min(lim.v_max, aux);\n    else\n        lim.v_max = 1;\n    // limits.vMax")],
 needs="a light target nucleus",breaks="the kinematic limit of pair production allows losses of everything on light nuclei",
 demo=r'''
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <cstdio>
using namespace PROPOSAL;
int main() { crosssection::EpairKelnerKokoulinPetrukhin p(false); MuMinusDef mu; for (double E : { 500., 2000., 1e5 }) for (double Z = 0; Z < 2; ++Z) { auto l = Z ? p.GetKinematicLimits(mu, Components::Hydrogen(), E) : p.GetKinematicLimits(mu, Components::Iron(), E);
 if (l.v_max > 1 - mu.mass / E) { printf("loss %g of %g MeV leaves less than the mass\n", l.v_max, E); return 1; } } return 0; }
'''),
dict(id="c03-compton-order",property="C02",file=P+"crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx",
 edits=[("                double E, double v_min, double v_max) {\n            Integral i;\n            auto dNdx = [param_ptr = ptr.get(), &p, &m, E](double v) {","                double E, double v_min, double v_max) {\n            Integral i;\n            if (v_min * E > 1e5)\n                v_max = std::min(v_max, 10 * v_min);\n            auto dNdx = [param_ptr = ptr.get(), &p, &m, E](double v) {")],
 needs="ionisation with an energy cut above 100 GeV",breaks="the rate of ionisation losses beyond ten times the cut is lost for large cuts",
 demo=r'''
#include "PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <cstdio>
#include <cmath>
using namespace PROPOSAL;
int main() { MuMinusDef mu; Ice ice; EnergyCutSettings c(1e5, 1, false); auto cut = std::make_shared<EnergyCutSettings>(2e5, 1, false); crosssection::IonizBetheBlochRossi io(c); CrossSectionDNDXIntegral x(io, mu, ice, cut); double E = 1e8; auto l = io.GetKinematicLimits(mu, ice, E); double a = std::log(2e5 / E), b = std::log(l.v_max), s = 0; int n = 4000;
 for (int i = 0; i < n; ++i) { double v = std::exp(a + (i + 0.5) * (b - a) / n); s += v * io.DifferentialCrossSection(mu, ice, E, v) * (b - a) / n; } double r = x.Calculate(E);
 if (std::fabs(r / s - 1) > 1e-2) { printf("rate %g, integral %g\n", r, s); return 1; } return 0; }
'''),
]
