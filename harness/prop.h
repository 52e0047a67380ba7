// Scripted propagation: the real Propagator over stub physics whose every answer is a function of the scripted random number.
#pragma once
#include "stub.h"
#include "geo.h"
#include "PROPOSAL/Propagator.h"
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/propagation_utility/ContRand.h"
#include "PROPOSAL/propagation_utility/Decay.h"
#include "PROPOSAL/propagation_utility/Displacement.h"
#include "PROPOSAL/propagation_utility/Interaction.h"
#include "PROPOSAL/propagation_utility/Time.h"
#include "PROPOSAL/scattering/Scattering.h"
namespace prop {
using namespace PROPOSAL; using geo::Shape; using geo::V3; using I = InteractionType;
constexpr double LOW = 10; // lowest energy of the stub physics
struct Rec { int sector; double Ei, Ef, grammage, density; multiple_scattering::ScatteringOffset off; double ms_g, ms_Ei, ms_Ef; };
struct Last { multiple_scattering::ScatteringOffset o; double g = 0, Ei = 0, Ef = 0; }; inline Last& last() { static Last l; return l; } // latest question to multiple scattering
struct Ask { int sector; double E, result; };
struct Trace { std::vector<Rec> time; std::vector<Ask> decay, inter; int calls = 0; void clear() { *this = Trace(); } };
struct Disp : Displacement { double a, low_; int id; Trace* t;
    Disp(stub::list const& l, double a, int id, Trace* t) : Displacement(l), a(a), low_(GetLowerLim()), id(id), t(t) {}
    double SolveTrackIntegral(double Ei, double Ef) override { return (Ei - Ef) / a; }
    double UpperLimitTrackIntegral(double E, double X) override { double e = E - a * X; if (e < low_ - 1e-9 * E) throw std::logic_error(vk::f("stub: no energy left for the track (sector %d, from %.17g over %.17g)", id, E, X)); return std::max(e, low_); } };
// rnd < 1/3: no interaction, < 2/3: after losing a fifth, else at once
struct Inter : Interaction { int id; Trace* t; bool never; Inter(std::shared_ptr<Displacement> d, stub::list const& l, int id, Trace* t, bool never) : Interaction(d, l), id(id), t(t), never(never) {}
    double EnergyInteraction(double E, double r) override { double x = never || r < 1. / 3 ? disp->GetLowerLim() : r < 2. / 3 ? std::max(disp->GetLowerLim(), 0.8 * E) : E; t->inter.push_back({ id, E, x }); return x; }
    double EnergyIntegral(double, double) override { return 1; } double MeanFreePath(double) override { return 1; } };
struct Tm : Time { int id; Trace* t; Tm(int id, Trace* t) : id(id), t(t) {} double TimeElapsed(double Ei, double Ef, double g, double rho) override { t->time.push_back({ id, Ei, Ef, g, rho, last().o, last().g, last().Ei, last().Ef }); return g / (rho * SPEED); } };
// rnd < 1/3: lives on, < 2/3: after losing a tenth, else at once
struct Dec : PROPOSAL::Decay { int id; Trace* t; Dec(std::shared_ptr<Displacement> d, int id, Trace* t) : PROPOSAL::Decay(d, 1e-6, 1), id(id), t(t) {} double EnergyDecay(double E, double r, double rho) override { VK_CHECK(rho > 0, "decay-density", "density %g given to the decay", rho); double x = r < 1. / 3 ? disp->GetLowerLim() : r < 2. / 3 ? std::max(disp->GetLowerLim(), 0.9 * E) : E; t->decay.push_back({ id, E, x }); return x; } };
// rnd < 1/3: mean, < 2/3: half way back to the start, else the lower bound
struct CR : ContRand { CR(std::shared_ptr<Displacement> d, stub::list const& l) : ContRand(d, l) {} double Variance(double, double) override { return 1; } double EnergyRandomize(double Ei, double Ef, double r, double mn) override { double lo = std::max(disp->GetLowerLim(), mn); double e = r < 1. / 3 ? Ef : r < 2. / 3 ? 0.5 * (Ei + Ef) : lo; return std::min(Ei, std::max(e, lo)); } };
struct Ms : multiple_scattering::Parametrization { std::unique_ptr<multiple_scattering::Parametrization> clone() const override { return std::make_unique<Ms>(*this); } bool compare(multiple_scattering::Parametrization const&) const override { return true; } void print(std::ostream&) const override {}
    multiple_scattering::ScatteringOffset CalculateRandomAngle(double g, double Ei, double Ef, const std::array<double, 4>& r) override { multiple_scattering::ScatteringOffset o; last() = { o, g, Ei, Ef }; if (!(g > 0)) return o; auto s = [](double x) { return x < 1. / 3 ? 0. : x < 2. / 3 ? 0.3 : -0.6; }; o.sx = s(r[0]); o.sy = s(r[1]); o.tx = s(r[2]) * 1.2; o.ty = s(r[3]); last().o = o; return o; }
    double CalculateScatteringAngle(double, double, double, double) override { return 0; } double CalculateScatteringAngle2D(double, double, double, double, double) override { return 0; } };
struct Sd : stochastic_deflection::Parametrization { std::unique_ptr<stochastic_deflection::Parametrization> clone() const override { return std::make_unique<Sd>(*this); } size_t RequiredRandomNumbers() const noexcept override { return 2; } I GetInteractionType() const noexcept override { return I::Brems; }
    UnitSphericalVector CalculateStochasticDeflection(double, double, std::vector<double> const& r, size_t) const override { return UnitSphericalVector(r[0] < 1. / 3 ? 0. : r[0] < 2. / 3 ? 1. : 3., 6 * r[1]); } };
// the loss: Brems a fifth, Ioniz a thousandth, Epair everything
constexpr double V[] = { 0.2, 1e-3, 1. }; constexpr I VT[] = { I::Brems, I::Ioniz, I::Epair };
struct LossX : stub::X { double v; LossX(I t, double v, double low, std::shared_ptr<const EnergyCutSettings> c) : stub::X(t, [](double) { return 1.; }, nullptr, { { 7, [](double) { return 1.; } } }, low, c), v(v) {} double CalculateStochasticLoss(size_t, double, double) override { return v; } };
struct SecDef { Shape s; int hier; double a, rho; double low = LOW; };
struct Opt { bool inter = true, decay = false, cr = false, ms = false, sd = false; };
inline PropagationUtility utility(SecDef const& d, int id, Opt o, Trace* t)
{
    auto cut = std::make_shared<EnergyCutSettings>(500, 0.05, true); stub::list l; for (int i = 0; i < 3; ++i) l.push_back(std::make_shared<LossX>(VT[i], V[i], d.low, cut));
    PropagationUtility::Collection c; auto disp = std::make_shared<Disp>(l, d.a, id, t); c.displacement_calc = disp; c.interaction_calc = std::make_shared<Inter>(disp, l, id, t, !o.inter); c.time_calc = std::make_shared<Tm>(id, t);
    if (o.decay) c.decay_calc = std::make_shared<Dec>(disp, id, t); if (o.cr) c.cont_rand = std::make_shared<CR>(disp, l);
    if (o.ms || o.sd) { std::unique_ptr<multiple_scattering::Parametrization> m; if (o.ms) m = std::make_unique<Ms>(); std::vector<std::unique_ptr<stochastic_deflection::Parametrization>> s; if (o.sd) s.push_back(std::make_unique<Sd>()); c.scattering = std::make_shared<Scattering>(std::move(m), std::move(s)); }
    return PropagationUtility(c);
}
inline std::vector<Sector> sectors(std::vector<SecDef> const& L, Opt o, Trace* t) { std::vector<Sector> v; int id = 0; for (auto& d : L) { auto g = d.s.make(); g->SetHierarchy(d.hier); v.emplace_back(std::shared_ptr<const Geometry>(g), utility(d, id++, o, t), std::shared_ptr<const Density_distr>(std::make_shared<Density_homogeneous>(d.rho))); } return v; }
inline double d3(V3 const& a, V3 const& b) { return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
inline V3 v3(Cartesian3D const& c) { return { c.GetX(), c.GetY(), c.GetZ() }; }
// 1 inside, -1 outside, 0 within m of the surface
inline int in(Shape const& s, V3 const& p, double m)
{
    V3 q { p[0] - s.ctr[0], p[1] - s.ctr[1], p[2] - s.ctr[2] };
    auto lt = [&](double x, double lim) { return x < lim - m ? 1 : x > lim + m ? -1 : 0; };
    std::vector<int> c; if (s.k == geo::BOX) { c = { lt(std::fabs(q[0]), s.a / 2), lt(std::fabs(q[1]), s.b / 2), lt(std::fabs(q[2]), s.c / 2) }; }
    else { double r = s.k == geo::SPH ? std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) : std::hypot(q[0], q[1]); c = { lt(r, s.a) }; if (s.b > 0) c.push_back(-lt(r, s.b)); if (s.k == geo::CYL) c.push_back(lt(std::fabs(q[2]), s.c / 2)); }
    int r = 1; for (int x : c) { if (x < 0) return -1; if (!x) r = 0; } return r;
}
// index of the sector in charge, -1 none, -2 too close to a surface to say
inline int charge(std::vector<SecDef> const& L, V3 const& p, double m) { int b = -1; for (size_t i = 0; i < L.size(); ++i) { int k = in(L[i].s, p, m); if (!k) return -2; if (k > 0 && (b < 0 || L[i].hier > L[b].hier)) b = (int)i; } return b; }
struct Spin : std::runtime_error { Spin() : std::runtime_error("more than 20000 random numbers: propagation does not end") {} };
inline void script(std::function<double()> f) { RandomGenerator::Get().SetRandomNumberGenerator(f); }
}
