// vk: sources=crosssection,EnergyCutSettings,medium,Constants,methods,Logging,math,particle,decay flavor=o1 shards=8 limit=800
#include "xs.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include <map>
using namespace xs;
namespace {
int near = 0, all_points = 0;
// The library's Romberg quadrature stops when two estimates agree to 1e-6; kinks in the parametrisations fool it, by up to the tolerances here at single points.
void cmp(std::string const& key, std::string const& fam, Quad const& ref, double got, std::string const& what)
{
    if (!ref.ok && ref.err > 1e-4 * std::fabs(ref.val)) { vk::outcome("reference quadrature not accurate enough: not judged"); return; }
    double tol = fam == "compton" || fam == "ioniz" ? 4e-3 : key == "dedx" && fam == "brems" ? 0.03 : 0.015;
    double big = std::max(std::fabs(ref.val), std::fabs(got)), d = ref.val == got ? 0 : std::fabs(got - ref.val) / std::max(big, 1e-300);
    if (ref.val != 0) { ++all_points; near += d < 3e-3; }
    if (getenv("VK_DBG")) { printf("D %s %s %.2g\n", key.c_str(), what.c_str(), d); return; }
    VK_CHECK(std::fabs(got - ref.val) <= tol * big + 3 * ref.err + 1e-40, key.c_str(), "%s: %.12g, reference integral %.12g (+- %.2g), relative difference %.3g", what.c_str(), got, ref.val, ref.err, d);
}
std::vector<double> energies(double low)
{
    std::vector<double> e; double st = vk::thorough() ? 1.7 : 2.5;
    for (double x : { 0.01, 0.3, 2. }) e.push_back(low * (1 + x));
    for (double l = 0.3; l <= 12.5; l += st) { double E = std::pow(10, l); if (E > low * 3.5) e.push_back(E); }
    return e;
}
}
void vk_main()
{
    auto specs = all(false);
    std::vector<Medium> ms { custom("mix", { Components::Hydrogen(), Component("O", 8, 15.999, 3), Components::Lead(), Component("W", 74, 183.84, 0.25) }, 3.5), custom("twice", { Component("H", 1, 1.00794, 2), Component("O", 8, 15.9994, 1), Component("H", 1, 1.00794, 2) }, 1.) };
    if (vk::thorough()) { ms.push_back(Air());   }
    struct Cut { double e, v; bool r; }; std::vector<Cut> cuts { { 500, 0.05, true }, { INF, 0.05, true }, { 1, 1, true }, { 500, 1, false }, { INF, 1, true }, { INF, 1, false } };
    for (auto& s : specs) for (size_t mi = 0; mi < ms.size(); ++mi) vk::cs(vk::f("%s-%zu", s.id().c_str(), mi), [&, mi] {
        if (!vk::thorough() && mi == 1 && (s.fam == "photoq2" || s.fam == "epair" || s.fam == "mupair")) return; // expensive
        auto& m = ms[mi]; auto comps = m.GetComponents(); const double q = 1e-6; near = all_points = 0;
        std::vector<cut_t> cs; if (s.stoch) cs = { nullptr }; else { bool dear = !vk::thorough() && (s.fam == "epair" || s.fam == "photoq2"); for (auto& c : cuts) if (!dear || (&c - &cuts[0]) % 2 == 0) cs.push_back(std::make_shared<EnergyCutSettings>(c.e, c.v, c.r)); if (s.fam != "brems" && !s.pm) cs.push_back(nullptr); }
        int count = 0;
        for (auto& cut : cs) {
            auto x = s.cross(m, cut); std::string cn = cut ? vk::f("cut(%g,%g,%d)", cut->GetEcut(), cut->GetVcut(), (int)cut->GetContRand()) : "no cut"; bool none = cut && cut->GetEcut() == INF && cut->GetVcut() == 1;
            std::shared_ptr<PC> pc; std::shared_ptr<PM> pm; double low; std::shared_ptr<PD> pd;
            if (s.pc) { pc = s.pc(m, 1); low = pc->GetLowerEnergyLim(s.p); } else if (s.pm) { pm = s.pm(m, *cut); low = pm->GetLowerEnergyLim(s.p); } else { pd = s.pd(); low = pd->GetLowerEnergyLim(s.p, m, cut); }
            for (double E : energies(std::max(low, 1e-4))) {
                vk::state(vk::hd(vk::hs(s.id() + m.GetName() + cn), E)); std::string at = s.id() + " " + m.GetName() + " " + cn + vk::f(" E=%.9g", E);
                if (s.pd) { double sum = 0, tot = x->CalculatedNdx(E); for (auto& r : x->CalculatedNdx_PerTarget(E)) { sum += r.second; VK_CLOSE(x->CalculatedNdx(E, r.first), r.second, 1e-14, 0, "target", "%s", at.c_str()); } VK_CLOSE(tot, sum, 1e-12, 0, "sum", "%s", at.c_str()); VK_CHECK(x->CalculatedEdx(E) == 0 && x->CalculatedE2dx(E) == 0, "stochastic-only", "%s", at.c_str()); continue; }
                Quad tn { 0, 0, true }, te { 0, 0, true }, t2 { 0, 0, true }; std::map<size_t, double> seen;
                size_t n = s.pc ? comps.size() : 1; std::map<size_t, Quad> per;
                for (size_t i = 0; i < n; ++i) {
                    double w = s.pc ? frac(m, comps[i]) : 1; size_t h = s.pc ? comps[i].GetHash() : m.GetHash();
                    auto l = s.pc ? pc->GetKinematicLimits(s.p, comps[i], E) : pm->GetKinematicLimits(s.p, m, E);
                    double vc = l.v_min; if (cut) vc = std::min(std::max(std::min(cut->GetEcut() / E, cut->GetVcut()), l.v_min), l.v_max);
                    auto d = [&](double v) { return s.pc ? pc->DifferentialCrossSection(s.p, comps[i], E, v) : pm->DifferentialCrossSection(s.p, m, E, v); };
                    auto acc = [&](Quad& t, Quad const& a, double f) { t.val += a.val * f; t.err += a.err * std::fabs(f); t.ok &= a.ok; };
                    if (!none && l.v_max > vc) { auto r = vint(d, vc, l.v_max, q); acc(tn, r, w); if (per.count(h) == 0) per[h] = { 0, 0, true }; acc(per[h], r, w); }
                    else if (!none && per.count(h) == 0) per[h] = { 0, 0, true };
                    if (cut) {
                        if (s.fam == "ioniz") {
                            if (s.name == "BetheBlochRossi") { auto& b = dynamic_cast<crosssection::IonizBetheBlochRossi&>(*pm); acc(te, vint([&](double v) { return b.FunctionToDEdxIntegral(s.p, m, E, v); }, l.v_min, vc, q), E); te.val += b.IonizationLoss(s.p, m, E); }
                            else te.val += dynamic_cast<crosssection::Ionization&>(*pm).FunctionToDEdxIntegral(s.p, m, E, 0);
                        } else if (vc > l.v_min) acc(te, vint([&](double v) { return v * d(v); }, l.v_min, vc, q), w * E);
                        if (cut->GetContRand() && vc > l.v_min) acc(t2, vint([&](double v) { return v * v * d(v); }, l.v_min, vc, q), w * E * E);
                    }
                    vk::trans();
                }
                cmp("ndx", s.fam, tn, x->CalculatedNdx(E), at);
                double sum = 0; auto rates = x->CalculatedNdx_PerTarget(E); for (auto& r : rates) { sum += r.second; VK_CHECK(per.count(r.first) == 1, "target", "%s: unknown target %zu", at.c_str(), r.first); cmp("ndx-target", s.fam, per[r.first], r.second, at); VK_CLOSE(x->CalculatedNdx(E, r.first), r.second, 1e-14, 0, "target", "%s", at.c_str()); }
                VK_CHECK(rates.size() == per.size() || none, "targets", "%s: %zu targets, expected %zu", at.c_str(), rates.size(), per.size()); VK_CLOSE(x->CalculatedNdx(E), sum, 1e-12, 0, "sum", "%s", at.c_str());
                cmp("dedx", s.fam, te, x->CalculatedEdx(E), at); cmp("de2dx", s.fam, t2, x->CalculatedE2dx(E), at);
                if (none) VK_CHECK(x->CalculatedNdx(E) == 0 && rates.empty(), "continuous-only", "%s", at.c_str()); if (!cut) VK_CHECK(x->CalculatedEdx(E) == 0, "stochastic-only", "%s", at.c_str()); if (!cut || !cut->GetContRand()) VK_CHECK(x->CalculatedE2dx(E) == 0, "no-cont-rand", "%s", at.c_str());
                if (++count % 4 == 1) { // a multiplier scales every rate and loss, and nothing else
                    std::shared_ptr<CrossSectionBase> b = s.cross(m, cut); for (double k : { 0.5, 3. }) { auto y = make_crosssection_multiplier(b, k);
                        VK_CLOSE(y->CalculatedNdx(E), k * x->CalculatedNdx(E), 1e-14, 0, "multiplier", "dNdx %s", at.c_str()); VK_CLOSE(y->CalculatedEdx(E), k * x->CalculatedEdx(E), 1e-14, 0, "multiplier", "dEdx %s", at.c_str()); VK_CLOSE(y->CalculatedE2dx(E), k * x->CalculatedE2dx(E), 1e-14, 0, "multiplier", "dE2dx %s", at.c_str());
                        for (auto& r : y->CalculatedNdx_PerTarget(E)) { VK_CLOSE(r.second, k * x->CalculatedNdx(E, r.first), 1e-14, 0, "multiplier", "target %s", at.c_str()); VK_CLOSE(y->CalculatedNdx(E, r.first), r.second, 1e-14, 0, "multiplier", "target %s", at.c_str()); }
                        VK_CHECK(y->GetLowerEnergyLim() == x->GetLowerEnergyLim() && y->GetInteractionType() == x->GetInteractionType() && y->GetParametrizationName() == x->GetParametrizationName() && y->GetEnergyCutSettings() == x->GetEnergyCutSettings(), "multiplier", "%s: other properties", at.c_str()); }
                }
            }
        }
        if (all_points >= 8) VK_CHECK(near * 2 >= all_points, "precision", "%s: only %d of %d integrals agree within 3e-3", s.id().c_str(), near, all_points);
    });
    // ionisation: closed formulae for the restricted loss; raising the cut adds exactly the losses in between
    for (auto& s : all(true)) if (s.fam == "ioniz") vk::cs("restricted-" + s.id(), [&] {
        std::vector<double> vc { 1e-6, 1e-5, 2e-5, 1e-3, 2e-3, 0.01, 0.05, 0.3, 1. };
        for (Medium m : std::vector<Medium> { Ice(), Uranium(), Air(), Hydrogen(), StandardRock() }) for (double E = s.p.mass * 1.01; E < 1e13; E *= vk::thorough() ? 1.6 : 5) for (size_t i = 0; i + 1 < vc.size(); ++i) {
            auto a = std::make_shared<EnergyCutSettings>(INFINITY, vc[i], true), b = std::make_shared<EnergyCutSettings>(INFINITY, vc[i + 1], true); auto xa = s.cross(m, a), xb = s.cross(m, b); auto pm = s.pm(m, *a); auto l = pm->GetKinematicLimits(s.p, m, E);
            double va = std::max(vc[i], l.v_min), vb = std::min(vc[i + 1], l.v_max), la = xa->CalculatedEdx(E), lb = xb->CalculatedEdx(E); vk::state(vk::hd(vk::hd(vk::hs(s.id() + m.GetName()), E), vc[i])); if (!(vb > va)) continue; if (vc[i] < l.v_min) { vk::outcome("cut below the mean excitation energy: restricted formula does not apply"); continue; } if (la == 0 || lb == 0) { vk::outcome("restricted loss cut off at zero close to the threshold"); continue; }
            auto f = [&](double v) { return pm->DifferentialCrossSection(s.p, m, E, v); };
            VK_CLOSE(lb - la, vint([&](double v) { return v * f(v); }, va, vb, 1e-8).val * E, 1e-3, 5e-5 * lb, "restricted", "%s E=%.9g: dEdx at cut %g minus cut %g", m.GetName().c_str(), E, vc[i + 1], vc[i]);
            VK_CLOSE(xb->CalculatedE2dx(E) - xa->CalculatedE2dx(E), vint([&](double v) { return v * v * f(v); }, va, vb, 1e-8).val * E * E, 1e-3, 2e-4 * xb->CalculatedE2dx(E), "restricted2", "%s E=%.9g: dE2dx at cut %g minus cut %g", m.GetName().c_str(), E, vc[i + 1], vc[i]); vk::trans();
        }
    });
    vk::bound(vk::f("%zu parametrisations x particle, %zu media, up to 7 cuts (none, finite, infinite), ~8 energies from 1.01 thresholds to 1e12 MeV", specs.size(), ms.size()));
}
