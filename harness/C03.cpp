// vk: sources=crosssection,EnergyCutSettings,medium,Constants,methods,Logging,math,particle,decay flavor=o1 shards=8 limit=800
#include "xs.h"
#include <map>
using namespace xs;
namespace {
std::vector<double> energies(double low)
{
    std::vector<double> e; double st = vk::thorough() ? 1 : 3;
    for (double x : { 0.01, 0.3, 2. }) e.push_back(low * (1 + x));
    for (double l = 0.3; l <= 12.5; l += st) { double E = std::pow(10, l); if (E > low * 3.5) e.push_back(E); }
    return e;
}
}
void vk_main()
{
    auto specs = all(vk::thorough());
    std::vector<Medium> ms { custom("mix", { Components::Hydrogen(), Component("O", 8, 15.999, 3), Components::Lead() }, 3.5) };
    if (vk::thorough()) { ms.push_back(Air()); ms.push_back(StandardRock()); ms.push_back(Ice()); ms.push_back(Uranium()); }
    struct Cut { double e, v; }; std::vector<Cut> cuts { { 500, 0.05 }, { 1, 1 }, { INF, 0.5 } };
    const std::vector<double> us { 0., 1e-6, 1e-3, 0.1, 0.3, 0.5, 0.7, 0.9, 0.999, 0.999999, 1. };
    for (auto& s : specs) for (size_t mi = 0; mi < ms.size(); ++mi) vk::cs(vk::f("%s-%zu", s.id().c_str(), mi), [&, mi] {
        auto& m = ms[mi]; auto comps = m.GetComponents(); int near = 0, all_points = 0; bool dear = !vk::thorough() && (s.fam == "epair" || s.fam == "photoq2" || s.fam == "photoreal");
        std::vector<cut_t> cs; if (s.stoch) cs = { nullptr }; else { for (auto& c : cuts) cs.push_back(std::make_shared<EnergyCutSettings>(c.e, c.v, false)); if (s.fam != "brems" && !s.pm) cs.push_back(nullptr); }
        for (auto& cut : cs) {
            if (dear && cut && &cut != &cs[0]) continue; std::shared_ptr<CrossSectionBase> x = s.cross(m, cut); std::string cn = cut ? vk::f("cut(%g,%g)", cut->GetEcut(), cut->GetVcut()) : "no cut";
            std::shared_ptr<PC> pc; std::shared_ptr<PM> pm; std::shared_ptr<PD> pd; double low;
            if (s.pc) { pc = s.pc(m, 1); low = pc->GetLowerEnergyLim(s.p); } else if (s.pm) { pm = s.pm(m, *cut); low = pm->GetLowerEnergyLim(s.p); } else { pd = s.pd(); low = pd->GetLowerEnergyLim(s.p, m, cut); }
            for (double E : energies(std::max(low, 1e-4))) {
                vk::state(vk::hd(vk::hs(s.id() + m.GetName() + cn), E)); std::string at = s.id() + " " + m.GetName() + " " + cn + vk::f(" E=%.9g", E);
                double total = 0, all_of = x->CalculatedNdx(E); std::map<size_t, double> rates; for (auto& r : x->CalculatedNdx_PerTarget(E)) { VK_CHECK(r.second >= 0 && std::isfinite(r.second), "rate", "%s: %g", at.c_str(), r.second); VK_CHECK(rates.insert(r).second, "target-twice", "%s: %zu", at.c_str(), r.first); total += r.second; }
                VK_CLOSE(total, all_of, 1e-12, 0, "sum", "%s: rates of the targets and total rate", at.c_str());
                for (size_t i = 0; i < (s.pm ? 1 : comps.size()); ++i) {
                    if (dear && i == 1) continue;
                    size_t h = s.pm ? m.GetHash() : comps[i].GetHash(); VK_CHECK(rates.count(h) == 1, "target", "%s: no rate for target %zu", at.c_str(), i); double rate = x->CalculatedNdx(E, h); VK_CHECK(rate == rates[h], "target", "%s: target %zu has rate %g, in the list %g", at.c_str(), i, rate, rates[h]);
                    if (!(rate > 0)) { vk::outcome("no rate"); continue; }
                    bool total_loss = s.pd || s.fam == "photopair" || s.fam == "photomupair" || s.fam == "weak"; // the particle does not survive
                    if (total_loss) { for (double u : us) { double v = x->CalculateStochasticLoss(h, E, u * rate); VK_CHECK(v == 1, "total-loss", "%s: loss %.17g", at.c_str(), v); } vk::outcome("particle absorbed"); if (s.pd) continue; }
                    auto l = s.pc ? pc->GetKinematicLimits(s.p, comps[i], E) : pm->GetKinematicLimits(s.p, m, E);
                    double vc = l.v_min; if (cut) vc = std::min(std::max(std::min(cut->GetEcut() / E, cut->GetVcut()), l.v_min), l.v_max);
                    auto d = [&](double v) { return (s.pc ? frac(m, comps[i]) * pc->DifferentialCrossSection(s.p, comps[i], E, v) : pm->DifferentialCrossSection(s.p, m, E, v)); };
                    // cumulative rate: from the cut upwards
                    double span = l.v_max - vc; VK_CHECK(x->CalculateCumulativeCrosssection(E, h, vc * 0.99) == 0 && x->CalculateCumulativeCrosssection(E, h, vc) == 0, "cumulative-zero", "%s: not zero at the cut", at.c_str()); VK_CLOSE(x->CalculateCumulativeCrosssection(E, h, l.v_max), rate, 1e-9, 0, "cumulative-total", "%s", at.c_str());
                    double before = 0; for (double f : { 0.01, 0.3, 0.9 }) { double v = vc > 0 ? vc * std::pow(l.v_max / vc, f) : vc + span * f; if (!(v > vc && v < l.v_max) || (dear && f != 0.3)) continue; double c = x->CalculateCumulativeCrosssection(E, h, v); auto r = vint(d, vc, v, 1e-6);
                        VK_CHECK(c >= before - 3e-3 * rate && c <= rate * 1.003, "cumulative-monotone", "%s: %g at v=%g after %g, total %g", at.c_str(), c, v, before, rate); before = c; if (r.err > 1e-4 * r.val) continue; VK_CLOSE(c, r.val, 0.015, 1e-4 * rate, "cumulative", "%s target %zu: rate of losses from %.9g to %.9g", at.c_str(), i, vc, v); }
                    if (total_loss) continue;
                    double last = 0, lastc = -1;
                    for (double u : us) {
                        double v = x->CalculateStochasticLoss(h, E, u * rate), c = x->CalculateCumulativeCrosssection(E, h, v) / rate; ++all_points; near += std::fabs(c - u) < 2e-4; vk::trans();
                        VK_CHECK(v >= vc * (1 - 1e-9) - 1e-12 && v <= l.v_max * (1 + 1e-9) + 1e-12, "range", "%s share %g: loss %.17g outside [%.17g, %.17g]", at.c_str(), u, v, vc, l.v_max);
                        double tol = E < 4 * low || E < 8 * s.p.mass ? 0.12 : 8e-3; // near threshold the Romberg quadrature fails on the parametrisations' kinks
                        VK_CHECK(std::fabs(c - u) <= tol, "share", "%s target %zu: asked for the share %.9g of the rate, got the loss %.12g, below which there is %.9g", at.c_str(), i, u, v, c);
                        VK_CHECK(v >= last * (1 - 1e-9) || c >= lastc - tol, "monotone", "%s target %zu: loss %.12g for share %.9g after %.12g", at.c_str(), i, v, u, last);
                        last = v; lastc = c;
                        if (u == 0.5) { auto y = make_crosssection_multiplier(x, 2.5); VK_CLOSE(y->CalculateStochasticLoss(h, E, 2.5 * u * rate), v, 1e-9, 0, "multiplier", "%s: loss", at.c_str()); VK_CLOSE(y->CalculateCumulativeCrosssection(E, h, v), 2.5 * c * rate, 1e-12, 0, "multiplier", "%s: cumulative rate", at.c_str()); }
                    }
                    VK_CLOSE(x->CalculateStochasticLoss(h, E, 0), vc, 1e-6, 1e-12, "lower-end", "%s", at.c_str());
                }
                // a target that is not in the medium has no losses
                size_t other = Component("Zz", 3, 7, 5).GetHash(); if (!s.pd) { bool threw = false; try { double r = x->CalculatedNdx(E, other); threw = r == 0; } catch (std::exception&) { threw = true; } VK_CHECK(threw, "unknown-target", "%s: rate for a target that is not in the medium", at.c_str()); }
            }
        }
        if (all_points >= 20) VK_CHECK(near * 10 >= all_points * 8, "precision", "only %d of %d sampled losses match the requested share within 2e-4", near, all_points);
    });
    vk::bound(vk::f("%zu parametrisations x particle, %zu media, up to 4 cuts, 7 (thorough 20) energies, every target, %zu shares of its rate including both ends", specs.size(), ms.size(), us.size()));
}
