// vk: sources=crosssection,EnergyCutSettings,medium,Constants,methods,Logging,math,particle,decay flavor=o1 shards=8 limit=800
#include "xs.h"
#include "kkp.h"
#include <map>
using namespace xs;
namespace {
std::vector<Component> elements()
{
    std::vector<Component> r; // every shipped element once; plus artificial ones covering every branch on the charge
    r.push_back(Components::Hydrogen()); r.push_back(Components::Carbon()); r.push_back(Components::Nitrogen()); r.push_back(Components::Oxygen()); r.push_back(Components::Sodium()); r.push_back(Components::Magnesium()); r.push_back(Components::Sulfur()); r.push_back(Components::Chlorine()); r.push_back(Components::Argon()); r.push_back(Components::Potassium()); r.push_back(Components::Calcium()); r.push_back(Components::Iron()); r.push_back(Components::Copper()); r.push_back(Component("W", 74, 183.84, 1)); r.push_back(Components::Lead()); r.push_back(Components::Uranium()); r.push_back(Components::StandardRock()); r.push_back(Components::FrejusRock());
    
    r.push_back(Component("He", 2, 4.0026, 1)); r.push_back(Component("Li", 3, 6.94, 1)); r.push_back(Component("Be", 4, 9.012, 1)); r.push_back(Component("B", 5, 10.81, 1)); r.push_back(Component("Ne", 10, 20.18, 1)); r.push_back(Component("Si", 14, 28.0855, 1)); r.push_back(Component("Xe", 54, 131.293, 1)); r.push_back(Component("Gd", 64, 157.25, 1)); r.push_back(Component("Au", 79, 196.967, 1));
    return r;
}
struct P { std::shared_ptr<PC> c; std::shared_ptr<PM> m;
    crosssection::KinematicLimits lim(ParticleDef const& p, Medium const& md, Component const* co, double E) const { return c ? c->GetKinematicLimits(p, *co, E) : m->GetKinematicLimits(p, md, E); }
    double diff(ParticleDef const& p, Medium const& md, Component const* co, double E, double v) const { return c ? c->DifferentialCrossSection(p, *co, E, v) : m->DifferentialCrossSection(p, md, E, v); }
    double low(ParticleDef const& p) const { return c ? c->GetLowerEnergyLim(p) : m->GetLowerEnergyLim(p); }
    size_t hash() const { return c ? c->GetHash() : m->GetHash(); } };
P bind(Spec const& s, Medium const& m, EnergyCutSettings const& c = EnergyCutSettings(500, 0.05, false)) { P p; if (s.pc) p.c = s.pc(m, 1); else p.m = s.pm(m, c); return p; }
std::vector<double> energies(double low)
{
    std::vector<double> e; double st = vk::thorough() ? 0.125 : 0.5;
    for (double x : { 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.03, 0.1, 0.3, 0.6, 1., 1.5, 2. }) e.push_back(low * (1 + x));
    for (double l = -3; l <= 14.001; l += st) { double E = std::pow(10, l); if (E > low) e.push_back(E); }
    for (double E : { 50., 50.000001, 49.999999, 1e5, 99999.9999, 1.0000001e5 }) if (E > low) e.push_back(E);
    return e;
}
std::vector<double> losses(double a, double b)
{
    std::vector<double> v; int n = vk::thorough() ? 48 : 16; double a1 = std::max(a, 1e-12);
    if (a1 < b) for (int i = 0; i <= n; ++i) v.push_back(a1 * std::pow(b / a1, double(i) / n));
    for (double x : { 1e-6, 1e-3, .1, .3, .5, .7, .9, .99, .999 }) v.push_back(a + (b - a) * x);
    for (double x : { 1e-4, 1e-6, 1e-9 }) v.push_back(b - (b - a) * x);
    for (double x : { 1e-7, 1e-8, 0.9999999e-7 }) if (x > a && x < b) v.push_back(x);
    std::vector<double> r; for (double x : v) { x = std::min(std::max(x, a > 0 ? a * (1 + 1e-9) : 1e-13), b - std::max((b - a) * 1e-9, 2e-16)); if (x > a && x < b) r.push_back(x); }
    return r;
}
double value(P const& p, ParticleDef const& d, Medium const& m, double E, double x) { auto cs = m.GetComponents(); auto c = cs[0]; auto l = p.lim(d, m, &c, E); if (!(l.v_max > l.v_min)) return -1; return p.diff(d, m, &c, E, l.v_min + (l.v_max - l.v_min) * x); }
}
void vk_main()
{
    auto specs = all(true); auto el = elements(); Medium every = custom("every_element", el, 2.0);
    vk::bound(vk::f("%zu parametrisations x particle (all options), %zu elements (Z=1..92), all shipped media for LPM", specs.size(), el.size()));
    vk::bound("energies: lower limit*(1+1e-12..2), 1e-3..1e14 MeV in half (thorough: eighth) decades and every switch in the code; ~28 (thorough ~60) losses strictly inside the limits each");
    // the cross section of a nucleus does not know how many of them the molecule has
    for (auto& s : specs) if (s.pc && !s.lpm()) vk::cs("nucleus-" + s.id(), [&] { auto p = s.pc(every, 1); for (auto& e : el) { double low = p->GetLowerEnergyLim(s.p); Component ref(e.GetName(), e.GetNucCharge(), e.GetAtomicNum(), 1.); for (double f : { 1.01, 3., 1e2, 1e5, 1e8 }) { double E = low * f; auto l = p->GetKinematicLimits(s.p, ref, E); if (!(l.v_max > l.v_min)) continue; for (double n : { 2., 7., 0.3 }) { Component c(e.GetName(), e.GetNucCharge(), e.GetAtomicNum(), n); auto l2 = p->GetKinematicLimits(s.p, c, E); VK_CHECK(l.v_min == l2.v_min && l.v_max == l2.v_max, "nucleus", "%s E=%.17g: limits depend on the number of atoms", e.GetName().c_str(), E); for (double t : { 0.02, 0.3, 0.8 }) { double v = l.v_min > 0 ? l.v_min * std::pow(l.v_max / l.v_min, t) : l.v_max * t; vk::trans(); VK_CLOSE(p->DifferentialCrossSection(s.p, c, E, v), p->DifferentialCrossSection(s.p, ref, E, v), 1e-12, 0, "nucleus", "%s E=%.17g v=%.17g with %g atoms in the molecule", e.GetName().c_str(), E, v, n); } } vk::state(vk::hd(vk::hs(s.id() + "nucleus" + e.GetName()), E)); } } });
    // pairs: the published distribution of the asymmetry, integrated here
    for (auto& s : specs) if ((s.fam == "epair" && s.name != "SandrockSoedingreksoRhode" && !s.lpm()) || s.fam == "mupair") vk::cs("pairs-" + s.id(), [&] { auto p = s.pc(every, 1); double low = p->GetLowerEnergyLim(s.p); for (auto& e : el) { if (!vk::thorough() && (int)e.GetNucCharge() % 7 != 1) continue; for (double E : { low * 1.5, low * 4, low * 30, low * 1e3, low * 1e5, low * 1e8 }) { auto l = p->GetKinematicLimits(s.p, e, E); if (!(l.v_max > l.v_min * 1.01)) continue; for (double t : { 0.02, 0.1, 0.3, 0.5, 0.7, 0.9 }) for (int lin = 0; lin < 2; ++lin) { double v = lin ? l.v_min + t * (l.v_max - l.v_min) : l.v_min * std::pow(l.v_max / l.v_min, t); auto a = s.fam == "mupair" ? pairs::mupair_kkp(s.p, e, E, v) : s.name == "KelnerKokoulinPetrukhin" ? pairs::epair_kkp(s.p, e, E, v) : pairs::epair_electron(s.p, e, E, v); if (!(a.max > 1e-3)) continue; auto g = [&](double q) { double u = std::exp(q); return u * a.f(1 - u); }; auto q = xs::quad(g, std::log(std::max(1 - a.max, 1e-14)), 0, 1e-8, 2000); if (!q.ok) continue; vk::trans(); vk::outcome("pairs"); VK_CLOSE(p->DifferentialCrossSection(s.p, e, E, v), a.norm * q.val, std::min(1., s.p.mass / (s.fam == "mupair" ? MMU : ME)) * v < 6e-7 ? 3e-2 : 1e-2, 1e-40, "pairs", "%s E=%.17g v=%.17g: integral over the asymmetry (up to %g)", e.GetName().c_str(), E, v, a.max); } vk::state(vk::hd(vk::hs(s.id() + "pairs" + e.GetName()), E)); } } });
    for (auto& s : specs) {
        if (s.pd) { // directly computed rates
            vk::cs("rate-" + s.id(), [&] {
                auto d = s.pd(); std::vector<Medium> ms { every, Ice(), StandardRock(), Uranium(), Air(), Hydrogen() };
                for (auto& m : ms) { double low = d->GetLowerEnergyLim(s.p, m, nullptr); VK_CHECK(std::isfinite(low) && low >= 0, "low", "%g", low); auto es = energies(low);
                    for (auto& c : m.GetComponents()) { auto l1 = d->GetLowerEnergyLim(s.p, custom("one", { c }), nullptr); for (double f : { 1 - 1e-9, 1., 1 + 1e-9, 1.01 }) es.push_back(l1 * f); }
                    for (double E : es) { auto r = d->CalculatedNdx_PerTarget(E, s.p, m, nullptr); VK_CHECK(r.size() == m.GetComponents().size(), "targets", "%zu", r.size());
                        for (auto& x : r) { VK_CHECK(std::isfinite(x.second) && x.second >= 0, "rate", "%s E=%.17g: %g", m.GetName().c_str(), E, x.second); double y = d->CalculatedNdx(E, x.first, s.p, m, nullptr); VK_CHECK(y == x.second, "rate-target", "%s E=%.17g: %g for one target, %g in the list", m.GetName().c_str(), E, y, x.second); }
                        double n = d->CalculatedNdx(E, s.p, m, nullptr); VK_CHECK(std::isfinite(n) && n >= 0, "rate", "E=%g %g", E, n); vk::state(vk::hd(vk::hs(s.id() + m.GetName()), E)); }
                    for (double f : { 1e-6, 0.01, 0.1, 0.5, 0.9, 0.999, 1 - 1e-9 }) { double n = d->CalculatedNdx(low * f, s.p, m, nullptr); VK_CHECK(n == 0, "below-limit", "%s E=%.17g of limit %.17g: rate %g", m.GetName().c_str(), low * f, low, n); } }
            });
            continue;
        }
        for (size_t part = 0; part < (s.pc ? 3 : 1); ++part) vk::cs(vk::f("formula-%s-%zu", s.id().c_str(), part), [&, part] {
            std::vector<Medium> ms; if (s.pc) ms = { every }; else { ms = std::vector<Medium> { every, Ice(), StandardRock(), Uranium(), Air(), Hydrogen(), Salt() }; for (auto& c : el) ms.push_back(custom("one", { c }, 2)); }
            if (s.lpm()) { ms.push_back(Air()); ms.push_back(Uranium()); ms.push_back(Ice()); ms.push_back(custom("dense", { Components::Lead() }, 1e4)); ms.push_back(custom("thin", { Components::Hydrogen() }, 1e-9)); }
            for (auto& m : ms) {
                auto p = bind(s, m); auto cs = m.GetComponents(); double low = p.low(s.p); VK_CHECK(std::isfinite(low) && low >= 0, "low", "%g", low);
                size_t nc = p.c ? cs.size() : 1;
                for (size_t i = 0; i < nc; ++i) {
                    if (s.pc && i % 3 != part) continue;
                    for (double E : energies(low)) {
                        auto l = p.lim(s.p, m, &cs[i], E); vk::state(vk::hd(vk::hs(s.id() + cs[i].GetName()), E));
                        VK_CHECK(std::isfinite(l.v_min) && std::isfinite(l.v_max) && l.v_min >= 0 && l.v_min <= l.v_max, "limits", "%s E=%.17g: [%.17g, %.17g]", cs[i].GetName().c_str(), E, l.v_min, l.v_max);
                        if (!(l.v_max > l.v_min)) { vk::outcome("no phase space"); continue; }
                        VK_CHECK(l.v_max <= 1, "limits", "%s E=%.17g: v_max %.17g", cs[i].GetName().c_str(), E, l.v_max);
                        if (s.p.mass > 0 && !s.stoch) VK_CHECK(l.v_max <= 1 - s.p.mass / E * (1 - 1e-9) + 4e-16, "limits-mass", "%s E=%.17g: v_max %.17g leaves less than the mass", cs[i].GetName().c_str(), E, l.v_max);
                        for (double v : losses(l.v_min, l.v_max)) { double d = p.diff(s.p, m, &cs[i], E, v); VK_CHECK(std::isfinite(d) && d >= 0, d < 0 ? "negative" : "finite", "%s in %s E=%.17g v=%.17g: %g", cs[i].GetName().c_str(), m.GetName().c_str(), E, v, d); }
                    }
                    std::vector<std::unique_ptr<CrossSectionBase>> belows;
                    for (double f : { 1e-3, 0.1, 0.5, 0.9, 0.99, 0.999999 }) { // below the stated limit : no phase space, or no rate
                        double E = low * f; if (s.fam == "weak" || s.fam == "compton") break; // the stated limit is the mass (no particle has less), or where the tables start: no threshold
                        auto l = p.lim(s.p, m, &cs[i], E); if (!(l.v_max > l.v_min)) { vk::outcome("empty below the lower limit"); continue; }
                        bool any = false; for (double v : losses(std::max(l.v_min, 1e-12), std::min(l.v_max, 1.))) any |= !(p.diff(s.p, m, &cs[i], E, v) == 0); // (NaN counts)
                        if (!any) { vk::outcome("zero below the lower limit"); continue; }
                        if (belows.empty()) for (double vc : { 1., 0.05 }) belows.push_back(s.cross(s.pc ? custom("one", { cs[i] }) : m, s.stoch ? nullptr : std::make_shared<EnergyCutSettings>(1e-3, vc, true)));
                        for (auto& x : belows) { VK_CHECK(x->CalculatedNdx(E) == 0, "below-limit", "%s E=%.17g of limit %.17g: rate %g", cs[i].GetName().c_str(), E, low, x->CalculatedNdx(E)); if (!s.stoch) { VK_CHECK(x->CalculatedEdx(E) == 0, "below-limit", "%s E=%.17g of limit %.17g: loss %g", cs[i].GetName().c_str(), E, low, x->CalculatedEdx(E)); VK_CHECK(x->CalculatedE2dx(E) == 0, "below-limit", "%s E=%.17g of limit %.17g: dE2dx %g", cs[i].GetName().c_str(), E, low, x->CalculatedE2dx(E)); } }
                        vk::outcome("rate zero below the lower limit");
                    }
                }
            }
        });
    }
    // hashes: equal only for equal values
    vk::cs("parametrisation-hash", [&] {
        std::map<std::pair<std::string, size_t>, std::string> seen; std::vector<Medium> ms { Ice(), Uranium(), StandardRock() }; int n = 0;
        std::vector<EnergyCutSettings> cuts { { 500, 0.05, false }, { 500, 0.06, false }, { 501, 0.05, false }, { 500, 1, false } };
        for (auto& s : specs) if (!s.pd) for (auto& m : ms) for (auto& c : cuts) {
            if (s.pc && &c != &cuts[0]) continue; if (!s.lpm() && &m != &ms[0]) continue; // arguments do not enter
            auto p = bind(s, m, c), q = bind(s, m, c); VK_CHECK(p.hash() == q.hash(), "hash-unstable", "%s", s.id().c_str());
            if (p.c) VK_CHECK(p.c->clone()->GetHash() == p.hash(), "hash-clone", "%s", s.id().c_str()); else VK_CHECK(p.m->clone()->GetHash() == p.hash(), "hash-clone", "%s", s.id().c_str());
            // values as functions: the particle is an argument, so compare on this particle only
            std::string id = s.fam + "." + s.name + "-" + s.opt + "/" + m.GetName() + vk::f("/%g,%g", c.GetEcut(), c.GetVcut()); ++n;
            if (s.lpm() && s.fam == "epair") id += s.p.name; // the suppression is built for one particle
            // the name of the parametrisation itself enters the hash of the cross section (below); here: its options
            auto it = seen.insert({ { s.fam + "." + s.name, p.hash() }, id }).first;
            VK_CHECK(it->second == id, "hash-shared", "%s and %s share the hash %zu", it->second.c_str(), id.c_str(), p.hash());
        }
        vk::outcome(vk::f("%d parametrisations, %zu hashes", n, seen.size()));
    });
    vk::cs("cross-section-hash", [&] {
        std::map<size_t, std::string> seen; std::vector<Medium> ms { Ice(), Uranium(), custom("x", { Components::Oxygen() }, 1), custom("x", { Components::Oxygen() }, 2) }; size_t n = 0;
        auto cuts = std::vector<cut_t> { std::make_shared<EnergyCutSettings>(500, 0.05, false), std::make_shared<EnergyCutSettings>(500, 0.05, true), std::make_shared<EnergyCutSettings>(500, 0.06, false), std::make_shared<EnergyCutSettings>(501, 0.05, false), std::make_shared<EnergyCutSettings>(500, 1, false), std::make_shared<EnergyCutSettings>(INFINITY, 0.05, false), std::make_shared<EnergyCutSettings>(INFINITY, 1, false), std::make_shared<EnergyCutSettings>(INFINITY, 1, true) };
        for (auto& s : specs) for (size_t mi = 0; mi < ms.size(); ++mi) for (size_t ci = 0; ci <= cuts.size(); ++ci) {
            cut_t c = ci < cuts.size() ? cuts[ci] : nullptr; if (s.stoch && c) continue; if (!s.stoch && s.pm && !c) continue;
            auto x = s.cross(ms[mi], c); auto y = s.cross(ms[mi], c); VK_CHECK(x->GetHash() == y->GetHash(), "hash-unstable", "%s", s.id().c_str());
            VK_CHECK(x->GetInteractionType() == s.type, "type", "%s", s.id().c_str());
            std::string id = s.id() + vk::f("/medium %zu/cut %zu", mi, ci);
            auto add = [&](size_t h, std::string const& i) { ++n; auto r = seen.insert({ h, i }); if (!r.second) {
                // mu+ and mu- differ in charge; identical only if nothing differs
                vk::fail("hash-shared", "%s and %s share a hash", r.first->second.c_str(), i.c_str()); } vk::trans(); };
            if (s.pd && s.fam != "annihilation" && false) continue;
            add(x->GetHash(), id);
            std::shared_ptr<CrossSectionBase> b = std::move(x); double lowx = b->GetLowerEnergyLim(); VK_CHECK(lowx >= 0 && std::isfinite(lowx), "low", "%g", lowx);
            if (mi == 0) for (double k : { 0.5, 2., 2.0000001 }) { CrossSectionMultiplier mu(b, k); add(mu.GetHash(), id + vk::f("*%.9g", k)); VK_CHECK(CrossSectionMultiplier(b, k).GetHash() == mu.GetHash(), "hash-unstable", "multiplier"); VK_CHECK(mu.GetInteractionType() == s.type, "type", "multiplier"); }
        }
        vk::outcome(vk::f("%zu cross sections with different hashes", n));
    });
}
