// vk: flavor=o1 shards=8 limit=800
#include "prop.h"
#include <map>
#include <set>
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/Logging.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include "PROPOSAL/scattering/stochastic_deflection/ScatteringFactory.h"
using namespace PROPOSAL; using I = InteractionType; namespace sdef = stochastic_deflection; using Par = sdef::Parametrization; using uptr = std::unique_ptr<Par>;
struct Model { const char* name; I type; size_t n; int kind; bool dflt; };
static const Model MODELS[] = { { "BremsTsaiApproximation", I::Brems, 2, 0, true }, { "BremsGinneken", I::Brems, 2, 1, false }, { "IonizNaive", I::Ioniz, 1, 2, true }, { "EpairGinneken", I::Epair, 2, 3, true }, { "PhotoBorogPetrukhin", I::Photonuclear, 2, 4, true }, { "PhotoGinneken", I::Photonuclear, 2, 5, false } };
// rms angles of Van Ginneken, energies in GeV
static double brems_rms(double E, double nu, double Z, double& edge)
{
    edge = 0; double k4 = 0.26 * std::pow(E, -0.91), n = 0.81 * std::sqrt(E) / (std::sqrt(E) + 1.8);
    if (nu <= 0.5) return std::max(std::min(0.092 * std::pow(E, -1. / 3) * std::sqrt(nu), 0.052 / E * std::pow(Z, -0.25)), 0.22 * std::pow(E, -0.92) * nu);
    auto low = [&](double v) { return k4 * std::pow(v, 1 + n) * std::pow(1 - v, -n); }; if (low(nu) < 0.2) return low(nu);
    double a = 0.5, b = 1; if (low(a) < 0.2) { for (int i = 0; i < 200; ++i) { double m = 0.5 * (a + b); (low(m) < 0.2 ? a : b) = m; } edge = a; return 0.2 * std::sqrt((1 - a) / (1 - nu)); } // continuous at 0.2
    return low(0.5) * std::sqrt(0.5 / (1 - nu));
}
static double nu_g(double E) { double k4 = 0.26 * std::pow(E, -0.91), n = 0.81 * std::sqrt(E) / (std::sqrt(E) + 1.8), a = 0.5, b = 1; if (k4 * 0.5 >= 0.2) return 0; for (int i = 0; i < 200; ++i) { double m = 0.5 * (a + b); (k4 * std::pow(m, 1 + n) * std::pow(1 - m, -n) < 0.2 ? a : b) = m; } return b; }
static double rms(int kind, double E, double Ef, double M, double Z)
{
    E /= 1e3; Ef /= 1e3; M /= 1e3; double nu = (E - Ef) / (E - M), e, me = ME / 1e3; if (kind == 1) return brems_rms(E, nu, Z, e);
    if (kind == 3) return (2.3 + std::log(E)) / (1 - nu) / E * std::pow((nu - 2 * me / E) / nu, 2) * std::min(8.9e-4 * std::pow(nu, 0.25) * (1 + 1.5e-5 * E) + 0.032 * nu / (nu + 1), 0.1);
    return 0.39 / (E * (1 - nu)) * std::pow(std::sqrt(E) * nu * (1 - nu), 0.17) * (1 - 0.135 / (E * nu));
}
struct Lim { double lo, hi; };
static Lim limits(I t, ParticleDef const& p, Component const& c, Medium const& m, double E)
{
    namespace C = crosssection; static EnergyCutSettings cut(500, 0.05, false); C::KinematicLimits k;
    if (t == I::Brems) k = C::BremsKelnerKokoulinPetrukhin(false).GetKinematicLimits(p, c, E);
    if (t == I::Epair) k = C::EpairKelnerKokoulinPetrukhin(false).GetKinematicLimits(p, c, E);
    if (t == I::Photonuclear) k = C::PhotoAbramowiczLevinLevyMaor97(std::make_shared<C::ShadowButkevichMikheyev>()).GetKinematicLimits(p, c, E);
    if (t == I::Ioniz) k = p.mass == ME ? p.charge > 0 ? C::IonizBergerSeltzerBhabha(cut).GetKinematicLimits(p, m, E) : C::IonizBergerSeltzerMoller(cut).GetKinematicLimits(p, m, E) : C::IonizBetheBlochRossi(cut).GetKinematicLimits(p, m, E);
    return { k.v_min, k.v_max };
}
static std::vector<double> randoms() { std::vector<double> v { 0, std::ldexp(1., -53), 1e-9, 1e-4, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1 - 1e-6, 1 - std::ldexp(1., -40), 1 - std::ldexp(1., -53) }; if (vk::thorough()) for (int i = 1; i < 60; ++i) v.push_back(i / 60.); std::sort(v.begin(), v.end()); return v; }
static std::vector<double> rvec(std::vector<double> const& r) { std::vector<double> v; v.reserve(8); v.resize(8, NAN); std::copy(r.begin(), r.end(), v.begin()); v.resize(r.size()); return v; } // numbers beyond the end are not numbers
static void model(Model const& m, ParticleDef const& p, Medium const& med)
{
    auto d = make_stochastic_deflection(m.name, p, med); auto R = randoms(); double M = p.mass;
    VK_CHECK(d->RequiredRandomNumbers() == m.n && d->GetInteractionType() == m.type, "type", "%s: type %d, %zu random numbers", m.name, (int)d->GetInteractionType(), d->RequiredRandomNumbers());
    std::vector<double> Es; for (double e : { 1.001 * M, 1.1 * M, 2 * M, 200., 500., 720., 1e3, 3e3, 1e4, 1e6, 1e9, 1e13 }) if (e > M) Es.push_back(e); if (vk::thorough()) for (double e = 110; e < 1e12; e *= 1.7) if (e > M) Es.push_back(e);
    for (auto& c : med.GetComponents()) for (double E : Es) {
        auto k = limits(m.type, p, c, med, E); if (!(k.hi > k.lo) || k.hi <= 0) continue; std::vector<double> V { k.lo, k.lo * (1 + 1e-9), k.hi, k.hi * (1 - 1e-9), k.hi * (1 - 1e-15) }; for (int i = 1; i < 8; ++i) V.push_back(std::max(k.lo, 1e-9 * k.hi) * std::pow(k.hi / std::max(k.lo, 1e-9 * k.hi), i / 8.)); for (int i = 1; i < 8; ++i) V.push_back(k.lo + (k.hi - k.lo) * i / 8.);
        if (m.kind == 1) { double g = nu_g(E / 1e3); if (g > 0) for (double e : { 0., 1e-9, 1e-8, 1e-7, 1e-6, 3e-6, 1e-5, 1e-4, -1e-9, -1e-7, -1e-6, -1e-5 }) V.push_back((g + e) * (E - M) / E); V.push_back(0.5 * (E - M) / E); }
        for (double v : V) { if (v < k.lo || v > k.hi) continue; double Ef = E * (1 - v), eps = E - Ef; if (Ef < M || eps <= 0) continue; double last = -1; vk::state(vk::hd(vk::hd(vk::hs(m.name + p.name + c.GetName()), E), v)); bool up = false, down = false;
            for (double r : R) { auto w = vk::f("%s %s on %s E=%.12g v=%.12g rnd=%.9g", m.name, p.name.c_str(), c.GetName().c_str(), E, v, r); std::vector<double> rv { r, 0.3 }; if (m.n == 1) rv = { r }; UnitSphericalVector a; try { a = d->CalculateStochasticDeflection(E, Ef, rvec(rv), c.GetHash()); } catch (std::exception const& e) { vk::fail("throws", "%s: %s", w.c_str(), e.what()); continue; } double th = a.zenith; vk::trans();
                VK_CHECK(std::isfinite(th) && std::isfinite(a.azimuth), "finite", "%s: angles %g, %g", w.c_str(), th, a.azimuth); if (!std::isfinite(th)) continue; VK_CHECK(th >= 0 && th <= PI * (1 + 1e-15), "range", "%s: polar angle %.17g", w.c_str(), th);
                VK_CLOSE(a.azimuth, 2 * PI * rv[m.n - 1], 1e-12, 0, "azimuth", "%s: azimuth", w.c_str());
                if (m.n == 2) for (double z : { 0., 0.5, 0.99999 }) { auto b = d->CalculateStochasticDeflection(E, Ef, rvec({ r, z }), c.GetHash()); VK_CHECK(b.zenith == th, "azimuth", "%s: polar angle depends on the number for the azimuth", w.c_str()); VK_CLOSE(b.azimuth, 2 * PI * z, 1e-12, 0, "azimuth", "%s: azimuth for %g", w.c_str(), z); }
                if (last >= 0) { if (th > last * (1 + 1e-9)) up = true; if (th < last * (1 - 1e-9)) down = true; } last = th;
                // what the model says, from its publication
                if (m.kind == 2) { double pi = std::sqrt((E - M) * (E + M)), pf = std::sqrt((Ef - M) * (Ef + M)), pe2 = eps * (eps + 2 * ME), cs = (pi * pi + pf * pf - pe2) / (2 * pi * pf); if (pf > 0) VK_CLOSE(std::cos(th), std::max(-1., std::min(1., cs)), 0, 2e-14 * E * E / (pi * pf) + 1e-15, "angle", "%s: momentum of the electron and angle", w.c_str()); }
                if (m.kind == 0) { double rm = std::min(1., Ef / eps) * E / M, tg = th * Ef / eps * E / M, q = rm * rm / (1 + rm * rm); VK_CLOSE(tg * tg / (1 + tg * tg), r * q, 1e-9, 1e-30, "angle", "%s: distribution of the photon angle balancing the deflection", w.c_str()); }
                if (m.kind == 1 || m.kind == 3 || m.kind == 5) { double s = rms(m.kind, E, Ef, M, c.GetNucCharge()), t = std::fabs(s) * std::sqrt(-std::log1p(-r)); if (std::isfinite(t) && Ef > M * (1 + 1e-12)) VK_CLOSE(th, std::min(t, PI), m.kind == 1 && s >= 0.2 * (1 - 1e-9) ? 1e-2 : 1e-9, 1e-300, "angle", "%s: rms angle %g", w.c_str(), s); vk::outcome(t > PI ? "beyond pi" : "gaussian"); }
                if (m.kind == 4) { double y = eps / E, tmin = M * M * y * y / (1 - y), tmax = 2 * MP * eps, t1 = std::min(eps * eps, 0.4e6), s = std::sin(th / 2), t = tmin + s * s * (4 * (E * Ef - M * M) - 2 * tmin); auto F = [&](double a) { return std::log(a / (a + t1)); }; double q = (F(tmax) - F(t)) / (F(tmax) - F(tmin)); if (tmax > tmin * (1 + 1e-6)) VK_CLOSE(q, r, 1e-6, 1e-6 + 4e-15 * E / Ef * tmax / (tmax - tmin) + 1e-9 * std::fabs(4 * E * Ef / tmin / std::max(1e-3, F(tmax) - F(tmin))) * 1e-6, "angle", "%s: distribution of the momentum transfer", w.c_str()); } }
            VK_CHECK(!(up && down), "monotone", "%s %s on %s E=%.9g v=%.9g: polar angle is not monotone in its random number", m.name, p.name.c_str(), c.GetName().c_str(), E, v); vk::outcome(up ? "growing" : down ? "falling" : "constant"); }
    }
    auto cl = d->clone(); auto cm = med.GetComponents().front(); double E = std::max(2e3, 3 * M), Ef = E * (m.kind == 2 ? 0.9999 : 0.8); auto a = d->CalculateStochasticDeflection(E, Ef, rvec(std::vector<double>(m.n, 0.3)), cm.GetHash()), b = cl->CalculateStochasticDeflection(E, Ef, rvec(std::vector<double>(m.n, 0.3)), cm.GetHash()); VK_CHECK(a.zenith == b.zenith && a.azimuth == b.azimuth && cl->GetInteractionType() == m.type, "clone", "%s: copy differs", m.name);
}
// ---- deflection applied to a direction, for all subsets of models and multipliers
static prop::Trace TR;
static PropagationUtility util(std::shared_ptr<Scattering> s)
{
    stub::list l; l.push_back(std::make_shared<prop::LossX>(I::Brems, 0.2, 10., nullptr)); PropagationUtility::Collection c; auto disp = std::make_shared<prop::Disp>(l, 2., 0, &TR); c.displacement_calc = disp; c.interaction_calc = std::make_shared<prop::Inter>(disp, l, 0, &TR, false); c.time_calc = std::make_shared<prop::Tm>(0, &TR); c.scattering = s; return PropagationUtility(c);
}
static const I TYPES[] = { I::Particle, I::Brems, I::Ioniz, I::Epair, I::Photonuclear, I::MuPair, I::Hadrons, I::ContinuousEnergyLoss, I::WeakInt, I::Compton, I::Decay, I::Annihilation, I::Photopair, I::Photoproduction, I::PhotoMuPair, I::Photoeffect };
static void apply(PropagationUtility& u, std::map<I, uptr> const& want, std::map<I, double> const& mult, std::string const& w, size_t comp)
{
    std::vector<Cartesian3D> dirs; for (auto& q : std::vector<std::array<double, 3>> { { 0, 0, 1 }, { 0, 0, -1 }, { 1, 0, 0 }, { 0, -1, 0 }, { 0.6, 0, -0.8 }, { -0.48, 0.64, 0.6 }, { 1e-9, 0, 1 } }) { Cartesian3D d(q[0], q[1], q[2]); d.normalize(); dirs.push_back(d); }
    for (I t : TYPES) for (auto& d : dirs) for (double E : { 1e4, 1e6 }) for (double v : { 0.03, 0.3, 0.45 }) for (double r : { 0., 0.2, 0.7 }) for (double z : { 0., 0.25, 0.6 }) { double Ef = E * (1 - v); int used = 0; auto g = [&] { return used++ ? z : r; }; auto it = want.find(t);
        if (it == want.end()) { auto n = u.DirectionDeflect(t, E, Ef, d, g, comp); VK_CHECK(n == d && used == 0, "untouched", "%s: type %d without model deflects or uses %d random numbers", w.c_str(), (int)t, used); continue; }
        size_t n = it->second->RequiredRandomNumbers(); std::vector<double> rv { r, z }; rv.resize(n); auto a = it->second->CalculateStochasticDeflection(E, Ef, rv, comp); double f = mult.count(t) ? mult.at(t) : 1; auto x = u.DirectionDeflect(t, E, Ef, d, g, comp); vk::trans();
        auto W = w + vk::f(": type %d E=%g v=%g rnd %g %g direction (%g, %g, %g)", (int)t, E, v, r, z, d.GetX(), d.GetY(), d.GetZ());
        VK_CHECK(used == (int)n, "numbers", "%s: %d random numbers used instead of %zu", W.c_str(), used, n); VK_CLOSE(x.magnitude(), 1, 1e-9, 0, "unit", "%s: length", W.c_str()); VK_CLOSE(x * d, std::cos(f * a.zenith), 0, 1e-9, "applied", "%s: cosine of the deflection", W.c_str());
        if (std::sin(f * a.zenith) > 1e-4) { auto ref = d; ref.deflect(std::cos(f * a.zenith), 0.); double c = (ref - std::cos(f * a.zenith) * d) * (x - std::cos(f * a.zenith) * d) / std::pow(std::sin(f * a.zenith), 2); VK_CLOSE(c, std::cos(a.azimuth), 0, 1e-4, "azimuth", "%s: azimuth of the deflection", W.c_str()); } }
}
static void application()
{
    MuMinusDef mu; Water water; size_t comp = water.GetComponents().front().GetHash(); std::vector<double> F { 0, 0.5, 2 };
    vk::bound("application: all subsets of the six models with at most one of a type x multipliers 0, 0.5, 2 or none for one type, built from objects and from the configuration, x 16 interaction types x 7 directions");
    int pick[] = { 0, 0, 0, 0 }; const std::vector<int> byt[] = { { 0, 1 }, { 2 }, { 3 }, { 4, 5 } };
    for (pick[0] = 0; pick[0] < 3; ++pick[0]) for (pick[1] = 0; pick[1] < 2; ++pick[1]) for (pick[2] = 0; pick[2] < 2; ++pick[2]) for (pick[3] = 0; pick[3] < 3; ++pick[3]) { std::vector<int> set; for (int t = 0; t < 4; ++t) if (pick[t]) set.push_back(byt[t][pick[t] - 1]); std::string nm; for (int s : set) nm += std::string(" ") + MODELS[s].name;
        for (int mt = -1; mt < 6; ++mt) vk::cs(vk::f("apply%s multiplier %d", nm.c_str(), mt), [&, set, mt] {
            static const I MT[] = { I::Brems, I::Ioniz, I::Epair, I::Photonuclear, I::Compton, I::Particle }; static const char* MN[] = { "Brems", "iONIZ", "epair", "PHOTONUCLEAR", "compton", "" };
            for (double f : F) { if (mt < 0 && f != 2) continue; std::map<I, double> mult; if (mt >= 0 && mt < 5) mult[MT[mt]] = f; if (mt == 5) { mult[I::Brems] = f; mult[I::Epair] = 0.25; mult[I::Ioniz] = 1; }
                std::map<I, uptr> want; for (int s : set) want[MODELS[s].type] = make_stochastic_deflection(MODELS[s].name, mu, water);
                for (int how = 0; how < 3; ++how) { std::shared_ptr<Scattering> sc; std::unique_ptr<multiple_scattering::Parametrization> none; std::vector<std::pair<I, double>> ml(mult.begin(), mult.end());
                    if (how == 0) { std::vector<uptr> v; for (int s : set) v.push_back(make_stochastic_deflection(MODELS[s].name, mu, water)); if (mult.empty()) sc = std::make_shared<Scattering>(std::move(none), std::move(v)); else sc = std::make_shared<ScatteringMultiplier>(std::move(none), std::move(v), 1., ml); }
                    else if (how == 1) { std::vector<uptr> v; for (auto s = set.rbegin(); s != set.rend(); ++s) v.push_back(make_stochastic_deflection(MODELS[*s].name, mu, water)); auto const& cv = v; if (mult.empty()) sc = std::make_shared<Scattering>(nullptr, cv); else sc = std::make_shared<ScatteringMultiplier>(nullptr, cv, 3., ml); }
                    else { nlohmann::json j = nlohmann::json::object(); std::vector<std::string> names; for (int s : set) { std::string n = MODELS[s].name; for (size_t i = 0; i < n.size(); ++i) if ((i + s) % 3 == 0) n[i] = std::toupper(n[i]); else if ((i + s) % 3 == 1) n[i] = std::tolower(n[i]); names.push_back(n); } if (!names.empty()) j["stochastic_deflection"] = names; for (auto& q : mult) for (int i = 0; i < 5; ++i) if (MT[i] == q.first) j["stochastic_deflection_multiplier"][MN[i]] = q.second; sc = make_scattering(j, mu, water, stub::list(), false); }
                    for (I t : TYPES) VK_CHECK(sc->StochasticDeflectionRandomNumbers(t) == (want.count(t) ? want[t]->RequiredRandomNumbers() : 0), "numbers", "%s: %zu random numbers for type %d", nm.c_str(), sc->StochasticDeflectionRandomNumbers(t), (int)t);
                    auto u = util(sc); apply(u, want, mult, vk::f("models%s, multipliers %d %g, built %d", nm.c_str(), mt, f, how), comp); vk::outcome("applied"); } } });
    }
    vk::cs("no scattering", [&] { auto u = util(nullptr); apply(u, {}, {}, "no scattering", comp); });
}
static void names()
{
    MuMinusDef mu; Water water; std::vector<std::string> N; for (auto& m : MODELS) N.push_back(m.name); for (auto s : { "", "brems", "bremsginneken ", "default", "none", "ioniz", "photo" }) N.push_back(s);
    for (auto& n : N) for (int c = 0; c < 3; ++c) vk::cs(vk::f("name \"%s\" %d", n.c_str(), c), [&] { std::string s = n; for (size_t i = 0; i < s.size(); ++i) s[i] = c == 0 ? s[i] : c == 1 ? std::toupper(s[i]) : std::tolower(s[i]); const Model* m = nullptr; for (auto& q : MODELS) if (n == q.name) m = &q;
        uptr p; bool threw = false; try { p = make_stochastic_deflection(s, mu, water); } catch (std::out_of_range const&) { threw = true; } VK_CHECK(threw == !m, "name", "\"%s\" is %s", s.c_str(), threw ? "refused" : "accepted"); if (!m || !p) return;
        bool ok = m->kind == 0 ? !!dynamic_cast<sdef::BremsTsaiApproximation*>(p.get()) : m->kind == 1 ? !!dynamic_cast<sdef::BremsGinneken*>(p.get()) : m->kind == 2 ? !!dynamic_cast<sdef::IonizNaive*>(p.get()) : m->kind == 3 ? !!dynamic_cast<sdef::EpairGinneken*>(p.get()) : m->kind == 4 ? !!dynamic_cast<sdef::PhotoBorogPetrukhin*>(p.get()) : !!dynamic_cast<sdef::PhotoGinneken*>(p.get()); VK_CHECK(ok, "name", "\"%s\" selects another model", s.c_str()); });
    for (I t : TYPES) for (int c = 0; c < 3; ++c) vk::cs(vk::f("default %d %d", (int)t, c), [&] { const Model* m = nullptr; for (auto& q : MODELS) if (q.dflt && q.type == t) m = &q; uptr p; bool threw = false; try { p = make_default_stochastic_deflection(t, ParticleDef(mu), Medium(water)); } catch (std::logic_error const&) { threw = true; } VK_CHECK(threw == !m, "default", "type %d: default model %s", (int)t, threw ? "refused" : "given");
        std::string nm = std::string("default") + Type_Interaction_Name_Map.find(t)->second; for (size_t i = 0; i < nm.size(); ++i) nm[i] = c == 0 ? nm[i] : c == 1 ? std::toupper(nm[i]) : std::tolower(nm[i]); nlohmann::json j; j["stochastic_deflection"] = { nm }; std::unique_ptr<Scattering> sc; threw = false; try { sc = make_scattering(j, mu, water, stub::list(), false); } catch (std::logic_error const&) { threw = true; } VK_CHECK(threw == !m, "default", "\"%s\" in the configuration is %s", nm.c_str(), threw ? "refused" : "accepted");
        if (!m || !p || !sc) return; auto s2 = make_scattering(MultipleScatteringType::NoScattering, { t }, ParticleDef(mu), Medium(water)); auto ref = make_stochastic_deflection(m->name, mu, water); for (double v : { 0.1, 0.25 }) { std::vector<double> r(m->n, 0.4); size_t h = water.GetComponents().back().GetHash(); auto a = ref->CalculateStochasticDeflection(5e3, 5e3 * (1 - v), r, h); for (auto b : { p->CalculateStochasticDeflection(5e3, 5e3 * (1 - v), r, h), sc->CalculateStochasticDeflection(t, 5e3, 5e3 * (1 - v), r, h), s2->CalculateStochasticDeflection(t, 5e3, 5e3 * (1 - v), r, h) }) VK_CHECK(a.zenith == b.zenith && a.azimuth == b.azimuth, "default", "default model of type %d deflects by %g, %s by %g", (int)t, b.zenith, m->name, a.zenith); } });
    for (auto bad : { "nothing", "defaultnothing", "default" }) vk::cs(std::string("refuse ") + bad, [&] { nlohmann::json j; j["stochastic_deflection"] = { bad }; bool threw = false; try { make_scattering(j, mu, water, stub::list(), false); } catch (std::out_of_range const&) { threw = true; } VK_CHECK(threw, "name", "\"%s\" is accepted", bad); nlohmann::json k; k["stochastic_deflection_multiplier"][bad] = 2.; threw = false; try { make_scattering(k, mu, water, stub::list(), false); } catch (std::out_of_range const&) { threw = true; } VK_CHECK(threw, "name", "multiplier for \"%s\" is accepted", bad); });
}
void vk_main()
{
    Logging::SetGlobalLoglevel(spdlog::level::off); names(); application(); std::vector<ParticleDef> P { MuMinusDef(), MuPlusDef(), EMinusDef(), EPlusDef(), TauMinusDef(), TauPlusDef() }; std::vector<Medium> M { Water(), StandardRock(), Hydrogen(), Uranium() };
    vk::bound(vk::f("models: 6 x %zu particles x %zu media x components x energies from just above the mass to 1e13 x energy losses at, near and between the kinematic limits x %zu random numbers", P.size(), M.size(), randoms().size()));
    for (auto& m : MODELS) for (auto& p : P) for (auto& med : M) vk::cs(std::string(m.name) + " " + p.name + " " + med.GetName(), [&] { model(m, p, med); });
}
