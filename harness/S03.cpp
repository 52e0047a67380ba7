// vk: flavor=o1 shards=8 limit=800
#include "xs.h"
#include "kkp.h"
#include <algorithm>
#include <set>
#include "PROPOSAL/Logging.h"
#include "PROPOSAL/secondaries/SecondariesCalculator.h"
#include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.h"
#include "PROPOSAL/secondaries/parametrization/photoeffect/PhotoeffectNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.h"
#include "PROPOSAL/secondaries/parametrization/photonuclear/Photonuclear.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.h"
#include "PROPOSAL/secondaries/parametrization/photoproduction/Photoproduction.h"
#include "PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.h"
using namespace PROPOSAL; using I = InteractionType; namespace se = secondaries; namespace C = crosssection; using T = ParticleType; using Par = se::Parametrization;
struct V3 { double x, y, z; V3 operator+(V3 o) const { return { x + o.x, y + o.y, z + o.z }; } V3 operator*(double a) const { return { x * a, y * a, z * a }; } V3 operator-(V3 o) const { return *this + o * -1; } double operator*(V3 o) const { return x * o.x + y * o.y + z * o.z; } double mag() const { return std::sqrt(*this * *this); } };
static V3 v3(Cartesian3D const& c) { return { c.GetX(), c.GetY(), c.GetZ() }; }
static V3 cross(V3 a, V3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
static double mass_of(int t) { switch ((T)t) { case T::Gamma: case T::Hadron: case T::NuE: case T::NuEBar: case T::NuMu: case T::NuMuBar: case T::NuTau: case T::NuTauBar: return 0; case T::EMinus: case T::EPlus: return ME; case T::MuMinus: case T::MuPlus: return MMU; case T::TauMinus: case T::TauPlus: return MTAU; default: return ParticleDef::GetParticleDefForType(t).mass; } }
struct Model { const char* name; I type; size_t n; bool dflt; std::function<std::unique_ptr<Par>(ParticleDef const&, Medium const&)> make; };
template <class M> static std::function<std::unique_ptr<Par>(ParticleDef const&, Medium const&)> mk() { return [](ParticleDef const& p, Medium const& m) { return std::unique_ptr<Par>(new M(p, m)); }; }
static std::vector<Model> models()
{
    return { { "BremsEGS4", I::Brems, 1, true, mk<se::BremsEGS4Approximation>() }, { "BremsKochMotz", I::Brems, 2, false, mk<se::BremsKochMotz>() }, { "BremsNoDeflection", I::Brems, 0, false, mk<se::BremsNoDeflection>() },
        { "Ionization", I::Ioniz, 1, true, mk<se::NaivIonization>() }, { "Photonuclear", I::Photonuclear, 0, true, mk<se::Photonuclear>() },
        { "EpairKKP", I::Epair, 3, true, mk<se::KelnerKokoulinPetrukhinEpairProduction>() }, { "EpairElectron", I::Epair, 3, false, mk<se::ForElectronPositronEpairProduction>() }, { "Mupair", I::MuPair, 3, true, mk<se::KelnerKokoulinPetrukhinMupairProduction>() },
        { "Weak", I::WeakInt, 1, true, mk<se::WeakCooperSarkarMertsch>() }, { "Compton", I::Compton, 1, true, mk<se::NaivCompton>() }, { "Annihilation", I::Annihilation, 2, true, mk<se::HeitlerAnnihilation>() }, { "Photoeffect", I::Photoeffect, 0, true, mk<se::PhotoeffectNoDeflection>() },
        { "PhotoMuPair", I::PhotoMuPair, 2, true, mk<se::PhotoMuPairProductionBurkhardtKelnerKokoulin>() }, { "Photoproduction", I::Photoproduction, 0, true, mk<se::Photoproduction>() },
        { "PairTsaiForward", I::Photopair, 4, false, mk<se::PhotoPairProductionTsaiForwardPeaked>() }, { "PairTsai", I::Photopair, 4, false, mk<se::PhotoPairProductionTsai>() }, { "PairTsaiSauter", I::Photopair, 4, false, mk<se::PhotoPairProductionTsaiSauter>() },
        { "PairKochMotzForward", I::Photopair, 4, false, mk<se::PhotoPairProductionKochMotzForwardPeaked>() }, { "PairKochMotzSauter", I::Photopair, 4, true, mk<se::PhotoPairProductionKochMotzSauter>() } };
}
static std::vector<ParticleDef> particles(std::string const& m)
{
    if (m == "Compton" || m == "Photoeffect" || m.substr(0, 5) == "Photo" || m.substr(0, 4) == "Pair") if (m != "Photonuclear") return { GammaDef() };
    if (m == "Annihilation") return { EPlusDef() }; if (m == "EpairElectron") return { EMinusDef(), EPlusDef() };
    std::vector<ParticleDef> v { MuMinusDef(), MuPlusDef(), EMinusDef(), EPlusDef(), TauMinusDef(), TauPlusDef() };
    return v;
}

struct Lim { double lo, hi; };
// range of the relative loss the process allows; a stochastic process takes the whole energy
static Lim limits(Model const& M, ParticleDef const& p, Component const& c, Medium const& m, double E)
{
    static EnergyCutSettings cut(500, 1, false); C::KinematicLimits k { 1, 1 }; std::string n = M.name;
    switch (M.type) {
    case I::Brems: k = C::BremsKelnerKokoulinPetrukhin(false).GetKinematicLimits(p, c, E); break;
    case I::Epair: k = C::EpairKelnerKokoulinPetrukhin(false).GetKinematicLimits(p, c, E); break;
    case I::MuPair: k = C::MupairKelnerKokoulinPetrukhin().GetKinematicLimits(p, c, E); break;
    case I::Photonuclear: k = C::PhotoAbramowiczLevinLevyMaor97(std::make_shared<C::ShadowButkevichMikheyev>()).GetKinematicLimits(p, c, E); break;
    case I::Compton: k = C::ComptonKleinNishina().GetKinematicLimits(p, c, E); break;
    case I::Ioniz: k = p.mass == ME ? p.charge > 0 ? C::IonizBergerSeltzerBhabha(cut).GetKinematicLimits(p, m, E) : C::IonizBergerSeltzerMoller(cut).GetKinematicLimits(p, m, E) : C::IonizBetheBlochRossi(cut).GetKinematicLimits(p, m, E); break;
    case I::Photopair: { static C::PhotoPairTsai t(false); static C::PhotoPairKochMotz km(false); return (n.find("Tsai") != std::string::npos ? t.DifferentialCrossSection(p, c, E, 0.5) : km.DifferentialCrossSection(p, c, E, 0.5)) > 0 ? Lim { 1, 1 } : Lim { 1, 0 }; }
    case I::PhotoMuPair: return C::PhotoMuPairBurkhardtKelnerKokoulin().DifferentialCrossSection(p, c, E, 0.5) > 0 ? Lim { 1, 1 } : Lim { 1, 0 };
    case I::WeakInt: { auto w = C::WeakCooperSarkarMertsch(); return E > w.GetLowerEnergyLim(p) ? Lim { 1, 1 } : Lim { 1, 0 }; }
    case I::Photoeffect: return E > std::pow(c.GetNucCharge() * ALPHA, 2) * ME / 2 ? Lim { 1, 1 } : Lim { 1, 0 };
    default: break;
    }
    return { k.v_min, k.v_max };
}
static std::vector<double> rvec(std::vector<double> const& r) { std::vector<double> v; v.reserve(12); v.resize(12, NAN); std::copy(r.begin(), r.end(), v.begin()); v.resize(r.size()); return v; }
static const double ONE = 1 - std::ldexp(1., -53);
static std::vector<double> rgrid() { std::vector<double> v { 0, 1e-9, 0.01, 0.3, 0.5, 0.7, 0.99, 1 - 1e-9, ONE }; if (vk::thorough()) for (double x : { 1e-4, 0.05, 0.1, 0.2, 0.4, 0.6, 0.8, 0.9, 0.95, 0.9999 }) v.push_back(x); std::sort(v.begin(), v.end()); return v; }
static const V3 DIRS[] = { { 0, 0, 1 }, { 0, 0, -1 }, { 1, 0, 0 }, { 0, -1, 0 }, { 0.48, -0.6, 0.64 }, { 1e-9, 0, 1 }, { -0.6, 0.8, 0 } };
struct Out { int type; double e; V3 d; };
struct Ctx { Model const& M; ParticleDef const& p; Medium const& m; Component const& c; double E, v; V3 n; std::vector<double> r; std::string w; };
static std::vector<int> expected(Ctx const& x)
{
    int P = x.p.particle_type; auto t = [](T a) { return (int)a; };
    switch (x.M.type) {
    case I::Brems: return { P, t(T::Gamma) };
    case I::Ioniz: return { P, t(T::EMinus) };
    case I::Photonuclear: return { P, t(T::Hadron) };
    case I::Epair: return { P, t(T::EMinus), t(T::EPlus) };
    case I::MuPair: return { P, t(T::MuMinus), t(T::MuPlus) };
    case I::WeakInt: { int w = P == t(T::MuMinus) ? t(T::NuMu) : P == t(T::MuPlus) ? t(T::NuMuBar) : P == t(T::EMinus) ? t(T::NuE) : P == t(T::EPlus) ? t(T::NuEBar) : P == t(T::TauMinus) ? t(T::NuTau) : t(T::NuTauBar); return { w, t(T::Hadron) }; }
    case I::Compton: return { t(T::Gamma), t(T::EMinus) };
    case I::Annihilation: return { t(T::Gamma), t(T::Gamma) };
    case I::Photoeffect: return { t(T::EMinus) };
    case I::PhotoMuPair: return { t(T::MuMinus), t(T::MuPlus) };
    case I::Photoproduction: return { t(T::Hadron) };
    case I::Photopair: return { t(T::EMinus), t(T::EPlus) };
    default: return {};
    }
}
static double available(Ctx const& x)
{
    if (x.M.type == I::Compton || x.M.type == I::Ioniz || x.M.type == I::Annihilation) return x.E + ME;
    if (x.M.type == I::Photoeffect) return x.E + ME - std::pow(x.c.GetNucCharge() * ALPHA, 2) * ME / 2; // bound in the K shell
    return x.E;
}
static std::vector<Out> produce(Par& par, Ctx const& x, bool& ok)
{
    std::vector<Out> out; ok = false; V3 n = x.n * (1 / x.n.mag()); StochasticLoss loss((int)x.M.type, x.E * x.v, Cartesian3D(11, -22, 33), Cartesian3D(n.x, n.y, n.z), 1.5e-9, 77., x.E, x.c.GetHash()); auto rv = rvec(x.r); std::vector<ParticleState> s;
    try { s = par.CalculateSecondaries(loss, x.c, rv); } catch (std::exception const& e) { vk::fail(vk::f("throws-%s", x.M.name), "%s: %s", x.w.c_str(), e.what()); return out; }
    vk::trans(); auto ex = expected(x); double sum = 0, tol = 1e-12 * available(x); ok = true;
    std::vector<int> got; for (auto& a : s) got.push_back(a.type); auto g2 = got; std::sort(g2.begin(), g2.end()); auto e2 = ex; std::sort(e2.begin(), e2.end());
    VK_CHECK(g2 == e2, vk::f("type-%s", x.M.name), "%s: %zu particles, first of type %d", x.w.c_str(), s.size(), s.empty() ? 0 : s[0].type); if (g2 != e2) { ok = false; return out; }
    for (size_t i = 0; i < s.size(); ++i) {
        auto& a = s[i]; V3 d = v3(Cartesian3D(a.direction)), q = v3(Cartesian3D(a.position)); double mi = mass_of(a.type); sum += a.energy;
        VK_CHECK(q.x == 11 && q.y == -22 && q.z == 33, "position", "%s: particle %zu at %g %g %g", x.w.c_str(), i, q.x, q.y, q.z); VK_CHECK(a.time == 1.5e-9, "time", "%s: particle %zu at %g s", x.w.c_str(), i, a.time);
        VK_CHECK(a.propagated_distance == 0 || (a.propagated_distance == 77. && a.type == x.p.particle_type), "distance", "%s: particle %zu propagated %g", x.w.c_str(), i, a.propagated_distance);
        VK_CHECK(std::fabs(d.mag() - 1) < 1e-9, vk::f("unit-%s", x.M.name), "%s: particle %zu with direction %.17g %.17g %.17g", x.w.c_str(), i, d.x, d.y, d.z); if (!(std::fabs(d.mag() - 1) < 1e-9)) ok = false;
        VK_CHECK(std::isfinite(a.energy) && a.energy >= mi - tol && a.energy <= available(x) + tol, vk::f("mass-%s", x.M.name), "%s: particle %zu of type %d with energy %.17g", x.w.c_str(), i, a.type, a.energy); if (!std::isfinite(a.energy)) ok = false;
        out.push_back({ a.type, a.energy, d });
    }
    VK_CLOSE(sum, available(x), 1e-12, 0, vk::f("energy-%s", x.M.name), "%s: sum of the energies", x.w.c_str());
    // the particle which interacts keeps what the loss leaves
    for (auto& o : out) if (x.v < 1 && o.type == x.p.particle_type && (x.M.type == I::Brems || x.M.type == I::Photonuclear || x.M.type == I::Compton)) VK_CLOSE(o.e, x.E - x.E * x.v, 1e-12, 1e-12 * x.E, "primary", "%s: energy of the primary", x.w.c_str());
    if (ex[0] == x.p.particle_type && x.M.type != I::Photonuclear && x.M.type != I::Brems && x.M.type != I::Compton && got[0] == ex[0]) VK_CLOSE(out[0].e, x.E - x.E * x.v, 1e-12, 1e-12 * x.E, "primary", "%s: energy of the primary", x.w.c_str());
    if (got != ex) { std::vector<Out> o; for (int t : ex) for (auto& q : out) if (q.type == t) { o.push_back(q); q.type = 0; break; } out = o; }
    return out;
}
static double mom(double e, double m) { return e > m ? std::sqrt((e - m) * (e + m)) : 0; }
static V3 perp(V3 d, V3 n) { return d - n * (d * n); }
// what each model says about energies and directions
static double cdf(std::function<double(double)> const& f, double a, double b, double x) { auto t = xs::quad(f, a, b, 1e-9), h = xs::quad(f, a, x, 1e-9); return h.val / t.val; }
static void judge(Ctx const& x, std::vector<Out> const& o, bool full)
{
    V3 n = x.n * (1 / x.n.mag()); double M = x.p.mass, E = x.E; auto& r = x.r; std::string nm = x.M.name; auto key = [&](const char* k) { return vk::f("%s-%s", k, x.M.name); };
    auto angle = [&](V3 d) { return std::atan2(cross(d, n).mag(), d * n); };
    switch (x.M.type) {
    case I::Brems: {
        double pi = mom(E, M), k = o[1].e; if (nm == "BremsNoDeflection") { VK_CHECK((o[0].d - n).mag() < 1e-12 && (o[1].d - n).mag() < 1e-12, key("direction"), "%s: deflected", x.w.c_str()); break; }
        if (nm == "BremsEGS4") VK_CLOSE(angle(o[1].d), M / E, 1e-6, 3e-8, key("direction"), "%s: angle of the photon", x.w.c_str());
        V3 q = n * pi - o[1].d * k; if (q.mag() > 1e-6 * pi) VK_CHECK((o[0].d - q * (1 / q.mag())).mag() < 1e-7, key("momentum"), "%s: electron is not along the remaining momentum", x.w.c_str()); break; }
    case I::Ioniz: case I::Annihilation: case I::Compton: {
        double pi = mom(E, M); V3 tot = n * pi; for (auto& q : o) tot = tot - q.d * mom(q.e, mass_of(q.type)); VK_CHECK(tot.mag() < 1e-6 * pi + 1e-7 * (E + ME), key("momentum"), "%s: momentum changes by %g of %g", x.w.c_str(), tot.mag(), pi); break; }
    case I::Photonuclear: case I::Photoeffect: case I::Photoproduction: case I::WeakInt: case I::Epair: case I::MuPair: for (auto& q : o) VK_CHECK((q.d - n).mag() < 1e-12, key("direction"), "%s: deflected", x.w.c_str()); break;
    case I::PhotoMuPair: for (auto& q : o) VK_CLOSE(angle(q.d), MMU / E, 1e-6, 3e-8, key("direction"), "%s: angle", x.w.c_str()); break;
    case I::Photopair: if (nm.find("Forward") != std::string::npos) for (auto& q : o) VK_CLOSE(angle(q.d), std::min(ME / E, 2 * PI - ME / E), 1e-6, 3e-8, key("direction"), "%s: angle", x.w.c_str());
        if (nm.find("Sauter") != std::string::npos) for (int i = 0; i < 2; ++i) { // 1/(E - p cos)^2
            double e = o[i].e, p = mom(e, ME), cs = o[i].d * n, u = r[2 + i]; if (u == 0 || !(p > 1e-3 * ME)) continue; double md = ME * ME / (e + p), th = angle(o[i].d), den = md + 2 * p * std::pow(std::sin(th / 2), 2); double lo = 1 / (e + p), q = (1 / den - lo) / (1 / md - lo); VK_CLOSE(q, u, 1e-6, 1e-6 + 1e-14 * e * e / ME / ME, key("direction"), "%s: distribution of the angle of particle %d (%g)", x.w.c_str(), i, cs); }
        break;
    default: break;
    }
    // opposite azimuths of a pair of particles sharing one azimuth
    if (o.size() >= 2) { size_t a = o.size() - 2, b = o.size() - 1; V3 pa = perp(o[a].d, n), pb = perp(o[b].d, n); if (pa.mag() > 1e-6 && pb.mag() > 1e-6) VK_CHECK((pa * (1 / pa.mag()) + pb * (1 / pb.mag())).mag() < 1e-6, key("azimuth"), "%s: secondaries are not back to back around the direction of the parent", x.w.c_str()); }
    if (!full) return;
    // distribution of the energies
    if (x.M.type == I::Annihilation) { double g = E / ME, au = std::sqrt((g - 1) / (g + 1)), a = 0.5 * (1 - au), b = 0.5 * (1 + au), f2 = 1 / (g + 1) / (g + 1), f1 = 1 + 2 * g * f2; auto f = [&](double q) { return f1 / q - f2 / q / q - 1; }; for (int i : { 1 }) { double rho = o[i].e / (E + ME); if (au > 1e-5) VK_CLOSE(cdf([&](double t) { double q = std::exp(t); return q * f(q); }, std::log(a), std::log(b), std::log(std::min(b, std::max(a, rho)))), r[0], 1e-5, 1e-5 + 1e-5 / au + 1e-16 * g, key("share"), "%s: distribution of the energy", x.w.c_str()); } }
    if (x.M.type == I::Epair || x.M.type == I::MuPair) {
        double rho = (o[1].e - o[2].e) / (o[1].e + o[2].e), rm; std::function<double(double)> f; double v = x.v;
        auto as = x.M.type == I::MuPair ? pairs::mupair_kkp(x.p, x.c, E, v) : nm == "EpairKKP" ? pairs::epair_kkp(x.p, x.c, E, v) : pairs::epair_electron(x.p, x.c, E, v); rm = as.max; f = as.f;
        VK_CHECK(std::fabs(rho) <= rm * (1 + 1e-9) + 1e-9, key("asymmetry"), "%s: asymmetry %g beyond %g", x.w.c_str(), rho, rm);
        if (std::fabs(rho) > 1e-9) VK_CHECK((rho < 0) == (r[1] < 0.5), key("sign"), "%s: asymmetry %g", x.w.c_str(), rho);
        if (rm > 1e-4) { auto g = [&](double q) { double u = std::exp(q); return u * f(1 - u); }; double lo = std::log(std::max(1 - rm, 1e-10)); auto t = xs::quad(g, lo, 0, 1e-7); if (t.ok && t.val > 0 && std::fabs(rho) < 1) { double F = xs::quad(g, std::log1p(-std::fabs(rho)), 0, 1e-7).val / t.val; VK_CLOSE(std::fabs(F - r[0]) < std::fabs(1 - F - r[0]) ? F : 1 - F, r[0], 0, nm == "EpairKKP" && M == ME ? 6e-2 : 1.5e-2, key("share"), "%s: distribution of the asymmetry (%g of %g)", x.w.c_str(), rho, rm); vk::outcome("asymmetry"); } } }
    if (x.M.type == I::PhotoMuPair || x.M.type == I::Photopair || x.M.type == I::WeakInt) {
        std::function<double(double)> f; C::KinematicLimits k; double q = o[0].e / E; GammaDef G; static C::PhotoPairTsai ts(false); static C::PhotoPairKochMotz km(false); static C::PhotoMuPairBurkhardtKelnerKokoulin bk; static C::WeakCooperSarkarMertsch we;
        if (x.M.type == I::PhotoMuPair) { k = bk.GetKinematicLimits(x.p, x.c, E); k.v_min = std::max(k.v_min, MMU / E); k.v_max = std::min(k.v_max, 1 - MMU / E); q = o[1].e / E; f = [&](double t) { return bk.DifferentialCrossSection(x.p, x.c, E, t); }; }
        else if (x.M.type == I::WeakInt) { k = we.GetKinematicLimits(x.p, x.c, E); f = [&](double t) { return we.DifferentialCrossSection(x.p, x.c, E, t); }; q = o[1].e / E; }
        else if (nm.find("Tsai") != std::string::npos) { k = ts.GetKinematicLimits(x.p, x.c, E); f = [&](double t) { return ts.DifferentialCrossSection(x.p, x.c, E, t); }; }
        else { k = km.GetKinematicLimits(x.p, x.c, E); f = [&](double t) { return km.DifferentialCrossSection(x.p, x.c, E, t); }; }
        VK_CHECK(q >= k.v_min * (1 - 1e-9) && q <= k.v_max * (1 + 1e-9), key("share"), "%s: fraction %.17g outside of [%g, %g]", x.w.c_str(), q, k.v_min, k.v_max);
        if (k.v_max > k.v_min * 1.02) { auto t = xs::vint(f, k.v_min, k.v_max, 1e-7), h = xs::vint(f, k.v_min, std::min(k.v_max, std::max(k.v_min, q)), 1e-7); if (t.val > 0 && t.ok && std::isfinite(t.val) && std::isfinite(h.val)) { VK_CLOSE(h.val / t.val, r[0], 0, 2e-3, key("share"), "%s: distribution of the fraction (%g in [%g, %g])", x.w.c_str(), q, k.v_min, k.v_max); vk::outcome("fraction"); } } }
}
static std::vector<double> energies(Model const& M, ParticleDef const& p)
{
    std::vector<double> v; double m = p.mass;
    if (M.type == I::Photopair) v = { 1.2, 1.3, 1.5, 2, 2.5, 10, 100, 1e4, 1e7, 1e11 }; else if (M.type == I::PhotoMuPair) v = { 352, 370, 500, 800, 1e3, 1e5, 1e9 };
    else if (m == 0) v = { 1e-3, 1e-2, 0.1, 0.3, 1, 10, 1e3, 1e6, 1e10 }; else { for (double g : { 1 + 1e-12, 1 + 1e-6, 1.001, 1.1, 2., 10. }) v.push_back(m * g); for (double e : { 200., 720., 1e3, 1e4, 1e6, 1e9, 1e13 }) if (e > m) v.push_back(e); }
    if (M.type == I::WeakInt) v = { 1.2e3, 5e3, 1e4, 1e6, 1e8, 1e11 }; if (vk::thorough()) { auto w = v; for (size_t i = 0; i + 1 < w.size(); ++i) { double a = w[i], b = w[i + 1]; v.push_back(std::sqrt(a * b)); if (b > 5 * a) { v.push_back(std::pow(a, 0.75) * std::pow(b, 0.25)); v.push_back(std::pow(a, 0.25) * std::pow(b, 0.75)); } } }
    return v;
}
static void model(Model const& M, ParticleDef const& p, Medium const& med)
{
    auto par = M.make(p, med); auto R = rgrid(); VK_CHECK(par->RequiredRandomNumbers() <= M.n && par->GetInteractionType() == M.type, "kind", "%s asks for %zu random numbers, type %d", M.name, par->RequiredRandomNumbers(), (int)par->GetInteractionType()); size_t N = par->RequiredRandomNumbers();
    bool heavy = std::string(M.name) == "PairTsai", integ = M.type == I::Epair || M.type == I::MuPair || M.type == I::WeakInt || M.type == I::Photopair || M.type == I::PhotoMuPair || M.type == I::Annihilation;
    for (auto& c : med.GetComponents()) for (double E : energies(M, p)) {
        auto k = limits(M, p, c, med, E); if (!(k.hi >= k.lo) || k.hi <= 0 || k.lo > 1 || (k.lo < 1 && k.lo == k.hi)) continue; std::vector<double> V; bool stoch = M.type != I::Brems && M.type != I::Ioniz && M.type != I::Epair && M.type != I::MuPair && M.type != I::Photonuclear && M.type != I::Compton; if (!stoch && !(k.hi > k.lo)) continue;
        if (k.lo == 1) V = { 1 }; else { for (double v : { k.lo, k.hi, k.lo * (1 + 1e-9), k.hi * (1 - 1e-9), k.hi * (1 - 1e-15), k.lo + (k.hi - k.lo) * 1e-4, 0.5 * (k.lo + k.hi), k.lo + 0.9 * (k.hi - k.lo) }) V.push_back(v); for (int i = 1; i < 4; ++i) V.push_back(std::max(k.lo, 1e-9 * k.hi) * std::pow(k.hi / std::max(k.lo, 1e-9 * k.hi), i / 4.)); if (vk::thorough()) for (int i = 1; i < 12; ++i) V.push_back(k.lo + (k.hi - k.lo) * i / 12.); std::sort(V.begin(), V.end()); V.erase(std::unique(V.begin(), V.end()), V.end()); }
        for (double v : V) { if (v < k.lo || v > k.hi || v <= 0 || (M.n && M.type != I::Compton && v < 1 && E - E * v < p.mass)) continue; if (v < 1 && E - E * v < p.mass) continue; if (M.type == I::Ioniz) { double a = std::sqrt((E - p.mass) * (E + p.mass)), e = E - E * v, b = std::sqrt(std::max(0., (e - p.mass) * (e + p.mass))), q = std::sqrt(E * v * (E * v + 2 * ME)); if (q < (a - b) * (1 - 1e-9)) continue; } // no electron can take this energy
            vk::state(vk::hd(vk::hd(vk::hs(M.name + p.name + c.GetName()), E), v)); int id = 0;
            auto run = [&](std::vector<double> r, V3 n, bool full) { Ctx x { M, p, med, c, E, v, n, r, "" }; x.w = vk::f("%s %s on %s E=%.12g v=%.12g dir=(%g,%g,%g) rnd=", M.name, p.name.c_str(), c.GetName().c_str(), E, v, n.x, n.y, n.z); for (double q : r) x.w += vk::f(" %.9g", q); bool ok; auto o = produce(*par, x, ok); if (ok) judge(x, o, full); if (!ok) o.clear(); return o; };
            // the numbers: each over the grid, the others at two values
            for (size_t i = 0; i < std::max<size_t>(N, 1); ++i) for (double a : R) for (double b : { 0.25, 0.8 }) { if (heavy && (i > 0) && (b > 0.5)) continue; std::vector<double> r(N, b); if (N) r[i] = a; run(r, DIRS[4], integ && i <= 1 && (i == 0 || a == 0.5)); }
            for (auto& n : DIRS) if (!heavy || ++id <= 2) for (double q : { 0., 0.3, 0.9 }) run(std::vector<double>(N, q), n, false);
            // all ends at once
            if (N) for (int mask = 0; mask < (1 << N); ++mask) { if (heavy && mask % 5) continue; std::vector<double> r(N); for (size_t i = 0; i < N; ++i) r[i] = mask >> i & 1 ? ONE : 0; run(r, DIRS[4], false); }
            // the azimuth comes from one random number and turns the event around the parent's direction
            if (N && !heavy) { std::vector<double> r(N, 0.2); auto o = run(r, DIRS[4], false); if (!o.empty()) { int turning = 0; bool any = false; V3 n = DIRS[4] * (1 / DIRS[4].mag()); for (auto& q : o) any |= perp(q.d, n).mag() > 1e-6 && (M.type != I::Brems || q.type == (int)T::Gamma); for (size_t i = 0; i < N; ++i) { auto r2 = r; r2[i] = 0.45; auto o2 = run(r2, DIRS[4], false); if (o2.size() != o.size()) continue; bool turn = true; for (size_t j = 0; j < o.size(); ++j) { V3 pa = perp(o[j].d, n), pb = perp(o2[j].d, n); turn &= std::fabs(o[j].d * n - o2[j].d * n) < 1e-9 && (pa.mag() < 1e-6 || (M.type == I::Brems && o[j].type != (int)T::Gamma) || (cross(n, pa) - pb).mag() < 1e-7 + 1e-6 * pa.mag()); turn &= o[j].e == o2[j].e; } turning += turn; } if (any) VK_CHECK(turning == 1, vk::f("azimuth-%s", M.name), "%s %s E=%.9g v=%.9g: %d of %zu numbers turn the event by 90 degrees", M.name, p.name.c_str(), E, v, turning, N); } }
        }
    }
}
static void calculator()
{
    auto med = xs::custom("s03c", { Components::Oxygen(2), Components::Lead(1) }); MuMinusDef mu; GammaDef g; EPlusDef ep; auto MS = models();
    const I all[] = { I::Brems, I::Ioniz, I::Epair, I::Photonuclear, I::MuPair, I::WeakInt, I::Compton, I::Annihilation, I::Photopair, I::Photoproduction, I::PhotoMuPair, I::Photoeffect };
    auto pd = [&](I t) -> ParticleDef { return t == I::Annihilation ? (ParticleDef)ep : t == I::Compton || t == I::Photopair || t == I::Photoproduction || t == I::PhotoMuPair || t == I::Photoeffect ? (ParticleDef)g : (ParticleDef)mu; };
    auto loss = [&](I t, Component const& c) { double E = 1e5, v = t == I::Compton ? 0.4 : 0.1; if (t == I::Photopair || t == I::Photoproduction || t == I::PhotoMuPair || t == I::Photoeffect || t == I::WeakInt || t == I::Annihilation) v = 1; return StochasticLoss((int)t, E * v, Cartesian3D(1, 2, 3), Cartesian3D(0.6, 0, 0.8), 1e-9, 10., E, c.GetHash()); };
    auto dflt = [&](I t) -> Model const& { for (auto& m : MS) if (m.type == t && m.dflt) return m; abort(); };
    auto same = [&](std::vector<ParticleState> const& a, std::vector<ParticleState> const& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i].type == b[i].type && a[i].energy == b[i].energy && (v3(Cartesian3D(a[i].direction)) - v3(Cartesian3D(b[i].direction))).mag() == 0 && a[i].time == b[i].time)) return false; return true; };
    const double q[4] = { 0.31, 0.62, 0.17, 0.83 };
    auto answers = [&](SecondariesCalculator& s, I t, Model const* want, const char* w) {
        if (!want) { int rc = vk::guarded([&] { auto e = loss(t, med.GetComponents()[0]); std::vector<double> rv(4, 0.5); try { s.CalculateSecondaries(e, med.GetComponents()[0], rv); return 1; } catch (std::logic_error const&) { return 0; } catch (...) { return 2; } }, 20); VK_CHECK(rc == 0, "missing", "%s: type %d without a model gives %d", w, (int)t, rc);
            rc = vk::guarded([&] { try { return s.RequiredRandomNumbers(t) == 0 ? 0 : 3; } catch (std::logic_error const&) { return 0; } catch (...) { return 2; } }, 20); VK_CHECK(rc == 0, "missing-numbers", "%s: number of random numbers for type %d without a model gives %d", w, (int)t, rc); vk::trans(); return; }
        auto ref = want->make(pd(t), med); VK_CHECK(s.RequiredRandomNumbers(t) == ref->RequiredRandomNumbers(), "numbers", "%s: %s asks for %zu", w, want->name, s.RequiredRandomNumbers(t));
        for (auto& c : med.GetComponents()) { std::vector<double> r(q, q + ref->RequiredRandomNumbers()), a = r, b = r; VK_CHECK(same(s.CalculateSecondaries(loss(t, c), c, a), ref->CalculateSecondaries(loss(t, c), c, b)), "dispatch", "%s: secondaries differ from those of %s", w, want->name); vk::trans(); } };
    vk::cs("calculator-defaults", [&] { for (auto who : { (ParticleDef)mu, (ParticleDef)g, (ParticleDef)ep }) { std::vector<I> l; for (I t : all) if (pd(t).name == who.name) l.push_back(t); for (unsigned mask = 0; mask < (1u << l.size()); ++mask) { if (l.size() > 5 && mask % 7 && mask != (1u << l.size()) - 1) continue; std::vector<I> sub; for (size_t i = 0; i < l.size(); ++i) if (mask >> i & 1) sub.push_back(l[i]); SecondariesCalculator s(sub, who, med); auto made = make_secondaries(sub, who, med); vk::state(vk::mix(vk::hs(who.name), mask)); for (I t : all) { bool in = std::find(sub.begin(), sub.end(), t) != sub.end(); answers(s, t, in ? &dflt(t) : nullptr, "calculator"); if (in) answers(*made, t, &dflt(t), "made calculator"); } } } });
    vk::cs("calculator-empty", [&] { SecondariesCalculator s; for (I t : all) answers(s, t, nullptr, "empty calculator"); for (I t : { I::Undefined, I::Particle, I::ContinuousEnergyLoss, I::Decay, I::Hadrons }) answers(s, t, nullptr, "empty calculator"); });
    // every order of adding two models of one process, with one of another process in between
    vk::cs("calculator-replace", [&] { for (auto& a : MS) for (auto& b : MS) if (a.type == b.type) for (int third = 0; third < 2; ++third) { SecondariesCalculator s; s.addInteraction(a.make(pd(a.type), med)); I other = a.type == I::Ioniz ? I::Photonuclear : I::Ioniz; if (third) s.addInteraction(dflt(other).make(pd(other), med)); s.addInteraction(b.make(pd(b.type), med)); vk::state(vk::hs(vk::f("%s%s%d", a.name, b.name, third))); answers(s, b.type, &b, "replaced"); if (third) answers(s, other, &dflt(other), "other model"); } });
    vk::cs("unknown-component", [&] { for (auto& m : MS) if (m.type == I::Photopair || m.type == I::PhotoMuPair || m.type == I::WeakInt) { auto p = m.make(pd(m.type), med); Components::Uranium u; std::vector<double> r(4, 0.5); VK_CHECK(vk::throws([&] { p->CalculateSecondaries(loss(m.type, u), u, r); }), "unknown", "%s accepts a target which is not in its medium", m.name); vk::trans(); } });
}
void vk_main()
{
    Logging::SetGlobalLoglevel(spdlog::level::off); calculator();
    std::vector<Medium> meds { xs::custom("s03a", { Components::Hydrogen(2), Components::Oxygen(1) }), xs::custom("s03b", { Components::Lead(1), Components::Uranium(1) }) }; if (vk::thorough()) meds.push_back(xs::custom("s03d", { Components::Nitrogen(1), Components::Carbon(3), Components::Iron(2) }));
    for (auto& M : models()) for (auto& p : particles(M.name)) for (auto& m : meds) vk::cs(vk::f("%s-%s-%s", M.name, p.name.c_str(), m.GetName().c_str()), [&] { model(M, p, m); });
    vk::bound(vk::f("%zu models", models().size())); vk::bound(vk::f("random numbers on a grid of %zu values each, all ends together", rgrid().size())); vk::bound("7 directions of the parent");
}
