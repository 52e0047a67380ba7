// Catalogue of every parametrisation the library offers, with all options, behind one interface.
#pragma once
#include "vk.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/CrossSectionBuilder.h"
#include "PROPOSAL/crosssection/CrossSectionMultiplier.h"
#include "PROPOSAL/crosssection/parametrization/Annihilation.h"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include "PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.h"
#include "PROPOSAL/crosssection/parametrization/Photoeffect.h"
#include "PROPOSAL/crosssection/parametrization/Photoproduction.h"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <functional>
#include <memory>
namespace xs {
using namespace PROPOSAL;
using PC = crosssection::Parametrization<Component>;
using PM = crosssection::Parametrization<Medium>;
using PD = crosssection::ParametrizationDirect;
using cut_t = std::shared_ptr<const EnergyCutSettings>;
struct Spec { // one parametrisation for one particle; make() binds it to a medium (LPM needs one)
    std::string fam, name, opt; ParticleDef p; InteractionType type; bool stoch;
    std::function<std::shared_ptr<PC>(Medium const&, double)> pc;                       // component-wise
    std::function<std::shared_ptr<PM>(Medium const&, EnergyCutSettings const&)> pm;     // medium-wise
    std::function<std::shared_ptr<PD>()> pd;                                            // direct
    std::function<std::unique_ptr<CrossSectionBase>(Medium const&, cut_t)> cross;
    std::string id() const { return fam + "." + name + (opt.empty() ? "" : "-" + opt) + "." + p.name; }
    bool lpm() const { return opt.find("lpm") != std::string::npos; }
};
template <typename P> std::shared_ptr<P> sh(P* p) { return std::shared_ptr<P>(p); }
template <typename T, typename... A> Spec comp(std::string fam, std::string name, std::string opt, ParticleDef p, InteractionType t, bool stoch, A... a)
{
    Spec s { fam, name, opt, p, t, stoch, {}, {}, {}, {} };
    s.pc = [=](Medium const&, double) { return std::make_shared<T>(a...); };
    s.cross = [=](Medium const& m, cut_t c) { return make_crosssection(T(a...), p, m, c, false); };
    return s;
}
template <typename T> Spec lpmc(std::string fam, std::string name, ParticleDef p, InteractionType t, bool stoch, double dens = 1)
{
    Spec s { fam, name, dens == 1 ? "lpm" : vk::f("lpm%g", dens), p, t, stoch, {}, {}, {}, {} };
    s.pc = [=](Medium const& m, double) { return std::make_shared<T>(true, p, m, dens); };
    s.cross = [=](Medium const& m, cut_t c) { return make_crosssection(T(true, p, m, dens), p, m, c, false); };
    return s;
}
template <typename T> Spec med(std::string name, ParticleDef p)
{
    Spec s { "ioniz", name, "", p, InteractionType::Ioniz, false, {}, {}, {}, {} };
    s.pm = [=](Medium const&, EnergyCutSettings const& c) { return std::make_shared<T>(c); };
    s.cross = [=](Medium const& m, cut_t c) { return make_crosssection(T(*c), p, m, c, false); };
    return s;
}
template <typename T> Spec dir(std::string fam, std::string name, ParticleDef p, InteractionType t)
{
    Spec s { fam, name, "", p, t, true, {}, {}, {}, {} };
    s.pd = [=] { return std::make_shared<T>(); };
    s.cross = [=](Medium const& m, cut_t c) { return make_crosssection(T(), p, m, c, false); };
    return s;
}
inline std::vector<Spec> all(bool many_particles)
{
    namespace C = crosssection; using I = InteractionType; std::vector<Spec> v;
    std::vector<ParticleDef> lep { MuMinusDef(), EMinusDef(), TauMinusDef() }, heavy { MuMinusDef(), TauMinusDef() };
    if (many_particles) { lep.push_back(MuPlusDef()); lep.push_back(EPlusDef()); lep.push_back(TauPlusDef()); heavy.push_back(MuPlusDef()); heavy.push_back(TauPlusDef()); heavy.push_back(KMinusDef()); heavy.push_back(PiPlusDef()); }
    for (auto& p : lep) {
#define B(X) v.push_back(comp<C::Brems##X>("brems", #X, "", p, I::Brems, false, false)); v.push_back(lpmc<C::Brems##X>("brems", #X, p, I::Brems, false));
        B(KelnerKokoulinPetrukhin) B(PetrukhinShestakov) B(CompleteScreening) B(AndreevBezrukovBugaev) B(SandrockSoedingreksoRhode)
        if (p.mass < 1) { B(ElectronScreening) }
        v.push_back(lpmc<C::BremsKelnerKokoulinPetrukhin>("brems", "KelnerKokoulinPetrukhin", p, I::Brems, false, 0.25));
#undef B
#define B(X) v.push_back(comp<C::Epair##X>("epair", #X, "", p, I::Epair, false, false)); v.push_back(lpmc<C::Epair##X>("epair", #X, p, I::Epair, false));
        B(KelnerKokoulinPetrukhin) B(SandrockSoedingreksoRhode) B(ForElectronPositron)
#undef B
        v.push_back(comp<C::MupairKelnerKokoulinPetrukhin>("mupair", "KelnerKokoulinPetrukhin", "", p, I::MuPair, false));
#define B(X) v.push_back(comp<C::Photo##X>("photoq2", #X, "bm", p, I::Photonuclear, false, std::make_shared<C::ShadowButkevichMikheyev>())); v.push_back(comp<C::Photo##X>("photoq2", #X, "drss", p, I::Photonuclear, false, std::make_shared<C::ShadowDuttaRenoSarcevicSeckel>()));
        B(AbramowiczLevinLevyMaor91) B(AbramowiczLevinLevyMaor97) B(ButkevichMikheyev) B(RenoSarcevicSu) B(AbtFT) B(BlockDurandHa)
#undef B
#define B(X) v.push_back(comp<C::Photo##X>("photoreal", #X, "hard", p, I::Photonuclear, false, true)); v.push_back(comp<C::Photo##X>("photoreal", #X, "soft", p, I::Photonuclear, false, false));
        B(Zeus) B(BezrukovBugaev) B(Kokoulin) B(Rhode)
#undef B
        v.push_back(comp<C::WeakCooperSarkarMertsch>("weak", "CooperSarkarMertsch", "", p, I::WeakInt, true));
    }
    for (auto& p : heavy) v.push_back(med<C::IonizBetheBlochRossi>("BetheBlochRossi", p));
    v.push_back(med<C::IonizBergerSeltzerBhabha>("BergerSeltzerBhabha", EPlusDef())); v.push_back(med<C::IonizBergerSeltzerMoller>("BergerSeltzerMoller", EMinusDef()));
    GammaDef g;
    v.push_back(comp<C::ComptonKleinNishina>("compton", "KleinNishina", "", g, I::Compton, false));
    v.push_back(comp<C::PhotoPairTsai>("photopair", "Tsai", "", g, I::Photopair, true, false)); v.push_back(lpmc<C::PhotoPairTsai>("photopair", "Tsai", g, I::Photopair, true));
    v.push_back(comp<C::PhotoPairKochMotz>("photopair", "KochMotz", "", g, I::Photopair, true, false)); v.push_back(lpmc<C::PhotoPairKochMotz>("photopair", "KochMotz", g, I::Photopair, true)); v.push_back(lpmc<C::PhotoPairKochMotz>("photopair", "KochMotz", g, I::Photopair, true, 0.25));
    v.push_back(comp<C::PhotoMuPairBurkhardtKelnerKokoulin>("photomupair", "BurkhardtKelnerKokoulin", "", g, I::PhotoMuPair, true));
#define B(X) v.push_back(dir<C::Photoproduction##X>("photoproduction", #X, g, I::Photoproduction));
    B(Zeus) B(BezrukovBugaev) B(Caldwell) B(Kokoulin) B(Rhode) B(Heck) B(HeckC7Shadowing)
#undef B
    v.push_back(dir<C::PhotoeffectSauter>("photoeffect", "Sauter", g, I::Photoeffect)); v.push_back(dir<C::AnnihilationHeitler>("annihilation", "Heitler", EPlusDef(), I::Annihilation));
    return v;
}
inline Medium custom(std::string name, std::vector<Component> c, double rho = 1.) { return Medium(name, 75.0, -3.5017, 0.09116, 3.4773, 0.2400, 2.8004, 0, rho, c); }
// fraction of one component, from the medium's own definition
inline double frac(Medium const& m, Component const& c) { double s = 0; for (auto& x : m.GetComponents()) s += x.GetAtomInMolecule() * x.GetAtomicNum(); return c.GetAtomInMolecule() * c.GetAtomicNum() / s; }
inline double mass(Spec const& s) { return s.p.mass > 0 ? s.p.mass : ME; }

// reference quadrature: adaptive Gauss-Kronrod (7,15) with bisection of the worst interval; knows its own error
struct Quad { double val, err; bool ok; };
inline void gk(std::function<double(double)> const& f, double a, double b, double& v, double& e)
{
    static const double x[8] = { 0.991455371120812639206854697526329, 0.949107912342758524526189684047851, 0.864864423359769072789712788640926, 0.741531185599394439863864773280788, 0.586087235467691130294144691693013, 0.405845151377397166906606412076961, 0.207784955007898467600689403773245, 0. };
    static const double wk[8] = { 0.022935322010529224963732008058970, 0.063092092629978553290700663189204, 0.104790010322250183839876322541518, 0.140653259715525918745189590510238, 0.169004726639267902826583426598550, 0.190350578064785409913256402421014, 0.204432940075298892414161999234649, 0.209482141084727828012999174891714 };
    static const double wg[4] = { 0.129484966168869693270611432679082, 0.279705391489276667901467771423780, 0.381830050505118944950369775488975, 0.417959183673469387755102040816327 };
    double c = (a + b) / 2, h = (b - a) / 2, f0 = f(c), k = f0 * wk[7], g = f0 * wg[3];
    for (int i = 0; i < 7; ++i) { double s = f(c - h * x[i]) + f(c + h * x[i]); k += wk[i] * s; if (i & 1) g += wg[i / 2] * s; }
    v = k * h; e = std::fabs((k - g) * h);
}
inline Quad quad(std::function<double(double)> const& f, double a, double b, double rel, int maxiv = 200)
{
    struct Iv { double a, b, v, e; }; std::vector<Iv> L; double V = 0, E = 0;
    if (!(b > a)) return { 0, 0, true };
    auto add = [&](double lo, double hi) { Iv i { lo, hi, 0, 0 }; gk(f, lo, hi, i.v, i.e); L.push_back(i); };
    add(a, a + (b - a) * 0.5); add(a + (b - a) * 0.5, b);
    for (;;) {
        V = E = 0; size_t w = 0; for (size_t i = 0; i < L.size(); ++i) { V += L[i].v; E += L[i].e; if (L[i].e > L[w].e) w = i; }
        if (!(E > rel * std::fabs(V)) || (int)L.size() >= maxiv || std::isnan(V)) break;
        Iv i = L[w]; double m = (i.a + i.b) / 2; if (!(m > i.a && m < i.b)) break; gk(f, i.a, m, L[w].v, L[w].e); L[w].b = m; add(m, i.b);
    }
    return { V, E, E <= rel * std::fabs(V) };
}
// integral of g(v) over [a,b] in (0,1]: logarithmic in v below one half and in 1-v above
inline Quad vint(std::function<double(double)> const& g, double a, double b, double rel, double a0 = 1e-25)
{
    Quad r { 0, 0, true }; if (!(b > a)) return r; if (a < a0) a = a0;
    double lo = std::min(b, 0.5);
    if (a < lo) { auto q = quad([&](double t) { double v = std::exp(t); v = std::min(std::max(v, a), lo); return v * g(v); }, std::log(a), std::log(lo), rel); r.val += q.val; r.err += q.err; r.ok &= q.ok; }
    double hi = std::max(a, 0.5);
    if (b > hi) { // u = 1-v from 1-b to 1-hi
        double u0 = std::max(1 - b, 1e-16), u1 = 1 - hi;
        auto q = quad([&](double t) { double v = 1 - std::exp(t); v = std::min(std::max(v, hi), b); return (1 - v) * g(v); }, std::log(u0), std::log(u1), rel); r.val += q.val; r.err += q.err; r.ok &= q.ok;
    }
    return r;
}
} // namespace xs
