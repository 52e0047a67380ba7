// vk: sources=crosssection,EnergyCutSettings,medium,Constants,methods,Logging,math,particle,decay flavor=o1 shards=8 limit=600
#include "xs.h"
#include "PROPOSAL/crosssection/Factories/AnnihilationFactory.h"
#include "PROPOSAL/crosssection/Factories/BremsstrahlungFactory.h"
#include "PROPOSAL/crosssection/Factories/ComptonFactory.h"
#include "PROPOSAL/crosssection/Factories/EpairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/IonizationFactory.h"
#include "PROPOSAL/crosssection/Factories/MupairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoMuPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoeffectFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotonuclearFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoproductionFactory.h"
#include "PROPOSAL/crosssection/Factories/WeakInteractionFactory.h"
#include "PROPOSAL/crosssection/ParticleDefaultCrossSectionList.h"
#include "PROPOSAL/crosssection/CrossSectionMultiplier.h"
#include <nlohmann/json.hpp>
#include <set>
using namespace xs; using json = nlohmann::json;
namespace {
std::unique_ptr<CrossSectionBase> make(std::string const& fam, ParticleDef const& p, Medium const& m, cut_t cut, json const& c, double dens)
{
    if (fam == "brems") return make_bremsstrahlung(p, m, cut, false, c, dens);
    if (fam == "epair") return make_epairproduction(p, m, cut, false, c, dens);
    if (fam == "mupair") return make_mupairproduction(p, m, cut, false, c);
    if (fam == "ioniz") return make_ionization(p, m, cut, false, c);
    if (fam == "photoq2") return make_photonuclearQ2(p, m, cut, false, c);
    if (fam == "photoreal") return make_photonuclearreal(p, m, cut, false, c);
    if (fam == "weak") return make_weakinteraction(p, m, false, c);
    if (fam == "compton") return make_compton(p, m, cut, false, c);
    if (fam == "photopair") return make_photopairproduction(p, m, false, c, dens);
    if (fam == "photomupair") return make_photomupairproduction(p, m, false, c);
    if (fam == "photoproduction") return make_photoproduction(p, m, c);
    if (fam == "photoeffect") return make_photoeffect(p, m, c);
    if (fam == "annihilation") return make_annihilation(p, m, false, c);
    throw std::runtime_error("harness: family " + fam);
}
std::string low(std::string s) { for (auto& c : s) c = tolower(c); return s; }
std::string up(std::string s) { for (auto& c : s) c = toupper(c); return s; }
void same(std::string const& what, CrossSectionBase& a, CrossSectionBase& b, double k)
{
    VK_CHECK(a.GetInteractionType() == b.GetInteractionType(), "type", "%s: type %d, wanted %d", what.c_str(), (int)a.GetInteractionType(), (int)b.GetInteractionType());
    VK_CHECK(low(a.GetParametrizationName()) == low(b.GetParametrizationName()), "name", "%s: %s, wanted %s", what.c_str(), a.GetParametrizationName().c_str(), b.GetParametrizationName().c_str());
    VK_CLOSE(a.GetLowerEnergyLim(), b.GetLowerEnergyLim(), 0, 0, "low", "%s", what.c_str());
    double l = std::max(b.GetLowerEnergyLim(), 1.); for (double E : { l * 3, 4e3, 1e6, 1e11 }) if (E > l) {
        VK_CLOSE(a.CalculatedNdx(E), k * b.CalculatedNdx(E), 1e-13, 0, "ndx", "%s E=%g", what.c_str(), E); if (E == 4e3 || E == 1e11) continue;
        VK_CLOSE(a.CalculatedEdx(E), k * b.CalculatedEdx(E), 1e-13, 0, "dedx", "%s E=%g", what.c_str(), E); VK_CLOSE(a.CalculatedE2dx(E), k * b.CalculatedE2dx(E), 1e-13, 0, "de2dx", "%s E=%g", what.c_str(), E); vk::state(vk::hd(vk::hs(what), E)); }
    auto ca = a.GetEnergyCutSettings(), cb = b.GetEnergyCutSettings(); VK_CHECK(!ca == !cb && (!ca || *ca == *cb), "cuts", "%s: other cuts", what.c_str());
}
template <typename D> std::vector<std::shared_ptr<CrossSectionBase>> typed(D const& d, Medium const& m, cut_t c) { return GetStdCrossSections(d, m, c, false); }
}
void vk_main()
{
    auto specs = all(true); std::map<std::string, std::set<std::string>> names; for (auto& s : specs) names[s.fam].insert(s.name);
    auto cut = std::make_shared<EnergyCutSettings>(500, 0.05, true);
    std::vector<Medium> ms { Ice(), Uranium() }; if (vk::thorough()) { ms.push_back(Air()); ms.push_back(StandardRock()); ms.push_back(custom("dense", { Components::Lead() }, 1e3)); }
    for (auto& s : specs) for (size_t mi = 0; mi < ms.size(); ++mi) vk::cs(vk::f("%s-%zu", s.id().c_str(), mi), [&, mi] {
        auto& m = ms[mi]; auto direct = s.cross(m, s.stoch ? nullptr : cut_t(cut)); double dens = s.opt == "lpm0.25" ? 0.25 : 1;
        std::vector<json> opts; json base;
        if (s.fam == "brems" || s.fam == "epair" || s.fam == "photopair") { if (s.lpm()) opts = { json{{"lpm", true}}, json::object() }; else opts = { json{{"lpm", false}} }; }
        else if (s.fam == "photoq2") { if (s.opt == "bm") opts = { json{{"shadow", "ButkevichMikheyev"}}, json{{"shadow", "butkevichmikheyev"}}, json::object() }; else opts = { json{{"shadow", "DuttaRenoSarcevicSeckel"}}, json{{"shadow", "DUTTARENOSARCEVICSECKEL"}} }; }
        else if (s.fam == "photoreal") { if (s.opt == "hard") opts = { json{{"hard_component", true}}, json::object() }; else opts = { json{{"hard_component", false}} }; }
        else opts = { json::object(), json{{"something_else", 1}} };
        for (auto o : opts) for (auto n : { s.name, low(s.name), up(s.name) }) for (double k : { 1., 2.5, 0.25 }) for (int has = k == 1 ? 0 : 1; has < 2; ++has) {
            if ((n != s.name && k != 1) || (&o != &o)) continue;
            json c = o; c["parametrization"] = n; if (has) c["multiplier"] = k; auto x = make(s.fam, s.p, m, cut, c, dens); std::string what = s.id() + " " + c.dump(); vk::trans();
            if (s.fam != "epair" || s.lpm()) VK_CHECK(x->GetHash() == (k == 1 ? direct->GetHash() : make_crosssection_multiplier(std::shared_ptr<CrossSectionBase>(s.cross(m, s.stoch ? nullptr : cut_t(cut))), k)->GetHash()), "hash", "%s: hash differs from the one of the parametrisation built directly", what.c_str());
            if (n != s.name) { VK_CHECK(low(x->GetParametrizationName()) == low(s.name), "name", "%s: %s", what.c_str(), x->GetParametrizationName().c_str()); VK_CHECK(x->GetInteractionType() == s.type, "type", "%s", what.c_str()); continue; }
            VK_CHECK(low(x->GetParametrizationName()) == low(s.name) && x->GetInteractionType() == s.type, "name", "%s: %s %d", what.c_str(), x->GetParametrizationName().c_str(), (int)x->GetInteractionType());
            bool dear = (s.fam == "photoq2" || s.fam == "epair") && (mi > 0 || o.empty() || k == 0.25); if (!dear || vk::thorough()) same(what, *x, *direct, k);
        }
    });
    for (auto& fam : names) vk::cs("refused-" + fam.first, [&] {
        ParticleDef p = fam.first.find("photo") == 0 && fam.first != "photoq2" && fam.first != "photoreal" ? ParticleDef(GammaDef()) : fam.first == "compton" ? ParticleDef(GammaDef()) : fam.first == "annihilation" ? ParticleDef(EPlusDef()) : ParticleDef(MuMinusDef());
        auto refuse = [&](json c) { bool t = vk::throws([&] { make(fam.first, p, Ice(), cut, c, 1); }); VK_CHECK(t, "not-refused", "%s %s", fam.first.c_str(), c.dump().c_str()); vk::trans(); };
        json ok { { "parametrization", *fam.second.begin() } }; make(fam.first, p, Ice(), cut, ok, 1); refuse(json::object()); refuse(json{{"lpm", false}}); refuse(json{{"multiplier", 2.}}); refuse(json{{"Parametrization", *fam.second.begin()}});
        std::set<std::string> every { "", " ", "Foo", "None", "default", "name_not_available", "ButkevichMikheyev2", "compton", "ionization", "bremsstrahlung", "epairproduction" }; for (auto& f : names) for (auto& n : f.second) { every.insert(n); every.insert(f.first + n); } for (auto& n : fam.second) { every.insert(n + " "); every.insert(" " + n); every.insert(n.substr(0, n.size() - 1)); every.insert(n + "x"); }
        for (auto& n : every) if (fam.second.count(n) == 0) refuse(json{{"parametrization", n}});
        for (json bad : { json(1), json(true), json(nullptr), json::array({ *fam.second.begin() }), json::object() }) { json c; c["parametrization"] = bad; refuse(c); }
        for (json bad : { json("2"), json::array({ 2 }), json::object() }) { json c = ok; c["multiplier"] = bad; refuse(c); }
        if (fam.first == "brems" || fam.first == "epair" || fam.first == "photopair") for (json bad : { json("true"), json::array({ true }), json(1) }) { json c = ok; c["lpm"] = bad; refuse(c); }
        if (fam.first == "photoq2") for (json bad : { json("None"), json(""), json(1), json("ButkevichMikheyev ") }) { json c = ok; c["shadow"] = bad; refuse(c); }
        if (fam.first == "photoreal") for (json bad : { json("true"), json(1) }) { json c = ok; c["hard_component"] = bad; refuse(c); }
    });
    // standard sets
    struct Std { ParticleDef p; std::vector<std::string> ids; }; std::vector<Std> std_sets;
    std::string ph = "photoq2.AbramowiczLevinLevyMaor97-bm."; auto set = [&](ParticleDef p, std::vector<std::string> v) { for (auto& x : v) x += p.name; std_sets.push_back({ p, v }); };
    set(GammaDef(), { "photopair.KochMotz.", "compton.KleinNishina.", "photoproduction.Rhode.", "photoeffect.Sauter." }); set(EMinusDef(), { "brems.ElectronScreening.", "epair.ForElectronPositron.", "ioniz.BergerSeltzerMoller.", ph }); set(EPlusDef(), { "brems.ElectronScreening.", "epair.ForElectronPositron.", "ioniz.BergerSeltzerBhabha.", ph, "annihilation.Heitler." });
    for (ParticleDef p : std::vector<ParticleDef> { MuMinusDef(), MuPlusDef(), TauMinusDef(), TauPlusDef() }) set(p, { "brems.KelnerKokoulinPetrukhin.", "epair.KelnerKokoulinPetrukhin.", "ioniz.BetheBlochRossi.", ph });
    for (auto& st : std_sets) for (size_t mi = 0; mi < ms.size(); ++mi) for (int t = 0; t < 2; ++t) vk::cs(vk::f("standard-%s-%zu-%d", st.p.name.c_str(), mi, t), [&, mi, t] {
        std::vector<std::shared_ptr<CrossSectionBase>> x; auto& m = ms[mi]; cut_t c = cut;
        if (t == 0) x = GetStdCrossSections(st.p, m, c, false);
        else switch (st.p.particle_type) { case 22: x = typed(GammaDef(), m, c); break; case 11: x = typed(EMinusDef(), m, c); break; case -11: x = typed(EPlusDef(), m, c); break; case 13: x = typed(MuMinusDef(), m, c); break; case -13: x = typed(MuPlusDef(), m, c); break; case 15: x = typed(TauMinusDef(), m, c); break; case -15: x = typed(TauPlusDef(), m, c); break; }
        std::set<int> types; for (auto& y : x) VK_CHECK(types.insert((int)y->GetInteractionType()).second, "twice", "process %d twice", (int)y->GetInteractionType()); VK_CHECK(x.size() == st.ids.size(), "processes", "%zu processes, wanted %zu", x.size(), st.ids.size());
        for (auto& id : st.ids) { Spec const* sp = nullptr; for (auto& s : specs) if (s.id() == id) sp = &s; if (!sp) throw std::runtime_error("harness: " + id); auto d = sp->cross(m, sp->stoch ? nullptr : c); CrossSectionBase* got = nullptr; for (auto& y : x) if (y->GetInteractionType() == sp->type) got = y.get(); VK_CHECK(got, "missing", "%s", id.c_str()); if (!got) continue; VK_CHECK(got->GetHash() == d->GetHash(), "hash", "%s", id.c_str()); same("standard " + id, *got, *d, 1); }
    });
    vk::cs("standard-others", [&] { for (ParticleDef p : std::vector<ParticleDef> { PiMinusDef(), PiPlusDef(), Pi0Def(), KMinusDef(), KPlusDef(), NuEDef(), NuMuDef(), NuTauDef(), MonopoleDef(), SMPMinusDef() }) VK_CHECK(vk::throws([&] { GetStdCrossSections(p, Ice(), cut, false); }), "not-refused", "standard set for %s", p.name.c_str()); });
    vk::bound(vk::f("%zu parametrisations x particle x options, %zu media, names in 3 spellings, multipliers {absent,1,2.5,0.25}; all single-key corruptions and every name of every other process; 7 standard sets, 10 particles without", specs.size(), ms.size()));
}
