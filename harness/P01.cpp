// vk: sources=decay,particle,math,Logging,methods,Constants,medium flavor=asan shards=8 limit=800
#include "vk.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <algorithm>
#include <memory>
#include <sstream>
using namespace PROPOSAL;

// independently written facts about the predefined particles (PDG)
struct Pre { const char* cls; int type; double mass, charge, life; int partner; const HardComponentTables::VecType* table; ParticleDef (*make)(); int anti; };
static const double INFY = INFINITY;
template <class T> static ParticleDef mk() { return T(); }
static const HardComponentTables::VecType *E0 = &HardComponentTables::EmptyTable, *MU = &HardComponentTables::MuonTable, *TA = &HardComponentTables::TauTable;
static std::vector<Pre> const& pre()
{
    static std::vector<Pre> p = {
        { "EMinus", 11, 0.511, -1, INFY, 12, E0, mk<EMinusDef>, 1 }, { "EPlus", -11, 0.511, 1, INFY, -12, E0, mk<EPlusDef>, 0 },
        { "MuMinus", 13, 105.658, -1, 2.197e-6, 14, MU, mk<MuMinusDef>, 3 }, { "MuPlus", -13, 105.658, 1, 2.197e-6, -14, MU, mk<MuPlusDef>, 2 },
        { "TauMinus", 15, 1776.9, -1, 2.903e-13, 16, TA, mk<TauMinusDef>, 5 }, { "TauPlus", -15, 1776.9, 1, 2.903e-13, -16, TA, mk<TauPlusDef>, 4 },
        { "StauMinus", 1000015, 1e5, -1, INFY, 0, E0, mk<StauMinusDef>, 7 }, { "StauPlus", -1000015, 1e5, 1, INFY, 0, E0, mk<StauPlusDef>, 6 },
        { "Pi0", 111, 134.977, 0, 8.5e-17, 0, E0, mk<Pi0Def>, -1 },
        { "PiMinus", -211, 139.57, -1, 2.6e-8, 0, E0, mk<PiMinusDef>, 10 }, { "PiPlus", 211, 139.57, 1, 2.6e-8, 0, E0, mk<PiPlusDef>, 9 },
        { "K0", 311, 495.6, 0, -1, 0, E0, mk<K0Def>, -1 },
        { "KMinus", -321, 493.68, -1, 1.238e-8, 0, E0, mk<KMinusDef>, 13 }, { "KPlus", 321, 493.68, 1, 1.238e-8, 0, E0, mk<KPlusDef>, 12 },
        { "NuE", 12, 0, 0, INFY, 11, E0, mk<NuEDef>, 15 }, { "NuEBar", -12, 0, 0, INFY, -11, E0, mk<NuEBarDef>, 14 },
        { "NuMu", 14, 0, 0, INFY, 13, E0, mk<NuMuDef>, 17 }, { "NuMuBar", -14, 0, 0, INFY, -13, E0, mk<NuMuBarDef>, 16 },
        { "NuTau", 16, 0, 0, INFY, 15, E0, mk<NuTauDef>, 19 }, { "NuTauBar", -16, 0, 0, INFY, -15, E0, mk<NuTauBarDef>, 18 },
        { "Monopole", 41, 1e5, 68.518, INFY, 0, E0, mk<MonopoleDef>, -1 }, { "Gamma", 22, 0, 0, INFY, 0, E0, mk<GammaDef>, -1 },
        { "SMPMinus", -9500, 1e5, -1, INFY, 0, E0, mk<SMPMinusDef>, 23 }, { "SMPPlus", 9500, 1e5, 1, INFY, 0, E0, mk<SMPPlusDef>, 22 },
    };
    return p;
}
static bool same(ParticleDef const& a, ParticleDef const& b)
{
    return a.name == b.name && a.mass == b.mass && a.low == b.low && (a.lifetime == b.lifetime) && a.charge == b.charge
        && &a.hard_component_table == &b.hard_component_table && a.decay_table == b.decay_table && a.particle_type == b.particle_type && a.weak_partner == b.weak_partner;
}
static std::string show(ParticleDef const& p) { return vk::f("%s m=%.9g low=%.9g life=%.9g q=%.9g type=%d weak=%d", p.name.c_str(), p.mass, p.low, p.lifetime, p.charge, p.particle_type, p.weak_partner); }
static void agree(ParticleDef const& a, ParticleDef const& b, std::string const& h)
{
    bool s = same(a, b);
    VK_CHECK((a == b) == s && (b == a) == s, "equality", "%s: [%s] vs [%s] equal=%d, properties agree=%d", h.c_str(), show(a).c_str(), show(b).c_str(), int(a == b), int(s));
    VK_CHECK((a != b) == !s, "equality", "%s: != inconsistent", h.c_str());
    if (s) VK_CHECK(a.GetHash() == b.GetHash() && std::hash<ParticleDef>()(a) == std::hash<ParticleDef>()(b), "hash", "%s: equal definitions, different hash", h.c_str());
}
// particle definitions as plain data, ours
struct D { std::string name; double mass, low, life, charge; const HardComponentTables::VecType* tab; int decay; int type, weak; };
static DecayTable dtab(int i)
{
    DecayTable t;
    switch (i) {
    case 0: break;
    case 1: t.addChannel(1.0, StableChannel()); break;
    case 2: t.addChannel(1.0, TwoBodyPhaseSpace(PiMinusDef(), NuTauDef())); break;
    case 3: t.addChannel(1.0, TwoBodyPhaseSpace(PiMinusDef(), NuTauDef())); t.addChannel(0.5, StableChannel()); break;
    case 4: t.addChannel(1.1, StableChannel()); break;
    }
    return t;
}
static ParticleDef build(D const& d) { return ParticleDef(d.name, d.mass, d.low, d.life, d.charge, *d.tab, dtab(d.decay), d.type, d.weak); }
static bool has(ParticleDef const& p, D const& d)
{
    return p.name == d.name && p.mass == d.mass && p.low == d.low && p.lifetime == d.life && p.charge == d.charge && &p.hard_component_table == d.tab
        && p.decay_table == dtab(d.decay) && p.particle_type == d.type && p.weak_partner == d.weak;
}
static std::vector<std::pair<std::string, D>> variants(D const& d)
{
    std::vector<std::pair<std::string, D>> v;
    auto add = [&](const char* n, std::function<void(D&)> f) { D x = d; f(x); v.push_back({ n, x }); };
    add("name", [](D& x) { x.name += "x"; }); add("name-case", [](D& x) { x.name[0] ^= 32; });
    add("mass-ulp", [](D& x) { x.mass = nextafter(x.mass, 1e9); }); add("mass", [](D& x) { x.mass *= 2; });
    add("low", [](D& x) { x.low = x.low + 1; }); add("low-ulp", [](D& x) { x.low = nextafter(x.low, 1e9); });
    add("life", [](D& x) { x.life = 2e-3; }); add("life-neg", [](D& x) { x.life = -x.life; });
    add("charge", [](D& x) { x.charge = -x.charge; }); add("charge2", [](D& x) { x.charge *= 2; });
    add("table", [](D& x) { x.tab = x.tab == MU ? TA : MU; });
    add("decay", [](D& x) { x.decay = x.decay == 2 ? 1 : 2; }); add("decay3", [](D& x) { x.decay = x.decay == 3 ? 0 : 3; });
    add("weak", [](D& x) { x.weak = x.weak + 1; });
    return v;
}
// ---- registry histories ------------------------------------------------------------
static void history(std::vector<int> const& ops, std::string const& h)
{
    // types: 40001, 40002 (customs), 13 (muon, predefined), 22
    std::map<int, D> reg; // our model of the custom part of the registry
    std::vector<D> base = { { "A", 10, 12, 1e-3, -1, E0, 2, 40001, 13 }, { "B", 0, 0, INFY, 2, TA, 1, 40002, 0 } };
    std::vector<ParticleDef> kept; std::vector<D> kept_d;
    auto look = [&](int t) {
        auto it = reg.find(t);
        if (it == reg.end()) {
            bool th = false;
            try { ParticleDef::GetParticleDefForType(t); } catch (std::invalid_argument const&) { th = true; }
            VK_CHECK(th, "unknown-type", "%s: type %d found", h.c_str(), t);
        } else {
            auto p = ParticleDef::GetParticleDefForType(t);
            VK_CHECK(has(p, it->second), "lookup", "%s: type %d gives %s", h.c_str(), t, show(p).c_str());
        }
    };
    auto reg_op = [&](D const& d, bool via_builder) {
        bool conflict = reg.count(d.type) && [&] { D const& o = reg[d.type]; return !(o.name == d.name && o.mass == d.mass && o.low == d.low && o.life == d.life && o.charge == d.charge && o.tab == d.tab && o.decay == d.decay && o.weak == d.weak); }();
        bool refused = false;
        try {
            if (via_builder) {
                ParticleDef::Builder b; b.SetName(d.name).SetMass(d.mass).SetLow(d.low).SetLifetime(d.life).SetCharge(d.charge).SetHardComponentTable(*d.tab).SetDecayTable(dtab(d.decay)).SetParticleType(d.type).SetWeakPartner(static_cast<ParticleType>(d.weak));
                auto p = b.build(); kept.push_back(p); kept_d.push_back(d);
            } else { auto p = build(d); kept.push_back(p); kept_d.push_back(d); }
        } catch (std::invalid_argument const&) { refused = true; }
        VK_CHECK(refused == conflict, "conflict", "%s: [%s type %d] %s", h.c_str(), d.name.c_str(), d.type, refused ? "refused" : "accepted");
        if (!refused && !reg.count(d.type)) reg[d.type] = d;
    };
    for (int o : ops) {
        switch (o) {
        case 0: reg_op(base[0], false); break;
        case 1: reg_op(base[1], false); break;
        case 2: reg_op(base[0], true); break;
        case 3: { D d = base[0]; d.mass = 11; reg_op(d, false); break; }
        case 4: { D d = base[0]; d.decay = 1; d.tab = MU; reg_op(d, true); break; }
        case 5: { D d = base[1]; d.name = "C"; reg_op(d, false); break; }
        case 6: { D d = base[0]; d.type = 40002; reg_op(d, false); break; }
        case 7: { // a conflicting muon
            bool th = false;
            try { ParticleDef("MuMinus", 106, 106, 2e-6, -1, *MU, DecayTable(), 13, 14); } catch (std::invalid_argument const&) { th = true; }
            VK_CHECK(th, "conflict-predefined", "%s", h.c_str());
            break;
        }
        case 8: { ParticleDef p = MuMinusDef(); auto q = ParticleDef::GetParticleDefForType(13); VK_CHECK(same(p, q), "lookup-predefined", "%s", h.c_str()); break; }
        case 9: if (!kept.empty()) { ParticleDef c(kept.front()); kept.push_back(c); D d = kept_d.front(); kept_d.push_back(d); } break;
        case 10: look(40001); look(40002); look(40003); break;
        case 11: { ParticleState s; s.type = 40001; bool th = false; try { auto p = s.GetParticleDef(); VK_CHECK(reg.count(40001) && has(p, reg[40001]), "state-lookup", "%s", h.c_str()); } catch (std::invalid_argument const&) { th = true; } VK_CHECK(th == !reg.count(40001), "state-lookup", "%s: throws=%d", h.c_str(), th); break; }
        case 12: if (!kept.empty()) { // change a copy's decay table: the registry must not notice
            ParticleDef c(kept.back()); const_cast<DecayTable&>(c.decay_table).addChannel(0.25, StableChannel()); break; } break;
        }
    }
    look(40001); look(40002); look(40003);
    for (size_t i = 0; i < kept.size(); ++i) VK_CHECK(has(kept[i], kept_d[i]), "kept", "%s: object %zu is %s", h.c_str(), i, show(kept[i]).c_str());
    for (size_t i = 0; i < kept.size(); ++i) for (size_t j = 0; j < kept.size(); ++j) agree(kept[i], kept[j], h);
    for (int k : { 2, 3, 21 }) VK_CHECK(same(pre()[k].make(), ParticleDef::GetParticleDefForType(pre()[k].type)), "predefined-unchanged", "%s: %s", h.c_str(), pre()[k].cls);
    uint64_t s = 5; for (auto& r : reg) s = vk::mix(vk::mix(s, r.first), vk::hs(r.second.name) ^ uint64_t(r.second.mass)); s = vk::mix(s, kept.size());
    for (auto& d : kept_d) s = vk::mix(s, vk::hs(d.name) + d.type + d.decay * 10);
    vk::state(s);
}
static void in_child(std::string const& id, std::function<void()> f)
{
    std::string err; int pfd[2]; if (pipe(pfd)) throw vk::Skip();
    int rc = vk::guarded([&] { try { f(); } catch (std::exception const& e) { std::string m = e.what(); if (write(pfd[1], m.c_str(), m.size()) < 0) {} _exit(7); } return 0; }, 60);
    close(pfd[1]); char buf[2000]; ssize_t n = read(pfd[0], buf, sizeof buf); close(pfd[0]);
    if (rc) vk::fail("fresh-process", "%s: rc=%d %s", id.c_str(), rc, n > 0 ? std::string(buf, n).c_str() : "crash");
}

void vk_main()
{
    // every predefined particle, first thing in a fresh process, by either way
    vk::bound("24 predefined particles: properties (PDG), anti-particles, look-up first and look-up after construction in fresh processes");
    for (size_t i = 0; i < pre().size(); ++i)
        vk::cs(vk::f("predefined-%s", pre()[i].cls), [&] {
            auto& e = pre()[i];
            in_child("lookup-first", [&] { auto p = ParticleDef::GetParticleDefForType(e.type); if (p.name != e.cls || p.particle_type != e.type) throw std::runtime_error("look-up gives " + show(p)); if (!(p == e.make())) throw std::runtime_error("look-up differs from class"); });
            in_child("state-first", [&] { ParticleState s; s.type = e.type; auto p = s.GetParticleDef(); if (p.name != e.cls || !same(p, e.make())) throw std::runtime_error("state gives " + show(p)); });
            in_child("construct-first", [&] { auto p = e.make(); auto q = ParticleDef::GetParticleDefForType(e.type); if (!same(p, q) || !(p == q)) throw std::runtime_error("differs"); });
            auto p = e.make();
            VK_CHECK(p.name == e.cls, "name", "%s is called %s", e.cls, p.name.c_str());
            VK_CHECK(p.particle_type == e.type, "type", "%s has type %d", e.cls, p.particle_type);
            VK_CLOSE(p.mass, e.mass, 5e-3, 0, "mass", "%s", e.cls);
            VK_CHECK(p.charge == e.charge || fabs(p.charge - e.charge) < 1e-3, "charge", "%s charge %.9g", e.cls, p.charge);
            VK_CHECK(p.lifetime == e.life || fabs(p.lifetime / e.life - 1) < 1e-2, "lifetime", "%s lifetime %.9g", e.cls, p.lifetime);
            VK_CHECK(p.weak_partner == e.partner, "weak-partner", "%s: %d", e.cls, p.weak_partner);
            VK_CHECK(&p.hard_component_table == e.table, "hard-table", "%s", e.cls);
            VK_CHECK(p.low >= p.mass && (e.type == 22 ? fabs(p.low - 1.022) < 1e-3 : p.low == p.mass), "low", "%s low %.9g", e.cls, p.low);
            if (e.partner) { // the weak partner relation is mutual and changes the charge by one unit
                auto w = ParticleDef::GetParticleDefForType(e.partner);
                VK_CHECK(w.weak_partner == e.type && fabs(w.charge - p.charge) == 1, "weak-partner", "%s <-> %s", e.cls, w.name.c_str());
            }
            if (e.anti >= 0) {
                auto q = pre()[e.anti].make();
                VK_CHECK(q.particle_type == -p.particle_type && q.charge == -p.charge && q.mass == p.mass && q.low == p.low && q.lifetime == p.lifetime && &q.hard_component_table == &p.hard_component_table && q.weak_partner == -p.weak_partner, "antiparticle", "%s / %s", show(p).c_str(), show(q).c_str());
            }
            // same class again, copies, look-up: all the same
            agree(p, e.make(), "again"); ParticleDef c(p); agree(p, c, "copy"); VK_CHECK(same(p, c), "copy", "%s", e.cls);
            agree(p, ParticleDef::GetParticleDefForType(e.type), "look-up"); VK_CHECK(same(p, ParticleDef::GetParticleDefForType(e.type)), "lookup", "%s", e.cls);
            for (size_t j = 0; j < pre().size(); ++j) { auto q = pre()[j].make(); agree(p, q, "pair"); VK_CHECK((p == q) == (i == j), "pair", "%s %s", e.cls, pre()[j].cls); }
            std::ostringstream os; os << p; VK_CHECK(os.str().find(e.cls) != std::string::npos, "print", "%s", e.cls);
            // the decay table of an unstable lepton holds charge conserving decays of anti-type daughters
            vk::state(vk::mix(1, i));
        });
    // refuse every single conflicting property for every predefined particle
    vk::bound("every predefined particle x 14 single property changes: refused, registry unchanged");
    for (size_t i = 0; i < pre().size(); ++i)
        vk::cs(vk::f("conflict-%s", pre()[i].cls), [&] {
            auto p = pre()[i].make();
            auto again = [&](std::string nm, double m, double lo, double li, double q, const HardComponentTables::VecType& t, DecayTable const& d, int w, const char* what, bool expect) {
                for (int via = 0; via < 2; ++via) {
                    bool th = false;
                    try {
                        if (via) { ParticleDef::Builder b; b.SetParticleDef(p); b.SetName(nm).SetMass(m).SetLow(lo).SetLifetime(li).SetCharge(q).SetHardComponentTable(t).SetDecayTable(d).SetWeakPartner(static_cast<ParticleType>(w)); if (lo < m) { th = expect; } else b.build(); }
                        else ParticleDef(nm, m, lo, li, q, t, d, p.particle_type, w);
                    } catch (std::invalid_argument const&) { th = true; }
                    VK_CHECK(th == expect, "conflict-predefined", "%s changed %s via %d: %s", p.name.c_str(), what, via, th ? "refused" : "accepted");
                    VK_CHECK(same(p, ParticleDef::GetParticleDefForType(p.particle_type)), "registry-changed", "%s by %s", p.name.c_str(), what);
                    VK_CHECK(same(p, pre()[i].make()), "registry-changed", "%s by %s", p.name.c_str(), what);
                }
                vk::state(vk::mix(vk::mix(2, i), vk::hs(what)));
            };
            auto &T = p.hard_component_table; auto const& D = p.decay_table; double up = nextafter(p.mass, 1e9);
            again(p.name, p.mass, p.low, p.lifetime, p.charge, T, D, p.weak_partner, "nothing", false);
            again(p.name + "2", p.mass, p.low, p.lifetime, p.charge, T, D, p.weak_partner, "name", true);
            again("", p.mass, p.low, p.lifetime, p.charge, T, D, p.weak_partner, "no name", true);
            again(p.name, up, std::max(up, p.low), p.lifetime, p.charge, T, D, p.weak_partner, "mass", true);
            again(p.name, p.mass, nextafter(p.low, 1e9), p.lifetime, p.charge, T, D, p.weak_partner, "low ulp", true);
            again(p.name, p.mass, p.low + 1, p.lifetime, p.charge, T, D, p.weak_partner, "low", true);
            again(p.name, p.mass, p.low, 0.5, p.charge, T, D, p.weak_partner, "lifetime", true);
            again(p.name, p.mass, p.low, p.lifetime, p.charge + 1, T, D, p.weak_partner, "charge", true);
            if (p.charge) again(p.name, p.mass, p.low, p.lifetime, -p.charge, T, D, p.weak_partner, "sign of charge", true);
            again(p.name, p.mass, p.low, p.lifetime, p.charge, &T == MU ? *TA : *MU, D, p.weak_partner, "table", true);
            again(p.name, p.mass, p.low, p.lifetime, p.charge, T, DecayTable(), p.weak_partner, "no decay", true);
            { DecayTable d(D); d.addChannel(0.1, TwoBodyPhaseSpace(EMinusDef(), GammaDef())); again(p.name, p.mass, p.low, p.lifetime, p.charge, T, d, p.weak_partner, "more decay", true); }
            again(p.name, p.mass, p.low, p.lifetime, p.charge, T, D, p.weak_partner + 1, "weak partner", true);
            if (p.weak_partner) again(p.name, p.mass, p.low, p.lifetime, p.charge, T, D, -p.weak_partner, "anti weak partner", true);
        });
    // decays of the unstable predefined particles conserve charge and lepton number
    vk::cs("decay-conservation", [&] {
        for (auto& e : pre()) {
            auto p = e.make(); int n = 0;
            for (int k = 0; k < 2000; ++k) {
                auto& c = p.decay_table.SelectChannel((k + 0.5) / 2000); if (dynamic_cast<const StableChannel*>(&c)) continue;
                ParticleState s; s.type = p.particle_type; s.direction = Cartesian3D(0, 0, 1); s.energy = p.mass;
                auto d = c.Decay(p, s); double q = 0; int le = 0, lm = 0, lt = 0;
                for (auto& x : d) { auto dd = x.GetParticleDef(); q += dd.charge; int a = abs(dd.particle_type), sg = dd.particle_type > 0 ? 1 : -1; if (a == 11 || a == 12) le += sg; if (a == 13 || a == 14) lm += sg; if (a == 15 || a == 16) lt += sg; }
                int a = abs(p.particle_type), sg = p.particle_type > 0 ? 1 : -1;
                VK_CHECK(q == p.charge, "decay-charge", "%s: charge %.9g -> %.9g", e.cls, p.charge, q);
                VK_CHECK(le == 0 && lm == (a == 13 ? sg : 0) && lt == (a == 15 ? sg : 0), "decay-lepton-number", "%s: %d %d %d", e.cls, le, lm, lt);
                if (++n > 60) break; k += 30;
            }
            if (e.type == 13 || e.type == -13 || e.type == 15 || e.type == -15) VK_CHECK(n > 20, "decays", "%s does not decay", e.cls);
        }
    });
    // equality: single differences (types not registered twice: distinct type, so compare through registered pairs)
    vk::bound("all pairs of a base definition and its single-property variants (own fresh process each)");
    {
        std::vector<D> bases = { { "A", 10, 12, 1e-3, -1, E0, 2, 41001, 13 }, { "B", 0.5, 0.5, INFY, 2, MU, 3, 41001, 0 }, { "C", 1e5, 2e5, 1e-9, 1, TA, 0, 41001, -12 } };
        for (size_t b = 0; b < bases.size(); ++b) for (auto& v : variants(bases[b]))
            vk::cs(vk::f("variant-%zu-%s", b, v.first.c_str()), [&] {
                for (int order = 0; order < 2; ++order) in_child(v.first, [&] {
                    D x = order ? v.second : bases[b], y = order ? bases[b] : v.second;
                    auto p = build(x); bool th = false;
                    try { build(y); } catch (std::invalid_argument const&) { th = true; }
                    if (!th) throw std::runtime_error("conflicting definition accepted");
                    if (!has(ParticleDef::GetParticleDefForType(41001), x)) throw std::runtime_error("registry changed");
                    auto q = build(x); if (!(p == q) || p.GetHash() != q.GetHash()) throw std::runtime_error("identical definition not equal");
                    // same data under another type number is another particle
                    y.type = 41002; auto r = build(y); if (p == r || !(p != r)) throw std::runtime_error("different type equal");
                    if (!has(ParticleDef::GetParticleDefForType(41002), y)) throw std::runtime_error("second type");
                });
                vk::trans(12); vk::state(vk::mix(vk::hs(v.first), b));
            });
    }
    // registry histories
    {
        int N = vk::thorough() ? 5 : 4; const int NO = 13;
        vk::bound(vk::f("registry histories: all sequences of up to %d of %d operations, each in a fresh process", N, NO));
        for (int first = 0; first < NO; ++first) for (int sec = 0; sec < NO; ++sec)
            vk::cs(vk::f("history-%d-%d", first, sec), [&] {
                // each sequence runs in its own child for a fresh registry; batches share the fork of their prefix
                std::vector<int> ops = { first, sec };
                std::function<void()> rec = [&] {
                    std::string h = "ops"; for (int o : ops) h += vk::f(" %d", o);
                    size_t before = vk::ctx().states.size(); (void)before;
                    // run in a child; pass failures and the state hash through a pipe
                    int pfd[2]; if (pipe(pfd)) throw vk::Skip();
                    pid_t c = fork();
                    if (!c) {
                        close(pfd[0]); std::string out;
                        auto& cx = vk::ctx(); cx.states.clear();
                        try { history(ops, h); for (auto s : cx.states) out = std::to_string(s); }
                        catch (std::exception const& e) { out = std::string("!") + e.what(); }
                        catch (...) { out = "!violation"; }
                        if (write(pfd[1], out.c_str(), out.size()) < 0) {} _exit(0);
                    }
                    close(pfd[1]); std::string out; char buf[4096]; ssize_t n; while ((n = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, n); close(pfd[0]);
                    int st = 0; waitpid(c, &st, 0);
                    vk::trans(20);
                    if (out.empty() || !WIFEXITED(st) || WEXITSTATUS(st)) vk::fail("crash", "%s: child died (status %d)", h.c_str(), st);
                    if (out[0] == '!') vk::fail("history", "%s: %s", h.c_str(), out.c_str());
                    vk::state(strtoull(out.c_str(), nullptr, 10));
                    if ((int)ops.size() < N) for (int o = 0; o < NO; ++o) { ops.push_back(o); rec(); ops.pop_back(); }
                };
                rec();
            });
    }
    // builder: all subsets of setters, forward and reverse order, reuse
    vk::bound("builder: all 512 subsets of setters in forward and reverse order, twice from the same builder, and on top of SetParticleDef");
    for (int rev = 0; rev < 2; ++rev) for (int from = 0; from < 2; ++from)
        vk::cs(vk::f("builder-rev%d-from%d", rev, from), [&] {
            int next = 20000;
            for (int m = 0; m < 512; ++m) for (int lo = 0; lo < 2; ++lo) {
                D e = { "", 0, 0, INFY, -1, E0, 0, 0, 0 };
                ParticleDef::Builder b;
                if (from) { auto mu = MuMinusDef(); b.SetParticleDef(mu); }
                auto mu = MuMinusDef();
                DecayTable dt = from ? mu.decay_table : DecayTable();
                if (from) e = { "MuMinus", mu.mass, mu.low, mu.lifetime, mu.charge, MU, 0, 13, 14 };
                int type = next++;
                std::vector<std::function<void()>> set = {
                    [&] { b.SetName("N"); e.name = "N"; }, [&] { b.SetMass(50); e.mass = 50; }, [&] { e.low = lo ? 500 : 20; b.SetLow(e.low); }, [&] { b.SetLifetime(1e-5); e.life = 1e-5; },
                    [&] { b.SetCharge(3); e.charge = 3; }, [&] { b.SetHardComponentTable(*TA); e.tab = TA; }, [&] { dt = dtab(2); b.SetDecayTable(dt); }, [&] { b.SetWeakPartner(ParticleType::NuTau); e.weak = 16; }, [&] {} };
                std::vector<int> order; for (int k = 0; k < 9; ++k) if (m >> k & 1) order.push_back(k);
                b.SetParticleType(type); e.type = type;
                if (rev) std::reverse(order.begin(), order.end());
                for (int k : order) set[k]();
                auto p = b.build();
                double lowx = std::max(e.low, e.mass);
                auto ok = [&](ParticleDef const& p) { return p.name == e.name && p.mass == e.mass && p.low == lowx && p.lifetime == e.life && p.charge == e.charge && &p.hard_component_table == e.tab && p.decay_table == dt && p.particle_type == e.type && p.weak_partner == e.weak; };
                VK_CHECK(ok(p), "builder", "mask %d rev %d from %d: %s", m, rev, from, show(p).c_str());
                auto q = b.build(); VK_CHECK(ok(q) && p == q, "builder-twice", "mask %d", m);
                VK_CHECK(ok(ParticleDef::GetParticleDefForType(type)), "builder-registry", "mask %d", m);
                ParticleDef::Builder c; c.SetParticleDef(p); auto r = c.build(); VK_CHECK(ok(r) && r == p, "builder-from", "mask %d", m);
                // keep using the builder after a change
                b.SetMass(10).SetParticleType(next++); e.mass = 10; e.type = next - 1; lowx = std::max(e.low, 10.);
                auto t = b.build(); VK_CHECK(ok(t), "builder-reuse", "mask %d rev %d from %d: %s (low expected %.9g)", m, rev, from, show(t).c_str(), lowx);
                vk::state(vk::mix(vk::mix(7, m * 2 + lo), rev * 2 + from));
            }
        });
}
