// vk: sources=decay,particle,math,Logging,methods,Constants,medium flavor=asan shards=8 limit=800
#include "vk.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <memory>
#include <spdlog/spdlog.h>
using namespace PROPOSAL;

static int live = 0;
// a channel that only carries a tag; clones are counted
struct Tag : DecayChannel {
    int tag; bool uniform = true;
    static const std::string nm;
    Tag(int t) : tag(t) { ++live; }
    Tag(Tag const& o) : DecayChannel(o), tag(o.tag), uniform(o.uniform) { ++live; }
    ~Tag() { --live; tag = -99; }
    DecayChannel* clone() const override { return new Tag(*this); }
    std::vector<ParticleState> Decay(const ParticleDef&, const ParticleState&) override { return {}; }
    void SetUniformSampling(bool u) override { uniform = u; }
    const std::string& GetName() const override { return nm; }
protected:
    bool compare(const DecayChannel& o) const override { auto t = dynamic_cast<const Tag*>(&o); return t && t->tag == tag && t->uniform == uniform; }
};
const std::string Tag::nm = "Tag";

struct Ch { double br; int tag; bool uniform; };
typedef std::vector<Ch> Mod; // tag -1: stable
static int id(DecayChannel const& c) { auto t = dynamic_cast<const Tag*>(&c); return t ? t->tag : dynamic_cast<const StableChannel*>(&c) ? -1 : -2; }
// measured share of random numbers of each channel: the selection is a step
// function of the random number; steps are located by bisection
static std::map<int, double> shares(DecayTable const& t, std::string const& h, int grid, std::set<bool>* uni = nullptr)
{
    std::map<int, double> s;
    auto sel = [&](double r) { auto& c = t.SelectChannel(r); if (uni) if (auto x = dynamic_cast<const Tag*>(&c)) uni->insert(x->uniform); return id(c); };
    double x = 0; int cur = sel(0.);
    double last = 1 - 1.2e-16;
    for (int i = 1; i <= grid; ++i) {
        double y = i == grid ? last : double(i) / grid; int n = sel(y);
        if (n != cur) {
            double a = double(i - 1) / grid, b = y;
            while (b - a > 1e-15) { double m = (a + b) / 2; if (m == a || m == b) break; (sel(m) == cur ? a : b) = m; }
            s[cur] += b - x; x = b; cur = n;
        }
    }
    s[cur] += 1 - x;
    (void)h;
    return s;
}
static void judge(DecayTable const& t, Mod const& m, std::string const& h)
{
    if (m.empty()) return;
    double sum = 0; std::map<int, double> want;
    for (auto& c : m) sum += c.br;
    for (auto& c : m) want[c.tag] += c.br / sum;
    auto got = shares(t, h, 97);
    for (auto& w : want) VK_CLOSE(got.count(w.first) ? got[w.first] : 0., w.second, 1e-12, 1e-13, "share", "%s: share of channel %d", h.c_str(), w.first);
    for (auto& g : got) VK_CHECK(want.count(g.first), "foreign-channel", "%s: channel %d selected", h.c_str(), g.first);
    for (int i = 0; i < 97; ++i) {
        auto& c = t.SelectChannel(i / 97.);
        { double br = 0; for (auto& k : m) if (k.tag == id(c)) br += k.br; VK_CHECK(br > 0, "empty-share", "%s: random number %g selects channel %d without share", h.c_str(), i / 97., id(c)); }
        if (auto x = dynamic_cast<Tag*>(&c)) for (auto& k : m) if (k.tag == x->tag) { VK_CHECK(k.uniform == x->uniform, "uniform-flag", "%s: channel %d", h.c_str(), x->tag); }
    }
}
static bool eq(Mod a, Mod b)
{
    if (a.size() != b.size()) return false;
    auto lt = [](Ch const& x, Ch const& y) { return std::tie(x.br, x.tag, x.uniform) < std::tie(y.br, y.tag, y.uniform); };
    std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
    for (size_t i = 0; i < a.size(); ++i) if (a[i].br != b[i].br || a[i].tag != b[i].tag || a[i].uniform != b[i].uniform) return false;
    return true;
}
static uint64_t hm(Mod a) { std::sort(a.begin(), a.end(), [](Ch const& x, Ch const& y) { return std::tie(x.br, x.tag) < std::tie(y.br, y.tag); }); uint64_t h = 1; for (auto& c : a) h = vk::hd(vk::mix(h, c.tag * 2 + c.uniform), c.br); return h; }

void vk_main()
{
    spdlog::set_level(spdlog::level::off);
    // ---- histories of two tables ------------------------------------------------
    static const char* opn[] = { "addA(.5,1)", "addA(.5,2)", "addA(.2,3)", "addA(.1,1)", "addA(0,4)", "addB(.5,1)", "addB(.25,5)", "A=B", "B=A", "B=copy(A)", "A=A", "swap", "stableA", "uniformA(0)", "uniformB(1)", "destroyB" };
    const int NOP = 16, depth = vk::thorough() ? 6 : 5;
    vk::bound(vk::f("all sequences of %d operations of length up to %d on two tables (adding channels with equal, different and zero ratios, assignment, copy, self assignment, exchange, stable, sampling flag, destruction); contents, shares, equality and number of live channels judged at the end of every sequence", NOP, depth));
    auto run = [&](std::vector<int> const& ops) {
        int live0 = live;
        std::string h;
        {
            std::unique_ptr<DecayTable> t[2] { std::make_unique<DecayTable>(), std::make_unique<DecayTable>() };
            Mod m[2];
            auto add = [&](int k, double br, int tag) { Tag c(tag); auto& r = t[k]->addChannel(br, c); VK_CHECK(&r == t[k].get(), "chain", "addChannel returns another table"); m[k].push_back({ br, tag, true }); };
            for (int op : ops) {
                h += std::string(h.empty() ? "" : " ") + opn[op];
                switch (op) {
                case 0: add(0, .5, 1); break;
                case 1: add(0, .5, 2); break;
                case 2: add(0, .2, 3); break;
                case 3: add(0, .1, 1); break;
                case 4: add(0, 0., 4); break;
                case 5: add(1, .5, 1); break;
                case 6: add(1, .25, 5); break;
                case 7: *t[0] = *t[1]; m[0] = m[1]; break;
                case 8: *t[1] = *t[0]; m[1] = m[0]; break;
                case 9: t[1] = std::make_unique<DecayTable>(*t[0]); m[1] = m[0]; break;
                case 10: { auto& s = *t[0]; *t[0] = s; break; }
                case 11: swap(*t[0], *t[1]); std::swap(m[0], m[1]); break;
                case 12: t[0]->SetStable(); m[0] = { { 1.1, -1, true } }; break;
                case 13: t[0]->SetUniformSampling(false); for (auto& c : m[0]) if (c.tag >= 0) c.uniform = false; break;
                case 14: t[1]->SetUniformSampling(true); for (auto& c : m[1]) if (c.tag >= 0) c.uniform = true; break;
                case 15: t[1] = std::make_unique<DecayTable>(); m[1].clear(); break;
                }
            }
            for (int k = 0; k < 2; ++k) {
                double s = 0; for (auto& c : m[k]) s += c.br;
                // the same channel added twice with different flags cannot be told apart by tag
                bool amb = false; for (auto& a : m[k]) for (auto& b : m[k]) if (a.tag == b.tag && a.uniform != b.uniform) amb = true;
                if (s > 0 && !amb) judge(*t[k], m[k], h + (k ? " [B]" : " [A]"));
                vk::state(vk::mix(hm(m[0]), hm(m[1])));
            }
            auto sorted = [](Mod const& x) { for (size_t i = 1; i < x.size(); ++i) for (size_t j = 0; j < i; ++j) if (x[i].br == x[j].br) return false; return true; };
            // tables with equal ratios of different channels may be ordered by insertion
            if ((sorted(m[0]) && sorted(m[1])) || !eq(m[0], m[1])) {
                VK_CHECK((*t[0] == *t[1]) == eq(m[0], m[1]), "equality", "%s: == gives %d", h.c_str(), int(*t[0] == *t[1]));
                VK_CHECK((*t[0] != *t[1]) == !eq(m[0], m[1]), "equality", "%s: != gives %d", h.c_str(), int(*t[0] != *t[1]));
            }
            int n = 0; for (auto& x : m) for (auto& c : x) n += c.tag >= 0;
            VK_CHECK(live - live0 == n, "live-channels", "%s: %d channels alive, %d added", h.c_str(), live - live0, n);
        }
        VK_CHECK(live == live0, "leak", "%s: %d channels left", h.c_str(), live - live0);
    };
    for (int a = 0; a < NOP; ++a) for (int b = 0; b < NOP; ++b)
        vk::cs(vk::f("seq-%s-%s", opn[a], opn[b]), [&] {
            std::vector<int> v { a, b };
            std::function<void()> rec = [&] {
                run(v);
                if ((int)v.size() == depth) return;
                for (int k = 0; k < NOP; ++k) { v.push_back(k); rec(); v.pop_back(); }
            };
            rec();
        });
    // ---- selection: all tables of ratios -------------------------------------------
    std::vector<double> brs { 0.5, 0.25, 0.1, 1. / 3, 1e-3, 1., 0.9999, 1e-9, 7.5 };
    int len = vk::thorough() ? 5 : 4;
    vk::bound(vk::f("selection: all ordered tables of up to %d of %zu ratios (repetition allowed), shares located by bisection to 1e-15", len, brs.size()));
    for (size_t a = 0; a < brs.size(); ++a) for (size_t b = 0; b <= brs.size(); ++b)
        vk::cs(vk::f("select-%zu-%zu", a, b), [&] {
            std::vector<size_t> v { a }; if (b < brs.size()) v.push_back(b);
            std::function<void()> rec = [&] {
                DecayTable t; Mod m; double s = 0;
                for (size_t i = 0; i < v.size(); ++i) { t.addChannel(brs[v[i]], Tag(i)); m.push_back({ brs[v[i]], (int)i, true }); s += brs[v[i]]; }
                // shares from the selection itself, boundaries exact: every channel is one interval
                std::map<int, double> got; double x = 0; int n = 0;
                while (x < 1 && n < 50) {
                    int cur = id(t.SelectChannel(x)); double lo = x, hi = 1;
                    if (id(t.SelectChannel(1 - 1.2e-16)) == cur) { got[cur] += 1 - x; break; }
                    for (int k = 0; k < 200 && hi - lo > 1e-16 * hi; ++k) { double mid = lo + (hi - lo) / 2; if (mid <= lo || mid >= hi) break; (id(t.SelectChannel(mid)) == cur ? lo : hi) = mid; }
                    got[cur] += hi - x; x = hi; ++n;
                }
                for (auto& c : m) VK_CLOSE(got.count(c.tag) ? got[c.tag] : 0., c.br / s, 1e-11, 3e-16, "share", "table %zu/%zu...: channel %d of %zu", a, b, c.tag, m.size());
                vk::state(vk::mix(2, hm(m)));
                if (b < brs.size() && (int)v.size() < len) for (size_t k = 0; k < brs.size(); ++k) { v.push_back(k); rec(); v.pop_back(); }
            };
            rec();
        });
    // ---- the library's channels --------------------------------------------------
    struct LC { const char* n; std::shared_ptr<DecayChannel> c; };
    auto many = [](std::vector<ParticleDef> d) { ManyBodyPhaseSpace::Builder b; for (auto& x : d) b.addDaughter(x); return std::make_shared<ManyBodyPhaseSpace>(b.build()); };
    std::vector<LC> lib;
    auto rebuild = [&] {
        lib = {
            { "stable", std::make_shared<StableChannel>() },
            { "lepton-e", std::make_shared<LeptonicDecayChannelApprox>(EMinusDef(), NuTauDef(), NuEBarDef()) },
            { "lepton-e+", std::make_shared<LeptonicDecayChannelApprox>(EPlusDef(), NuTauDef(), NuEBarDef()) },
            { "lepton-nu", std::make_shared<LeptonicDecayChannelApprox>(EMinusDef(), NuMuDef(), NuEBarDef()) },
            { "lepton-anu", std::make_shared<LeptonicDecayChannelApprox>(EMinusDef(), NuTauDef(), NuMuBarDef()) },
            { "lepton-exact", std::make_shared<LeptonicDecayChannel>(EMinusDef(), NuTauDef(), NuEBarDef()) },
            { "lepton-mu", std::make_shared<LeptonicDecayChannel>(MuMinusDef(), NuTauDef(), NuMuBarDef()) },
            { "two-pi", std::make_shared<TwoBodyPhaseSpace>(PiMinusDef(), NuTauDef()) },
            { "two-pi+", std::make_shared<TwoBodyPhaseSpace>(PiPlusDef(), NuTauDef()) },
            { "two-pi-nu", std::make_shared<TwoBodyPhaseSpace>(PiMinusDef(), NuTauBarDef()) },
            { "two-K", std::make_shared<TwoBodyPhaseSpace>(KMinusDef(), NuTauDef()) },
            { "many-3", many({ PiMinusDef(), Pi0Def(), NuTauDef() }) },
            { "many-3+", many({ PiPlusDef(), Pi0Def(), NuTauDef() }) },
            { "many-3-anu", many({ PiMinusDef(), Pi0Def(), NuTauBarDef() }) },
            { "many-3-K", many({ KMinusDef(), Pi0Def(), NuTauDef() }) },
            { "many-2", many({ PiMinusDef(), NuTauDef() }) },
            { "many-4", many({ PiMinusDef(), Pi0Def(), Pi0Def(), NuTauDef() }) },
        };
    };
    rebuild();
    auto first = lib; rebuild();
    vk::bound(vk::f("all pairs of %zu library channels: equality of channels and of tables holding them", lib.size()));
    // the two leptonic matrix elements describe the same decay (the test suite
    // compares them as equal): that pair is not judged
    auto same_decay = [&](size_t i, size_t j) { std::string a = lib[i].n, b = lib[j].n; return (a == "lepton-e" && b == "lepton-exact") || (b == "lepton-e" && a == "lepton-exact"); };
    for (size_t i = 0; i < lib.size(); ++i) for (size_t j = 0; j < lib.size(); ++j) if (!same_decay(i, j))
        vk::cs(vk::f("channels-%s-%s", lib[i].n, lib[j].n), [&] {
            auto &a = *first[i].c, &b = *lib[j].c;
            VK_CHECK((a == b) == (i == j), "channel-equality", "%s == %s gives %d", lib[i].n, lib[j].n, int(a == b));
            VK_CHECK((a != b) == (i != j), "channel-equality", "%s != %s gives %d", lib[i].n, lib[j].n, int(a != b));
            std::unique_ptr<DecayChannel> ca(a.clone());
            VK_CHECK((*ca == b) == (i == j) && typeid(*ca) == typeid(a) && ca->GetName() == a.GetName(), "clone", "%s", lib[i].n);
            DecayTable s, t; s.addChannel(0.3, a); t.addChannel(0.3, b);
            VK_CHECK((s == t) == (i == j), "table-equality", "%s, %s", lib[i].n, lib[j].n);
            DecayTable u(s); u.addChannel(0.7, b);
            VK_CHECK(u != s && s != u, "table-equality", "different size");
            if (i != j) VK_CHECK(u.SelectChannel(0.1) == a && u.SelectChannel(0.5) == b, "library-selection", "%s %s", lib[i].n, lib[j].n);
            t.addChannel(0.7, b); s.addChannel(0.7000001, b);
            VK_CHECK(t != s, "table-equality", "different ratio");
            vk::state(vk::mix(3, i * 100 + j));
        });
    // ---- predefined particles ------------------------------------------------------
    struct PD { ParticleDef p; std::vector<double> brs; };
    vk::cs("predefined", [&] {
        auto chk = [&](ParticleDef const& p, std::vector<double> brs) {
            std::sort(brs.begin(), brs.end()); double s = 0, c = 0; for (double b : brs) s += b;
            std::set<DecayChannel*> seen;
            for (double b : brs) { auto* ch = &p.decay_table.SelectChannel((c + 0.5 * b) / s); VK_CHECK(!seen.count(ch), "predefined", "%s: channel with ratio %g chosen twice", p.name.c_str(), b);
                VK_CHECK(ch == &p.decay_table.SelectChannel((c + 1e-6 * b) / s) && ch == &p.decay_table.SelectChannel((c + (1 - 1e-6) * b) / s), "predefined", "%s: share of ratio %g", p.name.c_str(), b);
                seen.insert(ch); c += b; }
            auto copy = p; VK_CHECK(copy.decay_table == p.decay_table, "predefined", "copy of %s", p.name.c_str());
            VK_CHECK(&copy.decay_table.SelectChannel(0.5) != &p.decay_table.SelectChannel(0.5), "predefined", "copy of %s shares channels", p.name.c_str());
        };
        std::vector<double> tau { 0.1737, 0.1783, 0.1153, 0.2595, 0.0952, 0.098, 0.0457, 0.0119, 0.01, 0.00349 };
        chk(TauMinusDef(), tau); chk(TauPlusDef(), tau); chk(MuMinusDef(), { 1. }); chk(MuPlusDef(), { 1. });
        for (auto& p : std::vector<ParticleDef> { EMinusDef(), EPlusDef(), GammaDef(), NuEDef(), NuMuBarDef() })
            for (double r = 0; r < 1; r += 1. / 64) VK_CHECK(p.decay_table.SelectChannel(r) == StableChannel(), "predefined-stable", "%s", p.name.c_str());
    });
}
