// vk: shards=8 limit=800
#include "vk.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/crosssection/ParticleDefaultCrossSectionList.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/math/Spline.h"
#include "PROPOSAL/math/Interpolant.h"
#include "PROPOSAL/math/InterpolantBuilder.h"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/scattering/Scattering.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/multiple_scattering/Moliere.h"
#include "PROPOSAL/scattering/stochastic_deflection/ScatteringFactory.h"
#include "PROPOSAL/secondaries/SecondariesCalculator.h"
#include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/NaivEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.h"
#include "PROPOSAL/secondaries/parametrization/photoeffect/PhotoeffectNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.h"
#include "PROPOSAL/secondaries/parametrization/photonuclear/Photonuclear.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.h"
#include "PROPOSAL/secondaries/parametrization/photoproduction/Photoproduction.h"
#include "PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.h"
#include <spdlog/spdlog.h>
#include <random>
using namespace PROPOSAL;

static RandomGenerator& G() { return RandomGenerator::Get(); }
static const int N = 2400;
static std::map<int, std::vector<double>> table; // origin -> stream
static const int FRESH = 1 << 30;

// the numbers a fresh process gets after this seed (FRESH: without seeding)
static std::vector<double> record(int seed)
{
    int fd[2];
    if (pipe(fd)) abort();
    fflush(nullptr);
    pid_t p = fork();
    if (!p) {
        if (seed != FRESH) G().SetSeed(seed);
        std::vector<double> v;
        for (int i = 0; i < N; ++i) v.push_back(G().RandomDouble());
        size_t n = v.size() * 8, o = 0;
        while (o < n) { auto k = write(fd[1], (char*)v.data() + o, n - o); if (k <= 0) _exit(1); o += k; }
        _exit(0);
    }
    close(fd[1]);
    std::vector<double> v(N); size_t o = 0;
    while (o < N * 8) { auto k = read(fd[0], (char*)v.data() + o, N * 8 - o); if (k <= 0) break; o += k; }
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    if (o != N * 8) abort();
    return v;
}
struct Model { int origin; size_t pos; int custom; }; // custom: 0 none, 1, 2
static uint64_t cnt[3];
static double cval(int which, uint64_t n) { return double(vk::mix(which, n) >> 11) / 9007199254740992.; }
static void set_custom(int w)
{
    std::function<double()> g = [w] { return cval(w, cnt[w]++); };
    G().SetRandomNumberGenerator(g);
} // the function object given goes out of scope here

struct Obj { std::string name; std::function<double()> use; bool draws; };
template <class T> double secondaries_of(ParticleDef const& p, Medium const& m, InteractionType t, double E, double v)
{
    T par(p, m);
    double s = 0;
    for (auto& c : m.GetComponents()) {
        StochasticLoss loss((int)t, E * v, Cartesian3D(1, 2, 3), Cartesian3D(0, 0.6, 0.8), 1e-9, 10., E, c.GetHash());
        for (double r : { 0.1, 0.5, 0.9 }) {
            std::vector<double> rnd(par.RequiredRandomNumbers(), r);
            for (auto& x : par.CalculateSecondaries(loss, c, rnd)) s += x.energy * (1 + x.direction.GetX());
        }
    }
    return s;
}
static std::vector<Obj> objects()
{
    using namespace secondaries;
    std::vector<Obj> o;
    auto add = [&](std::string n, std::function<double()> f, bool draws = false) { o.push_back({ n, f, draws }); };
    typedef InteractionType IT;
    for (auto name : { "ice", "standardrock" }) {
        auto mk = [name] { return CreateMedium(name); };
        std::string s = std::string("-") + name;
        for (double v : { 1e-3, 0.3 }) {
            auto sv = s + vk::f("-%g", v);
            for (auto& p : std::vector<ParticleDef> { EMinusDef(), EPlusDef(), MuMinusDef(), TauPlusDef() }) {
                auto sp = sv + "-" + p.name;
                add("BremsKochMotz" + sp, [=] { return secondaries_of<BremsKochMotz>(p, *mk(), IT::Brems, 1e5, v); });
                add("BremsEGS4" + sp, [=] { return secondaries_of<BremsEGS4Approximation>(p, *mk(), IT::Brems, 1e5, v); });
                add("BremsNoDeflection" + sp, [=] { return secondaries_of<BremsNoDeflection>(p, *mk(), IT::Brems, 1e5, v); });
                add("NaivIonization" + sp, [=] { return secondaries_of<NaivIonization>(p, *mk(), IT::Ioniz, 1e5, v); });
                add("NaivEpair" + sp, [=] { return secondaries_of<NaivEpairProduction>(p, *mk(), IT::Epair, 1e5, v); });
                add("Photonuclear" + sp, [=] { return secondaries_of<secondaries::Photonuclear>(p, *mk(), IT::Photonuclear, 1e5, v); });
            }
            MuMinusDef mu;
            add("EpairRho" + sv, [=] { return secondaries_of<KelnerKokoulinPetrukhinEpairProduction>(mu, *mk(), IT::Epair, 1e5, v); });
            add("EpairEl" + sv, [=] { return secondaries_of<ForElectronPositronEpairProduction>(EMinusDef(), *mk(), IT::Epair, 1e5, v); });
            add("Mupair" + sv, [=] { return secondaries_of<KelnerKokoulinPetrukhinMupairProduction>(mu, *mk(), IT::MuPair, 1e5, v < 0.1 ? 0.05 : v); });
            add("Weak" + sv, [=] { return secondaries_of<WeakCooperSarkarMertsch>(mu, *mk(), IT::WeakInt, 1e7, 1.); });
            GammaDef g;
            add("Compton" + sv, [=] { return secondaries_of<NaivCompton>(g, *mk(), IT::Compton, 1e3, v); });
            add("Annihilation" + sv, [=] { return secondaries_of<HeitlerAnnihilation>(EPlusDef(), *mk(), IT::Annihilation, 1e3, 1.); });
            add("Photoeffect" + sv, [=] { return secondaries_of<PhotoeffectNoDeflection>(g, *mk(), IT::Photoeffect, 1., 1.); });
            add("Photoproduction" + sv, [=] { return secondaries_of<secondaries::Photoproduction>(g, *mk(), IT::Photoproduction, 1e4, 1.); });
        }
        add("cross-mu" + s, [=] { MuMinusDef p; double r = 0; for (auto& c : GetStdCrossSections(p, *mk(), std::make_shared<EnergyCutSettings>(500, 0.05, false), false)) r += c->CalculatedEdx(1e5) + c->CalculatedNdx(1e5); return r; });
        add("cross-gamma" + s, [=] { GammaDef p; double r = 0; for (auto& c : GetStdCrossSections(p, *mk(), std::make_shared<EnergyCutSettings>(INF, 1, false), false)) r += c->CalculatedNdx(1e3); return r; });
        add("cross-sample" + s, [=] { MuMinusDef p; double r = 0; for (auto& c : GetStdCrossSections(p, *mk(), std::make_shared<EnergyCutSettings>(500, 0.05, true), false)) for (auto& t : c->CalculatedNdx_PerTarget(1e5)) r += c->CalculateStochasticLoss(t.first, 1e5, 0.3 * t.second); return r; });
        add("multiple-scattering" + s, [=] { multiple_scattering::Highland h(MuMinusDef(), *mk()); multiple_scattering::Moliere m(MuMinusDef(), *mk()); std::array<double, 4> r { 0.1, 0.4, 0.6, 0.8 }; return h.CalculateRandomAngle(10, 1e5, 9e4, r).sx + m.CalculateRandomAngle(10, 1e5, 9e4, r).tx; });
        for (auto d : { "bremstsaiapproximation", "bremsginneken", "ioniznaive", "epairginneken", "photoborogpetrukhin", "photoginneken" })
            add(std::string("deflection-") + d + s, [=] { auto x = make_stochastic_deflection(d, MuMinusDef(), *mk()); std::vector<double> r(x->RequiredRandomNumbers(), 0.4); auto a = x->CalculateStochasticDeflection(1e5, 9e4, r, mk()->GetComponents()[0].GetHash()); return a.zenith + a.azimuth; });
        add("medium" + s, [=] { auto m = mk(); return m->GetZA() + m->GetComponents()[0].GetNucCharge() + double(m->GetHash() % 97); });
    }
    add("PhotoPairTsai", [] { return secondaries_of<PhotoPairProductionTsai>(GammaDef(), *CreateMedium("standardrock"), InteractionType::Photopair, 1e4, 1.); });
    add("PhotoPairKochMotz", [] { return secondaries_of<PhotoPairProductionKochMotzSauter>(GammaDef(), *CreateMedium("standardrock"), InteractionType::Photopair, 1e4, 1.); });
    add("PhotoMuPair", [] { return secondaries_of<PhotoMuPairProductionBurkhardtKelnerKokoulin>(GammaDef(), *CreateMedium("standardrock"), InteractionType::PhotoMuPair, 1e5, 1.); });
    add("particles", [] { double s = 0; for (auto& p : std::vector<ParticleDef> { EMinusDef(), MuMinusDef(), TauMinusDef(), GammaDef(), PiMinusDef(), KMinusDef() }) s += p.mass; return s; });
    add("particle-state", [] { ParticleState a(ParticleType::MuMinus, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 1e4, 0, 0); auto b = a; b.SetMomentum(100); return b.energy; });
    add("decay-table", [] { auto t = MuMinusDef().decay_table; auto u = t; u = TauMinusDef().decay_table; return double(u == t) + double(&t.SelectChannel(0.3) != nullptr); });
    add("geometry", [] { Sphere s(Cartesian3D(0, 0, 0), 10, 1); Density_homogeneous d(1.); return s.DistanceToBorder(Cartesian3D(1, 0, 0), Cartesian3D(0, 0, 1)).first + d.Correct(Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 3., 10.); });
    add("math", [] { Integral i; Cubic_Spline s({ 0, 1, 2, 3 }, { 1, 4, 2, 3 }); return i.Integrate(0, 1, [](double x) { return x * x; }, 4) + s.evaluate(1.5) + normalppf(0.3) + SampleFromGaussian(1, 2, 0.3, 0, 3) + SampleFromExponential(0.3, 2.) + NewtonRaphson([](double x) { return x - 0.3; }, [](double) { return 1.; }, 0, 1, 0.5) + dilog(0.3); });
    // decays draw random numbers
    for (auto& p : std::vector<ParticleDef> { MuMinusDef(), MuPlusDef(), TauMinusDef(), TauPlusDef() })
        for (double sel : { 0.05, 0.5, 0.95 })
            add("decay-" + p.name + vk::f("-%g", sel), [=] {
                ParticleState s((ParticleType)p.particle_type, Cartesian3D(1, 2, 3), Cartesian3D(0, 0, 1), p.mass * 10, 0, 0);
                double r = 0; for (auto& x : p.decay_table.SelectChannel(sel).Decay(p, s)) r += x.energy * (1.1 + x.direction.GetX()); return r; }, true);
    add("decay-twobody", [] { TwoBodyPhaseSpace c((MuPlusDef()), NuMuDef()); PiPlusDef p;
        ParticleState s(ParticleType::PiPlus, Cartesian3D(1, 2, 3), Cartesian3D(0, 0, 1), p.mass * 10, 0, 0);
        double r = 0; for (auto& x : c.Decay(p, s)) r += x.energy * (1.1 + x.direction.GetX()); return r; }, true);
    return o;
}

void vk_main()
{
    spdlog::set_level(spdlog::level::off);
    std::vector<int> seeds { 1, -3, 0, 1234567 };
    table[FRESH] = record(FRESH);
    for (int s : seeds) { table[s] = record(s); }
    // ---- the recorded streams ------------------------------------------------
    vk::cs("streams", [&] {
        for (auto& a : table) {
            for (double x : a.second) VK_CHECK(x >= 0 && x < 1, "unit-interval", "%.17g", x);
            std::set<double> u(a.second.begin(), a.second.end());
            VK_CHECK(u.size() == a.second.size(), "distinct", "%zu of %zu numbers differ", u.size(), a.second.size());
            auto again = record(a.first);
            VK_CHECK(again == a.second, "same-seed-same-numbers", "origin %d", a.first);
            for (auto& b : table) if (a.first < b.first) VK_CHECK(a.second != b.second, "seeds-distinct", "%d %d", a.first, b.first);
        }
        for (int s : { 5, -100, 2147483647, -2147483647 - 1, 99 }) {
            auto a = record(s); G().RandomDouble(); VK_CHECK(a == record(s), "same-seed-same-numbers", "seed %d", s);
            for (double x : a) VK_CHECK(x >= 0 && x < 1, "unit-interval", "%.17g", x);
        }
    });
    // ---- all operation sequences ----------------------------------------------
    // 0 seed(1) 1 seed(-3) 2 draw 3 draw many 4 store A 5 restore A 6 store B 7 restore B 8 custom1 9 custom2 10 default
    // 11 use of library objects 12 decay
    static const char* opn[] = { "seed1", "seed-3", "draw", "draw700", "storeA", "restoreA", "storeB", "restoreB", "custom1", "custom2", "default", "library", "decay" };
    const int NOP = 13; int depth = vk::thorough() ? 6 : 5;
    auto objs = objects();
    std::vector<Obj*> light;
    for (auto& o : objs) for (auto n : { "BremsKochMotz-ice-0.3-EMinus", "BremsEGS4-ice-0.3-EMinus", "NaivIonization-ice-0.3-MuMinus", "NaivEpair-ice-0.3-MuMinus", "Annihilation-ice-0.3", "deflection-bremsginneken-ice", "particles", "geometry" }) if (o.name == n) light.push_back(&o);
    Obj* dec = nullptr;
    for (auto& o : objs) if (o.name == "decay-twobody") dec = &o;
    uint64_t ndec = 0;
    { set_custom(1); dec->use(); ndec = cnt[1]; cnt[1] = 0; dec->use(); if (!ndec || cnt[1] != ndec) vk::fail("decay-draws", "two-body decay uses %llu, then %llu numbers", (unsigned long long)ndec, (unsigned long long)cnt[1]); G().SetDefaultRandomNumberGenerator(); }
    vk::bound(vk::f("all sequences of %d operations (seeding with 2 seeds, one and 700 draws, 2 stored states, 2 user generators, default generator, library use, decay) of length %d, judged after every operation; reference streams recorded in fresh processes", NOP, depth));
    auto run = [&](std::vector<int> const& ops) {
        std::string stored[2]; Model sm[2]; bool have[2] = { false, false };
        set_custom(0 + 1); G().SetDefaultRandomNumberGenerator(); G().SetSeed(1);
        Model m { 1, 0, 0 };
        std::string h = "seed1";
        for (int op : ops) {
            h += std::string(" ") + opn[op];
            auto draw = [&](int k) {
                for (int i = 0; i < k; ++i) {
                    double want = m.custom ? cval(m.custom, cnt[m.custom]) : table[m.origin][m.pos % N];
                    uint64_t before[3] = { cnt[0], cnt[1], cnt[2] };
                    double got = G().RandomDouble();
                    if (m.custom) { before[m.custom]++; } else ++m.pos;
                    if (got != want || before[1] != cnt[1] || before[2] != cnt[2]) { vk::fail("stream", "%s: draw %d gives %.17g want %.17g (user generator %d)", h.c_str(), i, got, want, m.custom); return false; }
                    vk::trans();
                }
                return true;
            };
            bool ok = true;
            switch (op) {
            case 0: G().SetSeed(1); m.origin = 1; m.pos = 0; break;
            case 1: G().SetSeed(-3); m.origin = -3; m.pos = 0; break;
            case 2: ok = draw(1); break;
            case 3: if (m.pos > 1400) return true; ok = draw(700); break;
            case 4: case 6: { int k = op / 2 - 2; std::ostringstream os; G().Serialize(os); stored[k] = os.str(); sm[k] = m; have[k] = true; break; }
            case 5: case 7: { int k = (op - 1) / 2 - 2; if (!have[k]) return true; std::istringstream is(stored[k]); G().Deserialize(is); m.origin = sm[k].origin; m.pos = sm[k].pos; break; }
            case 8: set_custom(1); m.custom = 1; break;
            case 9: set_custom(2); m.custom = 2; break;
            case 10: G().SetDefaultRandomNumberGenerator(); m.custom = 0; break;
            case 11: for (auto o : light) o->use(); break;
            case 12: { // the two numbers of a decay come from the active generator only
                uint64_t b1 = cnt[1], b2 = cnt[2];
                dec->use();
                if (m.custom) VK_CHECK(m.custom == 1 ? cnt[2] == b2 && cnt[1] == b1 + ndec : cnt[1] == b1 && cnt[2] == b2 + ndec, "decay-generator", "%s", h.c_str());
                else { VK_CHECK(cnt[1] == b1 && cnt[2] == b2, "decay-generator", "%s", h.c_str()); m.pos += ndec; }
                break; }
            }
            if (!ok) return false;
            vk::state(vk::hs(vk::f("%d %zu %d %d %zu %d %zu", m.origin, m.pos, m.custom, have[0] ? sm[0].origin : 7, have[0] ? sm[0].pos : 0, have[1] ? sm[1].origin : 7, have[1] ? sm[1].pos : 0)));
        }
        // observe: two numbers of the active generator, then the default stream
        for (int i = 0; i < 2; ++i) {
            double want = m.custom ? cval(m.custom, cnt[m.custom]) : table[m.origin][m.pos % N];
            double got = G().RandomDouble();
            VK_CHECK(got == want, "stream", "%s: next number %.17g want %.17g", h.c_str(), got, want);
            if (!m.custom) ++m.pos;
        }
        G().SetDefaultRandomNumberGenerator();
        double got = G().RandomDouble();
        VK_CHECK(got == table[m.origin][m.pos % N], "stream-after-default", "%s: %.17g want %.17g", h.c_str(), got, table[m.origin][m.pos % N]);
        return true;
    };
    for (int a = 0; a < NOP; ++a) for (int b = 0; b < NOP; ++b)
        vk::cs(vk::f("seq-%s-%s", opn[a], opn[b]), [&] {
            std::vector<int> v { a, b };
            std::function<void()> rec = [&] {
                if ((int)v.size() == depth) { run(v); return; }
                for (int k = 0; k < NOP; ++k) { v.push_back(k); rec(); v.pop_back(); }
            };
            rec();
        });
    // ---- single numbers of a stored state at every position ---------------------
    vk::cs("state-positions", [&] {
        int step = vk::thorough() ? 1 : 7;
        G().SetDefaultRandomNumberGenerator();
        for (int pos = 0; pos < 1300; pos += step) {
            G().SetSeed(1234567);
            for (int i = 0; i < pos; ++i) G().RandomDouble();
            std::stringstream s; G().Serialize(s);
            for (int i = 0; i < 3; ++i) VK_CHECK(G().RandomDouble() == table[1234567][pos + i], "store-disturbs", "position %d", pos);
            G().SetSeed(4);
            G().RandomDouble();
            G().Deserialize(s);
            for (int i = 0; i < 3; ++i) VK_CHECK(G().RandomDouble() == table[1234567][pos + i], "restore", "position %d", pos);
            vk::state(vk::hs(vk::f("pos%d", pos)));
        }
    });
    // ---- library objects leave the stream alone and are reproducible ------------
    vk::bound(vk::f("%zu uses of library objects x stream positions 0, 3, 623, 700 x default/user generator", objs.size()));
    for (auto& o : objs)
        vk::cs("use-" + o.name, [&] {
            G().SetDefaultRandomNumberGenerator();
            double first = 0; size_t n_default = 0; bool have = false;
            for (int pos : { 0, 3, 623, 700 }) {
                G().SetSeed(1);
                for (int i = 0; i < pos; ++i) G().RandomDouble();
                std::ostringstream a, b; G().Serialize(a);
                double r = o.use();
                if (!o.draws) {
                    G().Serialize(b);
                    VK_CHECK(a.str() == b.str(), "library-changes-stream", "%s at position %d: state differs", o.name.c_str(), pos);
                    double x = G().RandomDouble();
                    VK_CHECK(x == table[1][pos], "library-changes-stream", "%s at position %d: next %.17g want %.17g", o.name.c_str(), pos, x, table[1][pos]);
                    if (have) VK_CHECK(r == first || (std::isnan(r) && std::isnan(first)), "not-reproducible", "%s: %.17g then %.17g", o.name.c_str(), first, r);
                    first = r; have = true;
                } else {
                    // reproducible, and the stream goes on where the last draw was
                    double nx = G().RandomDouble(); size_t k = 0;
                    while (pos + k < N && table[1][pos + k] != nx) ++k;
                    VK_CHECK(k > 0 && pos + k < N, "decay-stream", "%s at %d: next number is not of the stream", o.name.c_str(), pos);
                    std::istringstream is(a.str()); G().Deserialize(is);
                    double again = o.use();
                    VK_CHECK(r == again, "not-reproducible", "%s: %.17g then %.17g", o.name.c_str(), r, again);
                    VK_CHECK(G().RandomDouble() == nx, "not-reproducible", "%s: different number of draws", o.name.c_str());
                    n_default = k;
                }
                vk::state(vk::hd(vk::hs(o.name), r));
            }
            (void)n_default;
            for (int w : { 1, 2 }) {
                G().SetSeed(1); G().RandomDouble();
                set_custom(w); uint64_t c0 = cnt[w], other = cnt[3 - w];
                double r = o.use();
                VK_CHECK(cnt[3 - w] == other, "wrong-generator", "%s", o.name.c_str());
                if (!o.draws) { VK_CHECK(cnt[w] == c0, "library-draws", "%s draws %llu numbers", o.name.c_str(), (unsigned long long)(cnt[w] - c0)); VK_CHECK(r == first || std::isnan(r), "not-reproducible", "%s", o.name.c_str()); }
                else VK_CHECK(cnt[w] > c0, "user-generator-unused", "%s", o.name.c_str());
                double x = G().RandomDouble();
                VK_CHECK(x == cval(w, cnt[w] - 1), "user-generator-replaced", "%s: next number %.17g", o.name.c_str(), x);
                G().SetDefaultRandomNumberGenerator();
                x = G().RandomDouble();
                VK_CHECK(x == table[1][1], "library-changes-stream", "%s under user generator: next %.17g want %.17g", o.name.c_str(), x, table[1][1]);
            }
        });
}
