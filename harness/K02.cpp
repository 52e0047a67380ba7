// vk: sources=decay,particle,math,Logging,methods,Constants,medium shards=8 limit=800
#include "vk.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <memory>
#include <spdlog/spdlog.h>
using namespace PROPOSAL;
typedef long double LD;

struct V { LD e, x, y, z; };
struct Chan {
    std::string n; ParticleDef parent; std::vector<ParticleDef> daughters; std::shared_ptr<DecayChannel> c;
    int kind; // 2 two-body, 3 leptonic approx, 4 leptonic exact, 5 many-body
    int nrnd; bool dflt = true;
};
static std::vector<Chan> channels()
{
    std::vector<Chan> v;
    auto two = [&](ParticleDef p, ParticleDef a, ParticleDef b) { v.push_back({ "two-" + p.name + "-" + a.name + "-" + b.name, p, { a, b }, std::make_shared<TwoBodyPhaseSpace>(a, b), 2, 2 }); };
    auto lep = [&](ParticleDef p, ParticleDef a, ParticleDef b, ParticleDef c) {
        v.push_back({ "approx-" + p.name + "-" + a.name, p, { a, b, c }, std::make_shared<LeptonicDecayChannelApprox>(a, b, c), 3, 5 });
        v.push_back({ "exact-" + p.name + "-" + a.name, p, { a, b, c }, std::make_shared<LeptonicDecayChannel>(a, b, c), 4, 5 }); };
    auto many = [&](ParticleDef p, std::vector<ParticleDef> d, bool me = false) {
        ManyBodyPhaseSpace::Builder b; std::string n = me ? "me-" : "many-"; n += p.name;
        for (auto& x : d) { b.addDaughter(x); n += "-" + x.name; }
        if (me) b.setMatrixElement([](ParticleState const&, std::vector<ParticleState> const& p) { return 1 + p[0].energy / 1e3; });
        v.push_back({ n, p, d, std::make_shared<ManyBodyPhaseSpace>(b.build()), 5, (int)(d.size() - 2 + 2 * (d.size() - 1) + 1), !me }); };
    TauMinusDef tm; TauPlusDef tp; MuMinusDef mm; MuPlusDef mp; PiMinusDef pm; PiPlusDef pp; Pi0Def p0; K0Def k0; KMinusDef km; KPlusDef kp; EMinusDef em; EPlusDef ep;
    NuEDef ne; NuEBarDef neb; NuMuDef nm; NuMuBarDef nmb; NuTauDef nt; NuTauBarDef ntb; GammaDef g;
    two(tm, pm, nt); two(tp, pp, ntb); two(pm, mm, nmb); two(pp, ep, ne); two(p0, g, g); two(km, pm, p0); two(km, mm, nmb); two(tm, km, nt); two(mm, em, g); two(k0, pp, pm);
    lep(mm, em, nm, neb); lep(mp, ep, nmb, ne); lep(tm, mm, nt, nmb); lep(tm, em, nt, neb); lep(tp, mp, ntb, nm); lep(tp, ep, ntb, ne);
    many(tm, { pm, p0, nt }); many(tp, { pp, p0, ntb }); many(tm, { pm, p0, p0, nt }); many(tm, { pm, pm, pp, nt }); many(tm, { pm, pm, pp, p0, nt });
    many(tp, { pp, p0, p0, p0, ntb }); many(tm, { pm, k0, nt }); many(tm, { km, pp, pm, nt }); many(tp, { kp, pp, pm, ntb }); many(km, { pm, pm, pp }); many(tm, { pm, nt }); many(mm, { em, nm, neb }); many(mm, { nm, neb, em });
    many(tm, { pm, p0, nt }, true); many(tm, { pm, pm, pp, p0, nt }, true); many(mm, { em, nm, neb }, true);
    return v;
}
static std::vector<double> feed; static size_t used; static uint64_t tail;
static double answer()
{
    if (used < feed.size()) return feed[used++];
    ++used;
    return double(vk::mix(tail, used) >> 11) / 9007199254740992.;
}
static LD norm3(V const& a) { return sqrtl(a.x * a.x + a.y * a.y + a.z * a.z); }

static V judge(Chan const& c, std::vector<ParticleState> const& out, ParticleState const& par, std::string const& h)
{
    V first { 0, 0, 0, 0 };
    VK_CHECK(out.size() == c.daughters.size(), "number-of-products", "%s: %zu", h.c_str(), out.size());
    if (out.size() != c.daughters.size()) return first;
    LD M = c.parent.mass, E = par.energy, P = sqrtl((E - M) * (E + M)), E0 = 0, X = 0, Y = 0, Z = 0, sm = 0;
    for (auto& d : c.daughters) sm += d.mass;
    LD ux = par.direction.GetX(), uy = par.direction.GetY(), uz = par.direction.GetZ();
    LD tol = 1e-7L * E + 3e-8L * E / M * sm;
    for (size_t i = 0; i < out.size(); ++i) {
        auto& o = out[i]; LD m = c.daughters[i].mass;
        VK_CHECK(o.type == c.daughters[i].particle_type, "product-type", "%s: product %zu is %d want %d", h.c_str(), i, o.type, c.daughters[i].particle_type);
        VK_CHECK(o.energy >= c.daughters[i].mass && std::isfinite(o.energy), "below-mass", "%s: product %zu energy %.17g mass %.17g", h.c_str(), i, o.energy, c.daughters[i].mass);
        LD n = sqrtl((LD)o.direction.GetX() * o.direction.GetX() + (LD)o.direction.GetY() * o.direction.GetY() + (LD)o.direction.GetZ() * o.direction.GetZ());
        LD p = sqrtl(std::max((LD)0, ((LD)o.energy - m) * ((LD)o.energy + m)));
        if (p > 1e-6L * E / M * M) VK_CHECK(fabsl(n - 1) < 1e-9L, "direction-unit", "%s: product %zu |d|=%.17Lg", h.c_str(), i, n);
        else VK_CHECK(fabsl(n - 1) < 1e-9L || n == 0, "direction-finite", "%s: product %zu |d|=%.17Lg", h.c_str(), i, n);
        VK_CHECK(o.position == par.position, "position", "%s: product %zu", h.c_str(), i);
        VK_CHECK(o.time == par.time, "time", "%s: product %zu %.17g", h.c_str(), i, o.time);
        VK_CHECK(o.propagated_distance == 0, "propagated-distance", "%s: product %zu %.17g", h.c_str(), i, o.propagated_distance);
        E0 += o.energy; X += p * o.direction.GetX(); Y += p * o.direction.GetY(); Z += p * o.direction.GetZ();
        // in the rest frame of the parent
        LD px = p * o.direction.GetX(), py = p * o.direction.GetY(), pz = p * o.direction.GetZ();
        LD pl = px * ux + py * uy + pz * uz, es = E / M * o.energy - P / M * pl;
        LD others = sm - m, emax = (M * M + m * m - others * others) / (2 * M);
        LD rt = (1e-9L * E / M * E / M + 2e-7L) * M; // cancellation in my own boost
        if (rt < 0.05L * M) VK_CHECK(es >= m - rt && es <= emax + rt, "kinematic-limit", "%s: product %zu rest energy %.12Lg not in [%.12Lg, %.12Lg]", h.c_str(), i, es, m, emax);
        if (c.kind == 2 && rt < 0.05L * M) VK_CHECK(fabsl(es - emax) < rt, "two-body-energy", "%s: product %zu rest energy %.12Lg want %.12Lg", h.c_str(), i, es, emax);
        if (!i) { LD pls = E / M * pl - P / M * o.energy; first = { es, px + (pls - pl) * ux, py + (pls - pl) * uy, pz + (pls - pl) * uz }; }
    }
    VK_CHECK(fabsl(E0 - E) <= tol, "energy-conservation", "%s: products %.15Lg parent %.15Lg", h.c_str(), E0, E);
    LD d = sqrtl((X - P * ux) * (X - P * ux) + (Y - P * uy) * (Y - P * uy) + (Z - P * uz) * (Z - P * uz));
    VK_CHECK(d <= 2 * tol, "momentum-conservation", "%s: differs by %.6Lg of %.6Lg", h.c_str(), d, E);
    return first;
}
static double cum(Chan const& c, LD x) // cumulative spectrum (unnormalised) of the lepton energy
{
    LD M = c.parent.mass, m = c.daughters[0].mass, em = (M * M + m * m) / (2 * M), xm = m / em;
    if (c.kind == 3) { auto f = [](LD y) { return y * y * y * (1 - y / 2); }; return (f(x) - f(xm)) / (f(1) - f(xm)); }
    auto f = [&](LD y) { // d Gamma / d E ~ p (M E (3M - 4E) + m^2 (3E - 2M))
        int n = 4000; LD s = 0, a = 0, b = acoshl(std::max((LD)1, y * em / m)); // E = m cosh(t)
        for (int i = 0; i < n; ++i) { LD t = a + (b - a) * (i + 0.5L) / n, E = m * coshl(t), p = m * sinhl(t); s += p * (M * E * (3 * M - 4 * E) + m * m * (3 * E - 2 * M)) * p; }
        return s * (b - a) / n; };
    return f(x) / f(1);
}
void vk_main()
{
    spdlog::set_level(spdlog::level::off);
    std::function<double()> fn = answer;
    RandomGenerator::Get().SetRandomNumberGenerator(fn);
    std::vector<double> gammas { 1, 1 + 1e-9, 1.01, 2, 37.5, 1e4, 1e8 };
    std::vector<Cartesian3D> dirs { { 0, 0, 1 }, { 0, 0, -1 }, { 1, 0, 0 }, { 0, -1, 0 }, { 0.48, -0.6, 0.64 }, { 1e-7, 0, 1 } };
    for (auto& d : dirs) d.normalize();
    const double last = 1 - 1.11022302462515654e-16;
    std::vector<double> fine { 0, 1e-18, 1e-12, 1e-6, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999, 1 - 1e-6, 1 - 1e-12, last };
    std::vector<double> coarse { 0.37, 0, 0.5, 0.75, last, 1e-9, 1 - 1e-9 };
    vk::bound(vk::f("%zu channels x %zu boosts x %zu directions; two-body: all pairs of %zu random numbers; leptonic: all 5-tuples of %zu; many-body: all sequences with up to %d deviations from a base sequence and rejection loops continued by a fixed sequence", channels().size(), gammas.size(), dirs.size(), fine.size(), coarse.size(), vk::thorough() ? 3 : 2));
    auto chs = channels();
    for (auto& c : chs) for (size_t gi = 0; gi < gammas.size(); ++gi) for (size_t di = 0; di < dirs.size(); ++di) {
        if (c.kind >= 3 && !vk::thorough() && di % 2 != gi % 2) continue;
        vk::cs(vk::f("decay-%s-g%zu-d%zu", c.n.c_str(), gi, di), [&] {
            ParticleState par((ParticleType)c.parent.particle_type, Cartesian3D(1.5, -20, 3e5), dirs[di], std::max(c.parent.mass, gammas[gi] * c.parent.mass), 4.5e-7, 123.);
            auto one = [&](bool uniform) {
                used = 0; c.c->SetUniformSampling(uniform);
                auto out = c.c->Decay(c.parent, par);
                std::string h = vk::f("%s", uniform ? "" : "non-uniform "); for (size_t i = 0; i < std::min(feed.size(), used); ++i) h += vk::f("%.17g ", feed[i]);
                auto f = judge(c, out, par, h);
                if (!out.empty()) vk::state(vk::hd(vk::hd(vk::hs(c.n), out[0].energy), out[0].direction.GetX() + 3 * out[0].direction.GetZ()));
                return f;
            };
            if (c.kind == 2) {
                tail = 1;
                for (double a : fine) for (double b : fine) { feed = { a, b }; one(true); VK_CHECK(used <= 2, "random-numbers", "%zu used", used); }
            } else if (c.kind <= 4) {
                bool full = vk::thorough() && gi % 4 == 0 && di == 4;
                vk::explore([&](vk::Chooser& ch) { feed.clear(); for (int i = 0; i < 5; ++i) feed.push_back(coarse[ch.choose(coarse.size())]); one(true); }, full ? 5 : 3);
            } else {
                for (bool u : { false, true }) for (int t = 0; t < (u ? 3 : 1); ++t) {
                    tail = 100 + t;
                    if (!c.dflt && u) { feed.clear(); }
                    vk::explore([&](vk::Chooser& ch) { feed.clear(); for (int i = 0; i < c.nrnd; ++i) feed.push_back(coarse[ch.choose(coarse.size())]); if (!c.dflt && !ch.taken.empty()) { used = 0; } one(u); }, vk::thorough() ? (u ? (di == 4 && c.nrnd <= 8 ? 2 : 1) : c.nrnd <= 8 && di == 4 ? 3 : 2) : (u ? 1 : 2));
                }
            }
        });
    }
    // ---- isotropy and spectrum: enumeration of the random numbers ---------------------
    for (auto& c : chs) if (c.kind <= 4)
        vk::cs("distribution-" + c.n, [&] {
            ParticleState par((ParticleType)c.parent.particle_type, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), c.parent.mass, 0, 0);
            int n = 40; LD m1[3] {}, m2[3] {}, mz3 = 0; int cnt = 0;
            int off = c.kind == 2 ? 0 : 1;
            for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
                feed.assign(5, 0.37); feed[off] = (a + 0.5) / n; feed[off + 1] = (b + 0.5) / n; used = 0;
                auto d = c.c->Decay(c.parent, par)[0].direction; LD v[3] { d.GetX(), d.GetY(), d.GetZ() };
                for (int k = 0; k < 3; ++k) { m1[k] += v[k]; m2[k] += v[k] * v[k]; } mz3 += v[2] * v[2] * v[2] * v[2]; ++cnt;
            }
            for (int k = 0; k < 3; ++k) { VK_CHECK(fabsl(m1[k] / cnt) < 2e-3, "isotropy", "mean of component %d is %.4Lg", k, m1[k] / cnt); VK_CHECK(fabsl(m2[k] / cnt - 1.L / 3) < 2e-3, "isotropy", "mean square of component %d is %.4Lg", k, m2[k] / cnt); }
            VK_CHECK(fabsl(mz3 / cnt - 0.2L) < 2e-3, "isotropy", "fourth moment %.4Lg", mz3 / cnt);
            if (c.kind >= 3) {
                double prev = -1, emax = (std::pow(c.parent.mass, 2) + std::pow(c.daughters[0].mass, 2)) / 2 / c.parent.mass;
                for (int k = 0; k <= 200; ++k) {
                    feed.assign(5, 0.37); feed[0] = std::min(k / 200., last); used = 0;
                    double x = c.c->Decay(c.parent, par)[0].energy / emax;
                    VK_CHECK(x >= prev - 2.1e-3, "spectrum-monotone", "random number %g: x %.10g after %.10g", feed[0], x, prev);
                    LD lo = cum(c, std::max(x - 1.1e-3, c.daughters[0].mass / emax)), hi = cum(c, std::min(x + 1.1e-3, 1.));
                    VK_CHECK(lo <= feed[0] + 1e-6 && hi >= feed[0] - 1e-6, "spectrum", "random number %g: x %.10g has cumulated spectrum [%.6Lg, %.6Lg]", feed[0], x, lo, hi);
                    prev = x; vk::state(vk::hd(vk::hs(c.n), x));
                }
            }
        });
    // ---- the decay of every predefined particle -----------------------------------------
    vk::cs("tables", [&] {
        for (auto& p : std::vector<ParticleDef> { MuMinusDef(), MuPlusDef(), TauMinusDef(), TauPlusDef() })
            for (int i = 0; i < 400; ++i) for (double g : { 1., 3., 1e3 }) {
                ParticleState par((ParticleType)p.particle_type, Cartesian3D(0, 1, 0), Cartesian3D(0, 0, 1), g * p.mass, 1, 2);
                feed.clear(); used = 0; tail = i;
                auto& ch = p.decay_table.SelectChannel(i / 400.);
                auto out = ch.Decay(p, par); double q = 0, e = 0; int lep = 0, el = 0, mu = 0, ta = 0;
                for (auto& o : out) { e += o.energy; q += ParticleDef::GetParticleDefForType(o.type).charge; int t = std::abs(o.type), s = o.type > 0 ? 1 : -1;
                    if (t >= 11 && t <= 16) { lep += s; (t <= 12 ? el : t <= 14 ? mu : ta) += s; } }
                VK_CLOSE(e, par.energy, 1e-6, 0, "table-energy", "%s share %g", p.name.c_str(), i / 400.);
                VK_CHECK(q == p.charge, "table-charge", "%s share %g: charge %g", p.name.c_str(), i / 400., q);
                int s = p.particle_type > 0 ? 1 : -1; bool tau = std::abs(p.particle_type) == 15;
                VK_CHECK(lep == s && el == 0 && mu == (tau ? 0 : s) && ta == (tau ? s : 0), "table-lepton-number", "%s share %g: %d %d %d", p.name.c_str(), i / 400., el, mu, ta);
            }
        for (auto& p : std::vector<ParticleDef> { EMinusDef(), GammaDef() }) {
            ParticleState par((ParticleType)p.particle_type, Cartesian3D(0, 1, 0), Cartesian3D(0, 0, 1), 1e3, 1, 2);
            VK_CHECK(p.decay_table.SelectChannel(0.4).Decay(p, par).empty(), "stable-products", "%s", p.name.c_str());
        }
    });
}
