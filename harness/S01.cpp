// vk: flavor=o1 shards=8 limit=800
#include "stub.h"
#include "geo.h"
#include <cstring>
#include <set>
#include <map>
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/Logging.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/scattering/Scattering.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h"
#include "PROPOSAL/scattering/multiple_scattering/Moliere.h"
#include "PROPOSAL/scattering/multiple_scattering/Parametrization.h"
#include "PROPOSAL/scattering/multiple_scattering/ScatteringFactory.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
using namespace PROPOSAL; namespace ms = multiple_scattering; using Off = ms::ScatteringOffset; using R4 = std::array<double, 4>;
static double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.)); }
// quantile of the normal distribution by bisection on the accurate tail
static double gauss(double p) { if (p == 0.5) return 0; bool up = p > 0.5; double q = up ? 1 - p : p, lo = 0, hi = 40; for (int i = 0; i < 120; ++i) { double m = 0.5 * (lo + hi); if (phi(-m) > q) lo = m; else hi = m; } return up ? lo : -lo; }
struct Part { std::string name; ParticleDef p; };
static std::vector<Part> const& parts()
{
    static std::vector<Part> v; if (!v.empty()) return v;
    ParticleDef two = ParticleDef::Builder().SetParticleDef(MuMinusDef()).SetName("two").SetParticleType(90001).SetCharge(2).SetMass(500).build(), third = ParticleDef::Builder().SetParticleDef(MuMinusDef()).SetName("third").SetParticleType(90002).SetCharge(1. / 3).SetMass(5e4).build();
    for (auto& q : std::vector<Part> { { "mu-", MuMinusDef() }, { "mu+", MuPlusDef() }, { "e-", EMinusDef() }, { "e+", EPlusDef() }, { "tau-", TauMinusDef() }, { "gamma", GammaDef() }, { "two", two }, { "third", third }, { "stau", StauMinusDef() }, { "numu", NuMuDef() } }) v.push_back(q);
    if (vk::thorough()) for (auto p : { Part { "pi+", PiPlusDef() }, Part { "K-", KMinusDef() }, Part { "tau+", TauPlusDef() }, Part { "mono", MonopoleDef() }, Part { "smp", SMPMinusDef() }, Part { "pi0", Pi0Def() } }) v.push_back(p);
    return v;
}
static std::vector<Medium> media()
{
    std::vector<Medium> v { Water(), StandardRock(), Hydrogen(), Uranium(), xs::custom("mix", { Components::Lead(1), Components::Hydrogen(3), Components::Carbon(2) }, 2.) };
    if (vk::thorough()) { v.push_back(Air()); v.push_back(Iron()); v.push_back(AntaresWater()); v.push_back(Paraffin()); }
    return v;
}
static std::vector<double> energies(double m) { std::vector<double> v; if (m > 0) v = { m * (1 + 1e-6), m * 1.01, m * 2 }; for (double e : { 10., 1e3, 1e5, 1e9 }) if (e > m * 2) v.push_back(e); if (vk::thorough()) for (double e : { 300., 1e7, 1e12, 1e14 }) if (e > m * 2) v.push_back(e); return v; }
static std::vector<double> paths() { std::vector<double> v { 0, 1e-8, 1e-4, 1e-2, 1, 20, 1e3, 1e6 }; if (vk::thorough()) for (double x : { 1e-6, 1e-3, 0.1, 5., 36., 200., 1e4, 1e8 }) v.push_back(x); std::sort(v.begin(), v.end()); return v; }
static std::vector<double> randoms() { std::vector<double> v { 0.5 }; for (double q : { 0.4, 0.25, 0.1, 0.01, 1.5e-3, 3e-4, 1e-5, 1e-8 }) { v.push_back(q); v.push_back(1 - q); } if (vk::thorough()) for (double q : { 0.49, 0.3, 0.15, 0.03, 0.003, 1e-4, 1e-10, 1e-14 }) { v.push_back(q); v.push_back(1 - q); } std::sort(v.begin(), v.end()); return v; }
// ---- Highland / Lynch-Dahl, from the papers
static double highland(Part const& p, Medium const& m, double x, double E) { if (x == 0 || p.p.charge == 0) return 0; double M = p.p.mass, y = x / m.GetRadiationLength(); return 13.6 * std::fabs(p.p.charge) * E / ((E - M) * (E + M)) * std::sqrt(y) * std::max(1 + 0.088 * std::log10(y), 0.); }
// ---- Moliere distribution of the projected angle: numeric Fourier integrals of the characteristic function
struct Comp { double Z, w; }; // charge, weight
static double mol(int n, double u) // distribution function of order n (0, 1, 2) at reduced angle u, from -u to 0
{
    static std::vector<double> eta, g[3]; constexpr int N = 24000; constexpr double top = 15;
    if (eta.empty()) for (int i = 0; i <= N; ++i) { double e = top * i / N, q = e * e / 4, l = q > 0 ? q * std::log(q) : 0, ex = std::exp(-q) * (i == 0 || i == N ? 1 : i % 2 ? 4 : 2) * top / N / 3; eta.push_back(e); g[0].push_back(ex); g[1].push_back(ex * l); g[2].push_back(ex * l * l / 2); }
    double s = 0; for (int i = 1; i <= N; ++i) s += std::sin(u * eta[i]) / eta[i] * g[n][i]; s += u * g[n][0]; return s / PI;
}
struct Moli { double chi2 = 0; std::vector<double> B; std::vector<Comp> c; bool none = true, edge = false; double sum = 0;
    Moli(Part const& p, Medium const& m, double x, double E)
    {
        double M = p.p.mass, p2 = (E - M) * (E + M), b2 = p2 / (E * E), z2 = p.p.charge * p.p.charge; if (x == 0 || z2 == 0) return;
        double W = 0; for (auto& k : m.GetComponents()) W += k.GetAtomInMolecule() * k.GetAtomicNum(); double zz = 0, A = 0;
        for (auto& k : m.GetComponents()) { double w = k.GetAtomInMolecule() * k.GetAtomicNum() / W, Z = k.GetNucCharge(); zz += w * (M == ME ? Z * (Z + 1) : Z * Z); A += w * k.GetAtomicNum(); c.push_back({ Z, w * Z * Z }); sum += w * Z * Z; }
        chi2 = 4 * PI * NA * std::pow(ALPHA * HBAR * SPEED, 2) * z2 * x * zz / A / (p2 * b2); none = false;
        for (auto& k : c) { double c0 = ME * ALPHA * std::cbrt(128 * k.Z / (9 * PI * PI)), a2 = c0 * c0 / p2 * (1.13 + 3.76 * ALPHA * ALPHA * k.Z * k.Z * z2 / b2), L = std::log(chi2 / a2) + 1 - 2 * 0.57721566490153286;
            double Lmin = 4.5 - std::log(4.5); if (std::fabs(L - Lmin) < 1e-9) edge = true; if (L < Lmin) { none = true; return; }
            double lo = 4, hi = 1e4; for (int i = 0; i < 200; ++i) { double b = 0.5 * (lo + hi); (b - std::log(b) < L ? lo : hi) = b; } B.push_back(lo); }
    }
    double cdf(double th) const { double s = 0; for (size_t i = 0; i < c.size(); ++i) { double u = std::fabs(th) / std::sqrt(chi2 * B[i]); s += c[i].w * (0.5 * std::erf(u) + mol(1, u) / B[i] + mol(2, u) / (B[i] * B[i])); } s /= sum; return th < 0 ? -s : s; }
    double umax(double th) const { double s = 0; for (double b : B) s = std::max(s, std::fabs(th) / std::sqrt(chi2 * b)); return s; } };
// ---- ScatterInitialDirection: unit vectors at the scattered angles
static void directions()
{
    std::vector<double> cs { -1, -1 + 1e-12, -0.7, -1e-9, 0, 0.3, 0.999999, 1 }, ph { 0, 1e-9, 0.7, PI / 2, PI, 4, 2 * PI - 1e-9 }, a { 0, 1e-12, 1e-6, 0.01, -0.3, 0.6, -0.9, 1, -1, 1.5, -40 };
    if (vk::thorough()) { cs.push_back(0.95); cs.push_back(-0.2); ph.push_back(5.5); a.push_back(0.70710678); a.push_back(1e5); a.push_back(-1e-3); }
    vk::bound(vk::f("directions: %zu polar x %zu azimuthal, every direction in cartesian and spherical form; offsets: %zu^4", cs.size(), ph.size(), a.size()));
    for (double c : cs) for (double f : ph) vk::cs(vk::f("direction c=%.13g f=%.10g", c, f), [&] {
        double s = std::sqrt(std::max(0., (1 - c) * (1 + c))); Spherical3D sph(1, f, std::acos(c)); Cartesian3D car(s * std::cos(f), s * std::sin(f), c); car.normalize();
        for (int form = 0; form < 2; ++form) for (double sx : a) for (double sy : a) {
            std::unique_ptr<Vector3D> dir; if (form) dir = std::make_unique<Spherical3D>(sph); else dir = std::make_unique<Cartesian3D>(car); Cartesian3D d(*dir);
            double s2 = sx * sx + sy * sy; Off zero; zero.sx = sx; zero.sy = sy; std::vector<Off> L; Off o = zero; L.push_back(o); o = Off(); o.tx = sx; o.ty = sy; L.push_back(o); o.sx = 0.1; o.sy = -0.2; L.push_back(o); o.sx = sy; o.sy = -sx; L.push_back(o);
            for (auto& q : L) { vk::state(vk::hd(vk::hd(vk::hd(vk::hd(vk::hd(vk::hd(form, c), f), q.sx), q.sy), q.tx), q.ty));
                auto r = ms::ScatterInitialDirection(*dir, q); std::string w = vk::f("direction (%.12g, %.12g, %.12g)%s, offsets s=(%g, %g) t=(%g, %g)", d.GetX(), d.GetY(), d.GetZ(), form ? " spherical" : "", q.sx, q.sy, q.tx, q.ty);
                auto one = [&](Cartesian3D const& v, double x, double y, const char* n) { double l2 = x * x + y * y; VK_CHECK(std::fabs(v.magnitude() - 1) < 1e-9, "unit", "%s: the %s direction has length %.12g", w.c_str(), n, v.magnitude()); VK_CLOSE(v * d, std::sqrt(std::max(0., 1 - l2)), 0, 3e-8, "angle", "%s: %s direction along the old one", w.c_str(), n); vk::outcome(l2 > 1 ? "offset beyond 1" : l2 == 0 ? "no offset" : "offset"); };
                one(r.first, q.sx, q.sy, "mean"); one(r.second, q.tx, q.ty, "final");
                double ls = q.sx * q.sx + q.sy * q.sy, lt = q.tx * q.tx + q.ty * q.ty; if (ls <= 1 && lt <= 1) VK_CLOSE(r.first * r.second, q.sx * q.tx + q.sy * q.ty + std::sqrt((1 - ls) * (1 - lt)), 0, 3e-8, "relative", "%s: mean and final direction", w.c_str());
                if (ls <= 1 && lt <= 1 && ls > 1e-20 && lt > 1e-20) { Cartesian3D x = vector_product(r.first, r.second); double det = d * x; VK_CLOSE(det, q.sx * q.ty - q.sy * q.tx, 0, 3e-8, "hand", "%s: orientation", w.c_str()); } }
        }
    });
}
static std::string ptr(Part const& p, Medium const& m, const char* n) { return vk::f("%s %s in %s", n, p.name.c_str(), m.GetName().c_str()); }
static bool same(Off const& a, Off const& b) { return a.sx == b.sx && a.sy == b.sy && a.tx == b.tx && a.ty == b.ty; }
// everything a model says about one step, from a width function and a quantile function
static void step(ms::Parametrization& s, std::string const& w, double x, double E, double Ef, std::function<double(double)> width_ok)
{
    auto rs = randoms(); double last = -1e300; double mid = s.CalculateScatteringAngle(x, E, Ef, 0.5);
    VK_CHECK(std::fabs(mid) < 1e-12, "odd", "%s: angle %g for the random number 0.5", w.c_str(), mid);
    for (double r : rs) {
        double t = s.CalculateScatteringAngle(x, E, Ef, r), u = s.CalculateScatteringAngle(x, E, Ef, 1 - r); vk::trans(); vk::state(vk::hd(vk::hd(vk::hd(vk::hs(w), x), E), r));
        VK_CHECK(std::isfinite(t), "finite", "%s: angle %g for the random number %.17g", w.c_str(), t, r); if (!std::isfinite(t)) continue;
        if (x == 0) VK_CHECK(t == 0, "zero", "%s: angle %g on no path", w.c_str(), t);
        VK_CLOSE(t, -u, 1e-3, 1e-300, "odd", "%s: angles for the random numbers %g and its complement", w.c_str(), r);
        VK_CHECK(t >= last - 1e-4 * std::fabs(last), "monotone", "%s: angle %.9g for the random number %.9g after %.9g", w.c_str(), t, r, last); last = t;
        if (r != 0.5 && t != 0) VK_CHECK((t > 0) == (r > 0.5), "sign", "%s: angle %g for the random number %g", w.c_str(), t, r);
        (void)width_ok; width_ok(r);
        for (double q : { 0.01, 0.5, 0.9 }) { double v = s.CalculateScatteringAngle(x, E, Ef, q); VK_CLOSE(s.CalculateScatteringAngle2D(x, E, Ef, r, q), std::hypot(t, v), 1e-12, 0, "2d", "%s: angle in space for %g, %g", w.c_str(), r, q); VK_CLOSE(s.CalculateScatteringAngle2D(x, E, Ef, q, r), std::hypot(t, v), 1e-12, 0, "2d", "%s: angle in space for %g, %g", w.c_str(), q, r); }
    }
    std::vector<double> q { 0.01, 0.3, 0.5, 0.77, 0.999 }; 
    for (double a : q) for (double b : q) for (double c : q) for (double d : q) { if (!vk::thorough() && a != b && b != c && c != d && a > d) continue; auto o = s.CalculateRandomAngle(x, E, Ef, R4 { a, b, c, d }); auto A = [&](double r) { return s.CalculateScatteringAngle(x, E, Ef, r); };
        VK_CLOSE(o.tx, A(b), 1e-12, 0, "offset", "%s: tx for %g %g %g %g", w.c_str(), a, b, c, d); VK_CLOSE(o.ty, A(d), 1e-12, 0, "offset", "%s: ty for %g %g %g %g", w.c_str(), a, b, c, d);
        VK_CLOSE(o.sx, 0.5 * (A(a) / std::sqrt(3.) + A(b)), 1e-12, 1e-15 * std::fabs(A(a)), "offset", "%s: sx for %g %g %g %g", w.c_str(), a, b, c, d); VK_CLOSE(o.sy, 0.5 * (A(c) / std::sqrt(3.) + A(d)), 1e-12, 1e-15 * std::fabs(A(c)), "offset", "%s: sy for %g %g %g %g", w.c_str(), a, b, c, d); }
}
static void models()
{
    auto P = parts(); auto M = media(); vk::bound(vk::f("%zu particles x %zu media x energies from just above the mass x %zu paths x %zu random numbers", P.size(), M.size(), paths().size(), randoms().size()));
    for (auto& p : P) for (auto& m : M) {
        vk::cs("highland " + p.name + " " + m.GetName(), [&] {
            auto s = make_multiple_scattering(MultipleScatteringType::Highland, p.p, m); auto H = dynamic_cast<ms::Highland*>(s.get()); VK_CHECK(H, "type", "%s is another model", ptr(p, m, "highland").c_str());
            for (double E : energies(p.p.mass)) for (double x : paths()) { auto w = ptr(p, m, "highland") + vk::f(" E=%.9g x=%g", E, x); double t0 = highland(p, m, x, E); VK_CLOSE(H->CalculateTheta0(x, E, 0.9 * E), t0, 1e-12, 0, "width", "%s: width", w.c_str());
                step(*s, w, x, E, 0.9 * E, [&](double r) { double g = t0 == 0 ? 0 : t0 * gauss(r); VK_CLOSE(s->CalculateScatteringAngle(x, E, 0.9 * E, r), g, r > 0.5 ? 1e-7 + 1e-15 / (1 - r) : 1e-7, t0 * 1e-15, "angle", "%s: angle for the random number %g", w.c_str(), r); return true; }); vk::outcome(t0 == 0 ? "no scattering" : "highland"); }
        });
        for (int ip = 0; ip < 2; ++ip) vk::cs(std::string(ip ? "moliereinterpol " : "moliere ") + p.name + " " + m.GetName(), [&] {
            auto s = make_multiple_scattering(ip ? MultipleScatteringType::MoliereInterpol : MultipleScatteringType::Moliere, p.p, m); VK_CHECK(dynamic_cast<ms::Moliere*>(s.get()) && !!dynamic_cast<ms::MoliereInterpol*>(s.get()) == (ip == 1), "type", "%s is another model", ptr(p, m, "moliere").c_str());
            for (double E : energies(p.p.mass)) for (double x : paths()) { auto w = ptr(p, m, ip ? "moliereinterpol" : "moliere") + vk::f(" E=%.9g x=%g", E, x); Moli ref(p, m, x, E); if (ref.edge) continue; std::map<double, double> memo;
                step(*s, w, x, E, 0.9 * E, [&](double r) { double t = s->CalculateScatteringAngle(x, E, 0.9 * E, r);
                    if (ref.none) { VK_CHECK(t == 0, "none", "%s: angle %g where the theory gives no scattering", w.c_str(), t); vk::outcome("no scattering"); return true; }
                    if (r == 0.5) return true; VK_CHECK(t != 0, "none", "%s: no scattering for the random number %g", w.c_str(), r); if (r < 9e-6 || r > 1 - 9e-6 || ref.umax(t) > 300) return true; vk::outcome("moliere");
                    double c = ref.cdf(t), q = std::min(r, 1 - r); VK_CLOSE(0.5 - std::fabs(c), q, ip ? 1e-2 : q > 5e-3 ? 1e-5 : q > 2e-4 ? 1e-2 : 1e-3, 1e-9, "cdf", "%s: distribution function at the angle %g for the random number %g", w.c_str(), t, r); return true; }); }
        });
    }
}
static void highland_integral()
{
    struct D { std::string n; stub::fn a; }; std::vector<D> ds { { "const", [](double) { return 2.; } }, { "rising", [](double E) { return 2 + 1e-6 * E; } }, { "falling", [](double E) { return 1 + 500 / E; } } };
    for (auto& p : parts()) for (auto& m : media()) for (auto& d : ds) for (int ip = 0; ip < 2; ++ip) vk::cs(vk::f("highlandintegral %s %s %s%s", p.name.c_str(), m.GetName().c_str(), d.n.c_str(), ip ? " interpol" : ""), [&] {
        double low = std::max(10., p.p.mass * 1.01); double Mm = p.p.mass; stub::list l { std::make_shared<stub::X>(InteractionType::Ioniz, [=](double E) { return 0.25 * d.a(E); }, nullptr, std::vector<stub::Target> { { 1, [](double) { return 1.; } } }, low), std::make_shared<stub::X>(InteractionType::Brems, [=](double E) { return 0.75 * d.a(E); }, nullptr, std::vector<stub::Target> { { 2, [](double) { return 1.; } } }, low) };
        auto s = make_multiple_scattering(MultipleScatteringType::HighlandIntegral, p.p, m, l, (bool)ip); auto H = dynamic_cast<ms::HighlandIntegral*>(s.get()); VK_CHECK(H, "type", "%s is another model", ptr(p, m, "highlandintegral").c_str()); if (!H) return;
        for (double E : { low * 1.5, low * 30, 1e5, 1e8 }) for (double f : { 1., 0.999, 0.5, 0. }) for (double x : paths()) { double Ef = std::max(low, E * f); if (E <= low * 1.4) continue;
            double I = Ef == E ? 0 : stub::logint([&](double e) { double p2 = (e - Mm) * (e + Mm); return e * e / (p2 * p2) / d.a(e); }, Ef, E); double X0 = m.GetRadiationLength(), t0 = x == 0 ? 0 : std::min(1., 13.6 * std::fabs(p.p.charge) * std::sqrt(I / X0) * std::max(1 + 0.038 * std::log(x / X0), 0.));
            auto w = ptr(p, m, "highlandintegral") + vk::f(" (%s%s) %.9g to %.9g x=%g", d.n.c_str(), ip ? ", interpolated" : "", E, Ef, x); VK_CLOSE(H->CalculateTheta0(x, E, Ef), t0, ip ? (f > 0.99 ? 2e-2 : 2e-3) : Ef < 2 * Mm ? 5e-3 : 1e-3, 0, "width", "%s: width", w.c_str()); vk::outcome(t0 == 0 ? "no scattering" : t0 == 1 ? "capped" : "integral");
            if (x == 1 || x == 0 || vk::thorough()) { double th = H->CalculateTheta0(x, E, Ef); step(*s, w, x, E, Ef, [&](double r) { double g = th == 0 ? 0 : th * gauss(r); VK_CLOSE(s->CalculateScatteringAngle(x, E, Ef, r), g, r > 0.5 ? 1e-7 + 1e-15 / (1 - r) : 1e-7, th * 1e-15, "angle", "%s: angle for the random number %g", w.c_str(), r); return true; }); } }
        // the copy does not need the original
        if (ip == 0) { auto disp = std::shared_ptr<Displacement>(make_displacement(l, false)); alignas(64) unsigned char buf[sizeof(ms::HighlandIntegral)]; auto o = new (buf) ms::HighlandIntegral(p.p, m, disp, std::false_type {}); double E = 1e5, Ef = 6e4; if (p.p.mass * 2 > Ef) return; double a = o->CalculateTheta0(1, E, Ef); auto c = o->clone(); o->~HighlandIntegral(); std::memset(buf, 0x5a, sizeof buf); for (size_t i = 0; i < sizeof buf / 8; ++i) { double z = 12345.; std::memcpy(buf + 8 * i, &z, 8); }
            double b = dynamic_cast<ms::HighlandIntegral&>(*c).CalculateTheta0(1, E, Ef); VK_CHECK(a == b, "clone", "%s: width %.17g, after the original is gone its copy says %.17g", ptr(p, m, "highlandintegral").c_str(), a, b); }
    });
}
// ---- sequences: answers do not depend on what was asked before, copies behave like the original
static void sequences()
{
    auto P = parts(); auto M = media(); struct Q { double x, E; }; 
    for (auto& p : P) for (auto& m : M) for (std::string n : { "highland", "moliere", "moliereinterpol" }) vk::cs("sequence " + n + " " + p.name + " " + m.GetName(), [&] {
        double m0 = p.p.mass; std::vector<Q> qs { { 0, m0 + 100 }, { 1, m0 + 1e3 }, { 1e-8, m0 + 1e3 }, { 100, m0 + 1e5 } }; R4 r { 0.2, 0.9, 0.35, 0.6 }; auto mk = [&] { return make_multiple_scattering(n, p.p, m, stub::list(), false); }; std::vector<Off> fresh; for (auto& q : qs) { auto s = mk(); fresh.push_back(s->CalculateRandomAngle(q.x, q.E, q.E * 0.9, r)); }
        auto rest = mk(); VK_CHECK(*rest == *mk(), "compare", "%s: two models built alike differ", ptr(p, m, n.c_str()).c_str());
        int L = vk::thorough() ? 4 : 3, N = 1; for (int i = 0; i < L; ++i) N *= 4;
        for (int k = 0; k < N; ++k) for (int cl = 0; cl <= L; ++cl) { auto s = mk(); int z = k; std::string h; for (int i = 0; i < L; ++i, z /= 4) { if (i == cl) { auto c = s->clone(); VK_CHECK(*c == *s, "compare", "%s: the copy differs after%s", ptr(p, m, n.c_str()).c_str(), h.c_str()); if (i) s->CalculateRandomAngle(3, m0 + 7e3, m0 + 6e3, r); s = std::move(c); h += " copy"; } int q = z % 4; auto o = s->CalculateRandomAngle(qs[q].x, qs[q].E, qs[q].E * 0.9, r); h += vk::f(" %d", q); vk::state(vk::mix(vk::hs(ptr(p, m, n.c_str())), vk::hs(h)));
                VK_CHECK(same(o, fresh[q]), "history", "%s: offsets (%g, %g, %g, %g) after the questions%s, (%g, %g, %g, %g) at first", ptr(p, m, n.c_str()).c_str(), o.sx, o.sy, o.tx, o.ty, h.c_str(), fresh[q].sx, fresh[q].sy, fresh[q].tx, fresh[q].ty); }
            VK_CHECK(*s == *rest, "compare", "%s: after the questions%s the model differs from one built alike", ptr(p, m, n.c_str()).c_str(), h.c_str()); }
    });
    // comparisons between all pairs of models
    std::vector<std::string> N { "highland", "moliere", "moliereinterpol" }; 
    for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < M.size(); ++j) for (auto& a : N) vk::cs("compare " + a + " " + P[i].name + " " + M[j].GetName(), [&] {
        auto s = make_multiple_scattering(a, P[i].p, M[j], stub::list(), false);
        for (size_t k = 0; k < P.size(); ++k) for (size_t l = 0; l < M.size(); ++l) for (auto& b : N) { auto t = make_multiple_scattering(b, P[k].p, M[l], stub::list(), false); bool hl = (a == "highland") != (b == "highland"), alike = a == b && i == k && j == l, known = P[i].p.mass != P[k].p.mass || hl || j != l; int res = -1;
            if (hl) { int c = vk::guarded([&] { return *s == *t ? 1 : 0; }, 10); VK_CHECK(c >= 0, "compare-crash", "%s %s == %s: ends the program (%d)", ptr(P[i], M[j], a.c_str()).c_str(), P[k].name.c_str(), b.c_str(), c); if (c < 0) { return; } res = c; } else res = *s == *t;
            vk::trans(); if (alike) VK_CHECK(res == 1, "compare", "%s: two models built alike differ", ptr(P[i], M[j], a.c_str()).c_str()); else if (known) VK_CHECK(res == 0, "compare", "%s equals %s", ptr(P[i], M[j], a.c_str()).c_str(), ptr(P[k], M[l], b.c_str()).c_str()); }
    });
}
// ---- names, configuration and multipliers
static void config()
{
    MuMinusDef mu; Water water; Part p { "mu-", mu }; stub::list l { std::make_shared<stub::X>(InteractionType::Ioniz, [=](double) { return 2.; }, nullptr, std::vector<stub::Target> { { 1, [](double) { return 1.; } } }, 110.) };
    for (std::string n : { "moliere", "highland", "highlandintegral", "noscattering", "moliereinterpol", "", "moliere ", "highlandinterpol", "none", "default" }) for (int c = 0; c < 3; ++c) vk::cs(vk::f("name \"%s\" %d", n.c_str(), c), [&] {
        std::string s = n; for (size_t i = 0; i < s.size(); ++i) if (c == 1 || (c == 2 && i % 2 == 0)) s[i] = std::toupper(s[i]); bool known = n == "moliere" || n == "highland" || n == "highlandintegral" || n == "noscattering" || n == "moliereinterpol";
        std::unique_ptr<ms::Parametrization> x; bool threw = false; try { x = make_multiple_scattering(s, mu, water, l, false); } catch (std::out_of_range const&) { threw = true; } VK_CHECK(threw == !known, "name", "\"%s\" %s", s.c_str(), threw ? "is refused" : "is accepted"); if (!known) return;
        auto t = x.get(); bool ok = n == "noscattering" ? !t : n == "moliere" ? dynamic_cast<ms::Moliere*>(t) && !dynamic_cast<ms::MoliereInterpol*>(t) : n == "moliereinterpol" ? !!dynamic_cast<ms::MoliereInterpol*>(t) : n == "highlandintegral" ? !!dynamic_cast<ms::HighlandIntegral*>(t) : dynamic_cast<ms::Highland*>(t) && !dynamic_cast<ms::HighlandIntegral*>(t);
        VK_CHECK(ok, "name", "\"%s\" gives another model", s.c_str());
        // through the configuration, with and without multipliers of angles
        for (double f : { 1., 0., 0.5, 2., 17. }) for (int st = 0; st < 3; ++st) { nlohmann::json j; j["multiple_scattering"] = s; if (f != 1. || st) j["multiple_scattering_multiplier"] = f; if (st == 2) j["stochastic_deflection_multiplier"] = { { "brems", 3. } }; std::unique_ptr<Scattering> sc = make_scattering(j, mu, water, l, false);
            VK_CHECK(sc->MultipleScatteringRandomNumbers() == (t ? 4u : 0u), "numbers", "\"%s\" asks for %zu random numbers", s.c_str(), sc->MultipleScatteringRandomNumbers());
            for (double E : { 200., 1e4 }) for (double X : { 0., 1., 300. }) { R4 r { 0.2, 0.9, 0.35, 0.6 }; Off o; if (t) o = t->CalculateRandomAngle(X, E, 0.9 * E, r); Off q = sc->CalculateMultipleScattering(X, E, 0.9 * E, r); auto w = vk::f("\"%s\" multiplier %g, E=%g, path %g", s.c_str(), f, E, X); VK_CLOSE(q.sx, f * o.sx, 1e-13, 0, "multiplier", "%s: sx", w.c_str()); VK_CLOSE(q.sy, f * o.sy, 1e-13, 0, "multiplier", "%s: sy", w.c_str()); VK_CLOSE(q.tx, f * o.tx, 1e-13, 0, "multiplier", "%s: tx", w.c_str()); VK_CLOSE(q.ty, f * o.ty, 1e-13, 0, "multiplier", "%s: ty", w.c_str()); vk::outcome("multiplier"); } }
        // built from a reference the calculator keeps its own model
        if (t) { std::vector<std::unique_ptr<stochastic_deflection::Parametrization>> none; Scattering sc(static_cast<ms::Parametrization const&>(*t), none); R4 r { 0.2, 0.9, 0.35, 0.6 }; Off a = t->CalculateRandomAngle(1, 1e4, 9e3, r); x.reset(); Off b = sc.CalculateMultipleScattering(1., 1e4, 9e3, r); VK_CHECK(same(a, b), "clone", "\"%s\": calculator built from a reference: tx=%g, the model said %g", s.c_str(), b.tx, a.tx); }
    });
    vk::cs("configuration without multiple scattering", [&] { nlohmann::json j = nlohmann::json::object(); auto sc = make_scattering(j, mu, water, l, false); VK_CHECK(sc->MultipleScatteringRandomNumbers() == 0, "numbers", "random numbers for nothing"); Off q = sc->CalculateMultipleScattering(1., 1e4, 9e3, R4 { 0.2, 0.9, 0.35, 0.6 }); VK_CHECK(same(q, Off()), "none", "scattering without a model"); });
}
void vk_main() { Logging::SetGlobalLoglevel(spdlog::level::off); config(); directions(); highland_integral(); sequences(); models(); }
