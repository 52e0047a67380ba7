// Reference model of density profiles (long double) and the alphabet of profiles.
#pragma once
#include "polyref.h"
#include "vk.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/math/Spline.h"
#include <memory>
#include <nlohmann/json.hpp>
#include <spdlog/spdlog.h>
namespace dens {
using namespace pr;
using nlohmann::json;
using PROPOSAL::Cartesian3D;
typedef std::vector<double> V;
struct V3 { LD x, y, z; };
inline V3 add(V3 a, LD t, V3 d) { return { a.x + t * d.x, a.y + t * d.y, a.z + t * d.z }; }
inline LD dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline Cartesian3D c3(V3 a) { return Cartesian3D(a.x, a.y, a.z); }
enum Kind { HOM, EXP, POLY, LIN, CUB };
struct Ax { bool radial; V f, o; };
struct Prof {
    Kind k; Ax ax; double rho0; V a, b; // EXP: a={sigma,d0}  POLY: a=coeff  splines: a=x b=y
    std::string tag;
    std::shared_ptr<PROPOSAL::Axis> axis() const
    {
        Cartesian3D o(ax.o[0], ax.o[1], ax.o[2]), f(ax.f[0], ax.f[1], ax.f[2]);
        if (ax.radial) return std::make_shared<PROPOSAL::RadialAxis>(o);
        return std::make_shared<PROPOSAL::CartesianAxis>(f, o);
    }
    std::shared_ptr<PROPOSAL::Density_distr> make() const
    {
        using namespace PROPOSAL;
        auto A = axis();
        if (k == HOM) return std::make_shared<Density_homogeneous>(rho0);
        if (k == EXP) return std::make_shared<Density_exponential>(*A, a[0], a[1], rho0);
        if (k == POLY) return std::make_shared<Density_polynomial>(*A, Polynom(a), rho0);
        if (k == LIN) return std::make_shared<Density_splines>(*A, Linear_Spline(a, b), rho0);
        return std::make_shared<Density_splines>(*A, Cubic_Spline(a, b), rho0);
    }
    json js() const
    {
        json j;
        const char* n[] = { "homogeneous", "exponential", "polynomial", "spline", "spline" };
        j["type"] = n[k]; j["mass_density"] = rho0;
        if (k == HOM) return j;
        j["axis_type"] = ax.radial ? "radial" : "cartesian";
        j["fp0"] = ax.o;
        if (!ax.radial) j["fAxis"] = ax.f;
        if (k == EXP) { j["sigma"] = a[0]; j["d0"] = a[1]; }
        if (k == POLY) j["coefficients"] = a;
        if (k == LIN || k == CUB) { j["spline_type"] = k == LIN ? "linear" : "cubic"; j["x"] = a; j["y"] = b; }
        return j;
    }
    LD depth(V3 p) const
    {
        V3 q { p.x - ax.o[0], p.y - ax.o[1], p.z - ax.o[2] };
        if (k == HOM) return 0;
        if (ax.radial) return sqrtl(dot(q, q));
        return dot(q, { ax.f[0], ax.f[1], ax.f[2] });
    }
    LD slope(V3 p, V3 d) const
    {
        if (k == HOM) return 0;
        V3 q { p.x - ax.o[0], p.y - ax.o[1], p.z - ax.o[2] };
        if (ax.radial) return dot(q, d) / sqrtl(dot(q, q));
        return dot(d, { ax.f[0], ax.f[1], ax.f[2] });
    }
    LD rho_at(LD dep) const
    {
        if (k == HOM) return rho0;
        if (k == EXP) return rho0 * expl((dep - a[1]) / a[0]);
        if (k == POLY) return rho0 * ev(LP(a.begin(), a.end()), dep);
        static std::map<std::string, SM> cache;
        auto it = cache.find(tag);
        if (it == cache.end()) it = cache.emplace(tag, k == LIN ? linear(a, b) : cubic(a, b)).first;
        return rho0 * sval(it->second, dep);
    }
    LD rho(V3 p) const { return rho_at(depth(p)); }
    // magnitude of the terms of the antiderivative at a depth
    LD antiscale(LD dep) const
    {
        if (k == POLY) return rho0 * sc(anti(LP(a.begin(), a.end()), 0), dep);
        if (k != LIN && k != CUB) return 0;
        SM m = santi(k == LIN ? linear(a, b) : cubic(a, b), 0);
        LD r = 0;
        for (size_t i = 0; i < m.p.size(); ++i) {
            auto g = m.p[i];
            for (auto& v : g) v = fabsl(v);
            r = std::max(r, ev(g, fabsl(dep) + fabsl(LD(m.x[i]))));
        }
        return rho0 * r;
    }
    bool numeric() const { return k >= POLY; }
};
template <typename F> LD gauss(F&& f, LD a, LD b, int panels)
{
    static const LD x[] = { 0.0950125098376374401853193354249580631303530556890654L, 0.2816035507792589132304605014604961064860694907705998L, 0.4580167776572273863424194429835775735400316129855522L, 0.6178762444026437484466717640487910189918822177657036L, 0.7554044083550030338951011948474422683538136564575030L, 0.8656312023878317438804678977123931323873353848475058L, 0.9445750230732325760779884155346083450911392725910229L, 0.9894009349916499325961541734503326274262740716576400L };
    static const LD w[] = { 0.1894506104550684962853967232082831051469089883959029L, 0.1826034150449235888667636679692199393835657219250030L, 0.1691565193950025381893120790303599622116394734160236L, 0.1495959888165767320815017305474785489704910682078334L, 0.1246289712555338720524762821920164201448556246914012L, 0.0951585116824927848099251076022462263552635031837127L, 0.0622535239386478928628438369943776942749865083529069L, 0.0271524594117540948517805724560181035122673755667609L };
    LD s = 0, h = (b - a) / panels;
    for (int p = 0; p < panels; ++p) {
        LD m = a + (p + 0.5L) * h;
        for (int i = 0; i < 8; ++i) s += w[i] * (f(m + x[i] * h / 2) + f(m - x[i] * h / 2));
    }
    return s * h / 2;
}
struct Ray { V3 p, d; std::string name; };
// break points of a profile along [0,l] when depth is (taken) linear
inline std::vector<LD> breaks(Prof const& P, LD d0, LD s, LD l)
{
    std::vector<LD> r { 0 };
    if ((P.k == LIN || P.k == CUB) && s != 0)
        for (double x : P.a) { LD t = (x - d0) / s; if (t > 0 && t < l) r.push_back(t); }
    r.push_back(l);
    std::sort(r.begin(), r.end());
    return r;
}
template <typename F> LD integral(Prof const& P, F&& f, LD d0, LD s, LD l, int panels)
{
    auto b = breaks(P, d0, s, l);
    LD r = 0;
    for (size_t i = 0; i + 1 < b.size(); ++i) if (b[i + 1] > b[i]) r += gauss(f, b[i], b[i + 1], panels);
    return r;
}
inline std::vector<Ax> axes()
{
    return { { false, { 1, 0, 0 }, { 0, 0, 0 } }, { false, { 0, 0.6, -0.8 }, { 5, -3, 2 } }, { false, { 0, 0, 2 }, { 0, 0, -1 } }, { true, {0,0,0}, { 0, 0, 0 } }, { true, {0,0,0}, { 1, 2, -300 } } };
}
// profiles with positive density for depths in [0, 1000]
inline std::vector<Prof> profiles()
{
    std::vector<Prof> r;
    r.push_back({ HOM, { false, { 1, 0, 0 }, { 0, 0, 0 } }, 1.225e-3, {}, {}, "hom1" });
    r.push_back({ HOM, { false, { 1, 0, 0 }, { 0, 0, 0 } }, 2.65, {}, {}, "hom2" });
    int n = 0;
    for (auto& a : axes()) {
        auto t = [&](const char* s) { return vk::f("%s/ax%d", s, n); };
        r.push_back({ EXP, a, 1.3, { 50, 0 }, {}, t("exp+") });
        r.push_back({ EXP, a, 1.225e-3, { -200, 30 }, {}, t("exp-") });
        r.push_back({ POLY, a, 0.9, { 2 }, {}, t("poly0") });
        r.push_back({ POLY, a, 1, { 1, 0.5 }, {}, t("poly1") });
        r.push_back({ POLY, a, 1e-3, { 3, 0, 1e-3, 2e-6 }, {}, t("poly3") });
        r.push_back({ POLY, a, 0.5, { 40, -0.039 }, {}, t("poly-") });
        r.push_back({ LIN, a, 1, { 0, 100, 130, 1000 }, { 1, 2, 0.5, 4 }, t("lin") });
        r.push_back({ CUB, a, 2, { 0, 200, 400, 700, 1000 }, { 1, 2, 3, 2.5, 4 }, t("cub") });
        ++n;
    }
    return r;
}
inline std::vector<Ray> rays(Ax const& a, bool hom)
{
    V3 o { a.o[0], a.o[1], a.o[2] }, f { a.f[0], a.f[1], a.f[2] };
    std::vector<Ray> r;
    std::vector<V3> base;
    if (a.radial || hom) base = { { 0, 0, 1 }, { 0.6, -0.8, 0 }, { 0.48, 0.64, 0.6 } };
    else { LD n = sqrtl(dot(f, f)); base = { { f.x / n, f.y / n, f.z / n } }; }
    for (auto& u : base) {
        V3 e { u.y, u.z, u.x };
        LD c = dot(e, u); e = add(e, -c, u); LD n = sqrtl(dot(e, e)); e = { e.x / n, e.y / n, e.z / n };
        V3 g { u.y * e.z - u.z * e.y, u.z * e.x - u.x * e.z, u.x * e.y - u.y * e.x };
        LD fn = a.radial || hom ? 1 : sqrtl(dot(f, f));
        for (LD depth : { 300.L, 20.L, 500.L }) {
            V3 p = add(o, depth / fn, u);
            if (!a.radial) p = add(add(p, 7, e), -3, g);
            for (LD cosv : { 1.L, -1.L, 0.L, 0.5L, -0.5L, 1e-3L, -0.96L, 1e-10L, 0.28L, -1e-6L }) for (int az = 0; az < 2; ++az) {
                if (az && (cosv == 1 || cosv == -1)) continue;
                LD s = sqrtl(1 - cosv * cosv);
                V3 d { 0, 0, 0 };
                d = add(d, cosv, u); d = add(d, s * (az ? 0.6L : 1.L), e); d = add(d, s * (az ? 0.8L : 0.L), g);
                r.push_back({ { double(p.x), double(p.y), double(p.z) }, { double(d.x), double(d.y), double(d.z) }, vk::f("depth%Lg-cos%Lg-%d-(%Lg,%Lg,%Lg)", depth, cosv, az, u.x, u.y, u.z) });
            }
            if (depth == 300) // directions with an exactly vanishing component
                for (auto d : { V3 { 1, 0, 0 }, V3 { 0, 1, 0 }, V3 { 0, 0, 1 }, V3 { -1, 0, 0 }, V3 { 0, -1, 0 }, V3 { 0, 0, -1 }, V3 { 0.6, 0.8, 0 } })
                    r.push_back({ { double(p.x), double(p.y), double(p.z) }, d, vk::f("depth%Lg-dir(%Lg,%Lg,%Lg)-(%Lg,%Lg,%Lg)", depth, d.x, d.y, d.z, u.x, u.y, u.z) });
        }
    }
    return r;
}
inline bool is_radial_line(Prof const& P, V3 p, V3 d) { return fabsl(fabsl(P.slope(p, d)) - 1) < 1e-12L; }
// largest length along the ray on which the depth stays in [lo,hi] (and a radial ray does not pass the centre)
inline LD defined(Prof const& P, V3 p, V3 d)
{
    if (P.k == HOM) return 1e6;
    LD d0 = P.depth(p), s = P.slope(p, d);
    LD m = 1e4;
    if (P.ax.radial && !is_radial_line(P, p, d)) m = 0.3L * d0;
    if (s < 0) m = std::min(m, (d0 - 1) / -s);
    if (s > 0) m = std::min(m, (990 - d0) / s);
    return m;
}
} // namespace dens
