// Reference model of the solids: material intervals along a ray, long double.
#pragma once
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/geometry/Geometry.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/Logging.h"
#include "vk.h"
#include <array>
#include <memory>
namespace geo {
using ld = long double;
using V3 = std::array<double, 3>;
using PROPOSAL::Cartesian3D;
enum Kind { SPH, BOX, CYL };
struct Shape { // a: radius | x ; b: inner radius | y ; c: height | z
    Kind k; V3 ctr; double a, b, c;
    std::string name() const
    {
        const char* n[] = { "sphere", "box", "cyl" };
        return vk::f("%s(%g,%g,%g)@(%g,%g,%g)", n[k], a, b, c, ctr[0], ctr[1], ctr[2]);
    }
    std::shared_ptr<PROPOSAL::Geometry> make() const
    {
        Cartesian3D p(ctr[0], ctr[1], ctr[2]);
        if (k == SPH) return std::make_shared<PROPOSAL::Sphere>(p, a, b);
        if (k == BOX) return std::make_shared<PROPOSAL::Box>(p, a, b, c);
        return std::make_shared<PROPOSAL::Cylinder>(p, c, a, b);
    }
    double size() const { return k == SPH ? a : k == BOX ? std::max(a, std::max(b, c)) : std::max(a, c); }
    double minsize() const
    {
        if (k == BOX) return std::min(a, std::min(b, c));
        double m = a; if (b > 0) m = std::min(m, std::min(b, a - b));
        return k == CYL ? std::min(m, c) : m;
    }
};
struct Iv { ld a, b; };
const ld INF = std::numeric_limits<ld>::infinity();
inline bool quad(ld A, ld B, ld C, Iv& o) // C t^2 + 2 B t + A <= 0
{
    if (C == 0) { if (A <= 0) { o = { -INF, INF }; return true; } return false; }
    ld D = B * B - A * C;
    if (D <= 0) return false;
    ld s = sqrtl(D);
    o = { (-B - s) / C, (-B + s) / C };
    return true;
}
inline bool slab(ld p, ld d, ld h, Iv& o)
{
    if (d == 0) { if (p < -h || p > h) return false; o = { -INF, INF }; return true; }
    ld t1 = (-h - p) / d, t2 = (h - p) / d;
    o = { std::min(t1, t2), std::max(t1, t2) };
    return true;
}
inline std::vector<Iv> material(Shape const& s, V3 const& P, V3 const& D, ld infl)
{
    ld p[3], d[3];
    for (int i = 0; i < 3; ++i) { p[i] = ld(P[i]) - ld(s.ctr[i]); d[i] = D[i]; }
    std::vector<Iv> r;
    Iv o { -INF, INF }, h;
    bool hole = false;
    auto meet = [&](Iv x) { o.a = std::max(o.a, x.a); o.b = std::min(o.b, x.b); };
    Iv x;
    if (s.k == SPH) {
        ld pp = p[0]*p[0]+p[1]*p[1]+p[2]*p[2], pd = p[0]*d[0]+p[1]*d[1]+p[2]*d[2], dd = d[0]*d[0]+d[1]*d[1]+d[2]*d[2];
        ld R = s.a + infl, q = s.b - infl;
        if (!quad(pp - R * R, pd, dd, x)) return r;
        meet(x);
        if (s.b > 0) hole = quad(pp - q * q, pd, dd, h);
    } else if (s.k == BOX) {
        ld hh[3] = { s.a / 2, s.b / 2, s.c / 2 };
        for (int i = 0; i < 3; ++i) { if (!slab(p[i], d[i], hh[i] + infl, x)) return r; meet(x); }
    } else {
        ld pp = p[0]*p[0]+p[1]*p[1], pd = p[0]*d[0]+p[1]*d[1], dd = d[0]*d[0]+d[1]*d[1];
        ld R = s.a + infl, q = s.b - infl;
        if (!quad(pp - R * R, pd, dd, x)) return r;
        meet(x);
        if (!slab(p[2], d[2], ld(s.c) / 2 + infl, x)) return r;
        meet(x);
        if (s.b > 0) hole = quad(pp - q * q, pd, dd, h);
    }
    if (!(o.a < o.b)) return r;
    if (!hole || h.b <= o.a || h.a >= o.b) { r.push_back(o); return r; }
    if (o.a < h.a) r.push_back({ o.a, h.a });
    if (h.b < o.b) r.push_back({ h.b, o.b });
    return r;
}
struct Res { double f, s; };
inline Res ref(Shape const& s, V3 const& P, V3 const& D, ld infl, ld eps)
{
    for (auto& i : material(s, P, D, infl)) {
        if (i.b <= eps) continue;
        if (i.b - i.a <= 0) continue;
        if (i.a <= eps) return { double(i.b), -1 };
        return { double(i.a), double(i.b) };
    }
    return { -1, -1 };
}
inline int pat(Res r) { return (r.f > 0) + 2 * (r.s > 0); }
// What the model allows: exactly one pattern with a tolerance.  For rays within
// rounding of a tangent, edge or face the answer has to be consistent with the
// slightly shrunk and the slightly grown solid instead: what it calls material
// is in the grown one and what it calls free is not in the shrunk one.
struct Allowed {
    bool robust; Res exact; double tol;
    std::vector<Iv> grown, shrunk;
    ld eps;
    bool in(std::vector<Iv> const& m, ld a, ld b) const // (a,b) within material
    {
        if (b - a <= 2 * eps) return true;
        for (auto& i : m) if (i.a <= a + eps && i.b >= b - eps) return true;
        return false;
    }
    bool free(std::vector<Iv> const& m, ld a, ld b) const // no material in (a,b)
    {
        for (auto& i : m) if (std::min(i.b, b) - std::max(i.a, a) > 2 * eps) return false;
        return true;
    }
    bool ok(double f, double s) const
    {
        // crossings below the rounding of a large or distant solid: relaxed rule
        bool rounding = eps > 1e-9L && f > 0 && f <= eps;
        if (rounding && robust && s != -1) { f = s; s = -1; rounding = false; }
        if (robust && !rounding)
            return pat(exact) == pat({ f, s }) && (exact.f < 0 ? f == -1 : std::fabs(exact.f - f) <= tol)
                && (exact.s < 0 ? s == -1 : std::fabs(exact.s - s) <= tol);
        if (f == -1 && s == -1) return free(shrunk, 0, INF);
        if (s == -1) return f > 0 && in(grown, 0, f) && border(f);
        return f > 0 && s > 0 && f <= s && free(shrunk, 0, f) && in(grown, f, s) && border(s);
    }
    bool border(ld t) const // t is not deep inside the shrunk solid
    {
        for (auto& i : shrunk) if (t > i.a + 4 * eps && t < i.b - 4 * eps) return false;
        return true;
    }
};
inline Allowed allowed(Shape const& s, V3 const& P, V3 const& D)
{
    Allowed a;
    double dist = 0;
    for (int i = 0; i < 3; ++i) dist += (P[i] - s.ctr[i]) * (P[i] - s.ctr[i]);
    dist = std::sqrt(dist);
    double cn = std::sqrt(s.ctr[0]*s.ctr[0]+s.ctr[1]*s.ctr[1]+s.ctr[2]*s.ctr[2]);
    double scale = std::max(dist, s.size());
    ld del = 1e-12 * (scale + cn) * std::max(1., scale / s.minsize());
    a.eps = std::max<ld>(1e-9, 100 * del);
    a.exact = ref(s, P, D, 0, a.eps);
    a.robust = true;
    a.tol = 1e-10 * (scale + cn);
    double loose = 0;
    for (ld m : { ld(-1), ld(1), ld(-0.01), ld(0.01) }) {
        auto v = ref(s, P, D, m * del, a.eps);
        if (pat(v) != pat(a.exact)) a.robust = false;
        else {
            loose = std::max(loose, std::fabs(v.f - a.exact.f));
            loose = std::max(loose, std::fabs(v.s - a.exact.s));
        }
    }
    a.grown = material(s, P, D, del);
    a.shrunk = material(s, P, D, -del);
    if (a.robust && loose < 0.01 * s.minsize()) a.tol += 2 * loose;
    else a.robust = false;
    return a;
}
inline V3 norm(V3 d)
{
    double n = std::sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]);
    return { { d[0]/n, d[1]/n, d[2]/n } };
}
inline std::vector<Shape> shapes(bool big)
{
    std::vector<Shape> r;
    std::vector<V3> c { { { 0, 0, 0 } }, { { 3, -7, 2.5 } } };
    if (big) c.push_back({ { 1000.1, -250, 3333 } });
    for (auto& x : c) {
        for (double R : { 10., 0.7 }) for (double q : { 0., 0.3, 0.95 }) r.push_back({ SPH, x, R, R * q, 0 });
        r.push_back({ BOX, x, 10, 10, 10 });
        r.push_back({ BOX, x, 2, 6, 20 });
        r.push_back({ BOX, x, 0.3, 0.7, 0.05 });
        for (double z : { 1., 20. }) for (double q : { 0., 0.3, 0.95 }) r.push_back({ CYL, x, 5, 5 * q, z });
        if (big) {
            r.push_back({ SPH, x, 6.4e5, 6.3e5, 0 }); r.push_back({ CYL, x, 6e4, 5e4, 1e5 }); r.push_back({ BOX, x, 1e5, 1e3, 1e4 });
        }
    }
    return r;
}
// positions relative to structure: faces, edges, corners, axis, hole, far
inline std::vector<V3> positions(Shape const& s, bool big)
{
    std::vector<V3> r;
    auto add = [&](double x, double y, double z) { r.push_back({ { s.ctr[0] + x, s.ctr[1] + y, s.ctr[2] + z } }); };
    if (s.k == BOX) {
        std::vector<double> m { -3, -1, -0.4, 0, 0.55, 1, 1.7 };
        if (big) { m.push_back(-1.2); m.push_back(-0.9); m.push_back(0.2); m.push_back(20); }
        for (double x : m) for (double y : m) for (double z : m) add(x * s.a / 2, y * s.b / 2, z * s.c / 2);
    } else {
        std::vector<double> rad { 0, s.a, 1.4 * s.a, 5 * s.a, 0.5 * (s.a + s.b), 0.1 * s.a + 0.9 * s.b };
        if (s.b > 0) { rad.push_back(s.b); rad.push_back(0.5 * s.b); }
        if (big) { rad.push_back(0.95 * s.a + 0.05 * s.b); rad.push_back(100 * s.a); }
        if (s.k == SPH) {
            for (double q : rad) {
                if (q == 0) { add(0, 0, 0); continue; }
                for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) {
                    if (!x && !y && !z) continue;
                    auto d = norm({ { double(x), double(y), double(z) } });
                    add(q * d[0], q * d[1], q * d[2]);
                }
                auto d = norm({ { 0.3, -0.5, 0.81 } });
                add(q * d[0], q * d[1], q * d[2]);
            }
        } else {
            for (double q : rad) for (double z : { -2., -1., -0.3, 0., 0.6, 1., 1.5 }) {
                if (q == 0) { add(0, 0, z * s.c / 2); continue; }
                for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) {
                    if (!x && !y) continue;
                    double n = std::sqrt(double(x * x + y * y));
                    add(q * x / n, q * y / n, z * s.c / 2);
                }
                add(q * 0.6, -q * 0.8, z * s.c / 2);
            }
        }
    }
    return r;
}
inline std::vector<V3> directions(Shape const& s, V3 const& P, bool big)
{
    std::vector<V3> r;
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
        if (x || y || z) r.push_back(norm({ { double(x), double(y), double(z) } }));
    r.push_back(norm({ { 0.3, -0.5, 0.81 } }));
    r.push_back(norm({ { -0.77, 0.1, -0.4 } }));
    r.push_back(norm({ { 1, 1e-3, 0 } }));
    r.push_back(norm({ { -1e-3, 1e-3, 1 } }));
    r.push_back(norm({ { 1e-10, -1, 2e-10 } }));
    int nf = vk::thorough() ? 240 : 12;
    if (big) for (int i = 0; i < nf; ++i) {
        double z = -1 + (2 * i + 1) / double(nf), ph = 2.399963 * i, q = std::sqrt(1 - z * z);
        r.push_back(norm({ { q * std::cos(ph), q * std::sin(ph), z } }));
    }
    // aimed at the structure: centre, corners/rims, edge middles, inner tangents
    std::vector<V3> tg { { { 0, 0, 0 } } };
    if (s.k == BOX) {
        for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
            if (std::abs(x) + std::abs(y) + std::abs(z) >= 2) tg.push_back({ { x * s.a / 2, y * s.b / 2, z * s.c / 2 } });
    } else if (s.k == CYL) {
        for (double q : { s.a, s.b, 0.5 * (s.a + s.b) }) if (q > 0)
            for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
                if (x || y) { double n = std::sqrt(double(x*x+y*y)); tg.push_back({ { q * x / n, q * y / n, z * s.c / 2 } }); }
    } else {
        for (double q : { s.a, s.b, 0.5 * (s.a + s.b), 0.99 * s.b }) if (q > 0)
            for (auto d : { V3 { { 1, 0, 0 } }, V3 { { 0, -1, 0 } }, V3 { { 0, 0, 1 } }, V3 { { 0.6, 0, -0.8 } } })
                tg.push_back({ { q * d[0], q * d[1], q * d[2] } });
    }
    for (auto& t : tg) {
        V3 d { { s.ctr[0] + t[0] - P[0], s.ctr[1] + t[1] - P[1], s.ctr[2] + t[2] - P[2] } };
        double n = std::sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]);
        if (n > 1e-6 * s.size()) r.push_back(norm(d));
    }
    return r;
}
inline const char* kn(Kind k) { return k == SPH ? "sphere" : k == BOX ? "box" : "cylinder"; }
inline Cartesian3D c3(V3 const& v) { return Cartesian3D(v[0], v[1], v[2]); }
inline std::string str(V3 const& v) { return vk::f("(%.17g,%.17g,%.17g)", v[0], v[1], v[2]); }
inline void quiet() { PROPOSAL::Logging::SetGlobalLoglevel(spdlog::level::off); }
}
