// vk: sources=math/Cartesian3D,math/Spherical3D,math/Vector3D,Logging,methods,Constants
#include "vk.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
#include <nlohmann/json.hpp>
using namespace PROPOSAL;
using nlohmann::json;
typedef long double LD;
struct W { LD x, y, z; };
static W w(Cartesian3D const& c) { return { c.GetX(), c.GetY(), c.GetZ() }; }
static LD dot(W a, W b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static LD norm(W a) { return sqrtl(dot(a, a)); }
static W cross(W a, W b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
static W comb(LD s, W a, LD t, W b) { return { s * a.x + t * b.x, s * a.y + t * b.y, s * a.z + t * b.z }; }
static const LD PIl = 3.14159265358979323846264338327950288L;

struct Dir { double x, y, z; std::string n; };
static std::vector<Dir> dirs(bool many)
{
    std::vector<Dir> r;
    for (int i = 0; i < 3; ++i) for (int s : { 1, -1 }) { double v[3] = { 0, 0, 0 }; v[i] = s; r.push_back({ v[0], v[1], v[2], vk::f("axis%d%+d", i, s) }); }
    r.push_back({ -0., -0., 1, "pole-negzero" }); r.push_back({ -0., 0., -1, "southpole-negzero" });
    r.push_back({ 0.6, 0.8, 0, "34" }); r.push_back({ 0, -0.6, -0.8, "-3-4" }); r.push_back({ 0.48, 0.64, -0.6, "345" });
    std::vector<LD> th { 1e-15L, 1e-12L, 1e-9L, 3e-8L, 1e-6L, 1e-3L, 0.1L, 0.7L, 1.2L, PIl / 2, 1.9L, 2.8L, PIl - 1e-4L, PIl - 1e-7L, PIl - 1e-10L, PIl - 1e-13L };
    int n = many ? 24 : 12;
    for (auto t : th) for (int a = 0; a < n; ++a) {
        LD p = -PIl + (a + 0.25L * (a % 3)) * 2 * PIl / n;
        LD s = t > 3 ? sinl(PIl - t) : sinl(t), c = t > 3 ? -cosl(PIl - t) : cosl(t);
        r.push_back({ double(s * cosl(p)), double(s * sinl(p)), double(c), vk::f("th%.12Lg-az%d", t, a) });
    }
    return r;
}
static void deflection(Dir const& D, double c, double phi, Cartesian3D* out, W* e0)
{
    Cartesian3D d(D.x, D.y, D.z), o(d);
    d.deflect(c, phi);
    W a = w(o), b = w(d);
    LD cc = std::min(1.L, std::max(-1.L, LD(c))), ss = sqrtl((1 - cc) * (1 + cc));
    VK_CHECK(fabsl(norm(b) - 1) <= 2e-15L + fabsl(norm(a) - 1), "deflect-unit", "%s cos=%.17g phi=%g: length-1 = %Lg", D.n.c_str(), c, phi, norm(b) - 1);
    LD tol = fabsl(cc) < 1e-6L ? 3e-8L : fabsl(cc) < 1e-2L ? 1e-9L : 1e-14L;
    VK_CHECK(fabsl(dot(a, b) - cc) <= tol, "deflect-angle", "%s cos=%.17g phi=%g: dot %.17Lg", D.n.c_str(), c, phi, dot(a, b));
    VK_CHECK(fabsl(norm(cross(a, b)) - ss) <= (fabsl(cc) < 1e-2L ? tol : 1e-14L), "deflect-angle", "%s cos=%.17g phi=%g: sine %.17Lg want %.17Lg", D.n.c_str(), c, phi, norm(cross(a, b)), ss);
    W perp = comb(1, b, -dot(a, b) / dot(a, a), a);
    if (ss > 1e-6L) {
        W e = comb(1 / ss, perp, 0, perp);
        if (e0 && out) *e0 = e;
        else if (e0) {
            W want = comb(cosl(phi), *e0, sinl(phi), cross(a, *e0));
            LD diff = norm(comb(1, e, -1, want));
            VK_CHECK(diff <= 1e-14L / ss + (fabsl(cc) < 1e-2L ? tol : 0), "deflect-azimuth", "%s cos=%.17g phi=%g: azimuth off by %Lg", D.n.c_str(), c, phi, diff);
        }
    }
    vk::state(vk::hd(vk::hd(vk::hd(1, d.GetX()), d.GetY()), d.GetZ()));
    if (out) *out = d;
}
void vk_main()
{
    auto DS = dirs(vk::thorough());
    std::vector<double> CS { 1, 1 - 1.2e-16, 1 + 2.3e-16, 1 - 1e-12, 0.999999, 0.9, 0.5, 1e-3, 1e-9, 0, -0., -1e-9, -0.3, -0.999, -1 + 1e-12, -1, -1 - 2.3e-16 };
    std::vector<double> PH { 0, 1e-9, M_PI / 4, M_PI / 2, 2, M_PI, 3.5, 1.5 * M_PI, 6.2, 2 * M_PI, -1 };
    vk::bound(vk::f("%zu directions x %zu cosines x %zu azimuths; all sequences of 3 deflections over 6x4 angles from 20 directions; %zu^2 direction pairs for vector algebra", DS.size(), CS.size(), PH.size(), DS.size()));
    for (auto& D : DS) {
        vk::cs("deflect-" + D.n, [&] {
            for (double c : CS) {
                W e0; Cartesian3D first;
                deflection(D, c, 0, &first, &e0);
                for (double p : PH) deflection(D, c, p, nullptr, &e0);
                vk::outcome(c > 0 ? "forward" : "backward or sideways");
            }
            Cartesian3D d(D.x, D.y, D.z), o(d);
            d.deflect(1, 0);
            VK_CHECK(d == o, "deflect-identity", "%s changed", D.n.c_str());
        });
        vk::cs("convert-" + D.n, [&] {
            for (double r : { 1., 1e-9, 0.37, 12345.678, 1e20 }) {
                Cartesian3D c(D.x * r, D.y * r, D.z * r);
                Spherical3D s(c);
                W a = w(c); LD R = norm(a);
                VK_CLOSE(s.GetRadius(), double(R), 1e-15, 0, "radius", "%s r=%g", D.n.c_str(), r);
                VK_CLOSE(c.magnitude(), double(R), 1e-15, 0, "magnitude", "%s r=%g", D.n.c_str(), r);
                VK_CHECK(s.GetZenith() >= 0 && s.GetZenith() <= M_PI && s.GetAzimuth() >= -M_PI && s.GetAzimuth() <= M_PI, "angle-range", "%s: zenith %g azimuth %g", D.n.c_str(), s.GetZenith(), s.GetAzimuth());
                LD zen = atan2l(sqrtl(a.x * a.x + a.y * a.y), a.z);
                VK_CHECK(fabsl(s.GetZenith() - zen) <= 5e-16L + 3e-16L * zen, "zenith", "%s r=%g: %.17g want %.17Lg", D.n.c_str(), r, s.GetZenith(), zen);
                if (a.x != 0 || a.y != 0) VK_CHECK(fabsl(s.GetAzimuth() - atan2l(a.y, a.x)) <= 1e-15L, "azimuth", "%s: %g", D.n.c_str(), s.GetAzimuth());
                Cartesian3D back(s);
                VK_CHECK(norm(comb(1, w(back), -1, a)) <= 2e-15L * R, "round-trip", "%s r=%g: off by %Lg", D.n.c_str(), r, norm(comb(1, w(back), -1, a)) / R);
                Spherical3D again(back);
                VK_CHECK(fabs(again.GetZenith() - s.GetZenith()) <= 1e-15 && fabs(again.GetRadius() - s.GetRadius()) <= 1e-15 * R, "round-trip", "%s spherical", D.n.c_str());
                VK_CHECK(s.magnitude() == s.GetRadius() && s.GetSphericalCoordinates()[0] == s.GetRadius() && s.GetSphericalCoordinates()[1] == s.GetAzimuth() && s.GetSphericalCoordinates()[2] == s.GetZenith(), "accessors", "%s", D.n.c_str());
                VK_CHECK(c.GetSphericalCoordinates() == s.GetSphericalCoordinates() && s.GetCartesianCoordinates() == back.GetCartesianCoordinates(), "accessors", "%s", D.n.c_str());
                UnitSphericalVector u(s);
                VK_CHECK(u.zenith == s.GetZenith() && u.azimuth == s.GetAzimuth(), "accessors", "unit %s", D.n.c_str());
                Cartesian3D n(c); n.normalize();
                VK_CHECK(fabsl(norm(w(n)) - 1) <= 4e-16L, "normalize", "%s r=%g: length %.17Lg", D.n.c_str(), r, norm(w(n)));
                VK_CHECK(norm(comb(1, w(n), -1 / R, a)) <= 4e-16L, "normalize", "%s r=%g: direction changed", D.n.c_str(), r);
                Spherical3D ns(s); ns.normalize();
                VK_CHECK(ns.GetRadius() == 1 && ns.GetZenith() == s.GetZenith() && ns.GetAzimuth() == s.GetAzimuth(), "normalize", "spherical %s", D.n.c_str());
            }
            vk::outcome("conversion");
        });
        vk::cs("algebra-" + D.n, [&] {
            W a { D.x * 3.0, D.y * 3.0, D.z * 3.0 };
            Cartesian3D A(a.x, a.y, a.z);
            a = w(A);
            for (auto& E : DS) {
                Cartesian3D B(E.x * 0.7, E.y * 0.7, E.z * 0.7);
                W b = w(B);
                auto S = A + B, F = A - B, X = vector_product(A, B), T = A; T += B;
                VK_CHECK(norm(comb(1, w(S), -1, comb(1, a, 1, b))) <= 1e-15L && T == S && B + A == S, "sum", "%s %s", D.n.c_str(), E.n.c_str());
                VK_CHECK(norm(comb(1, w(F), -1, comb(1, a, -1, b))) <= 1e-15L && -F == B - A && A + (-B) == F, "difference", "%s %s", D.n.c_str(), E.n.c_str());
                VK_CHECK(fabsl(A * B - dot(a, b)) <= 2e-15L && A * B == B * A, "scalar-product", "%s %s", D.n.c_str(), E.n.c_str());
                VK_CHECK(norm(comb(1, w(X), -1, cross(a, b))) <= 3e-15L, "vector-product", "%s %s", D.n.c_str(), E.n.c_str());
                VK_CHECK((A == B) == (a.x == b.x && a.y == b.y && a.z == b.z) && (A != B) == !(A == B), "equality", "%s %s", D.n.c_str(), E.n.c_str());
            }
            for (double q : { 0., 1., -2.5, 1e10 }) {
                auto P = A * q;
                VK_CHECK(P == q * A && norm(comb(1, w(P), -q, a)) <= 4e-16L * fabs(q) * 3, "scaling", "%s %g", D.n.c_str(), q);
            }
        });
    }
    // sequences of deflections keep the direction a unit vector
    std::vector<double> c2 { 1 - 1e-9, 0.99, 0.2, 0, -0.7, -1 }, p2 { 0, 1.3, M_PI, 5 };
    int depth = vk::thorough() ? 4 : 3;
    for (size_t i = 0; i < DS.size(); i += vk::thorough() ? 3 : 10) vk::cs("sequence-" + DS[i].n, [&] {
        std::function<void(Cartesian3D, int)> rec = [&](Cartesian3D d, int n) {
            VK_CHECK(fabsl(norm(w(d)) - 1) <= 1e-14L, "deflect-sequence", "after %d deflections length-1 = %Lg", n, norm(w(d)) - 1);
            if (n == depth) return;
            for (double c : c2) for (double p : p2) { Cartesian3D e(d); e.deflect(c, p); VK_CHECK(fabs(d * e - c) <= 5e-8, "deflect-sequence", "angle"); rec(e, n + 1); }
        };
        rec(Cartesian3D(DS[i].x, DS[i].y, DS[i].z), 0);
        vk::outcome("sequence");
    });
    // spherical to cartesian on a lattice of angles, incl. non-canonical ones
    for (double r : { 1., 2.5e-3, 7e8 }) for (int zi = 0; zi <= 16; ++zi) vk::cs(vk::f("spherical-%g-%d", r, zi), [&] {
        for (int ai = -8; ai <= 16; ++ai) {
            double z = zi * M_PI / 16, a = ai * M_PI / 8;
            Spherical3D s(r, a, z);
            VK_CHECK(s.GetRadius() == r && s.GetAzimuth() == a && s.GetZenith() == z, "accessors", "spherical");
            Cartesian3D c(s);
            W want { r * sinl(z) * cosl(a), r * sinl(z) * sinl(a), r * cosl(z) };
            VK_CHECK(norm(comb(1, w(c), -1, want)) <= 4e-16L * r, "to-cartesian", "(%g,%g,%g)", r, a, z);
            Spherical3D b(c);
            VK_CHECK(fabs(b.GetZenith() - z) <= 1e-15, "round-trip", "zenith %g -> %g", z, b.GetZenith());
            if (zi > 0 && zi < 16) {
                double da = std::remainder(b.GetAzimuth() - a, 2 * M_PI);
                VK_CHECK(fabs(da) <= 2e-15, "round-trip", "azimuth %g -> %g", a, b.GetAzimuth());
            }
            s.SetRadius(r * 2); s.SetAzimuth(0.5); s.SetZenith(0.25);
            VK_CHECK(s == Spherical3D(r * 2, 0.5, 0.25), "setters", "spherical");
        }
    });
    vk::cs("misc", [&] {
        Cartesian3D c;
        VK_CHECK(c == Cartesian3D(0, 0, 0) && c.magnitude() == 0, "setters", "default");
        c.SetX(1); c.SetY(2); c.SetZ(3);
        VK_CHECK(c == Cartesian3D(1, 2, 3) && c[0] == 1 && c[1] == 2 && c[2] == 3, "setters", "cartesian");
        c.SetCoordinates(4, 5, 6); VK_CHECK(c == Cartesian3D(4, 5, 6), "setters", "coordinates");
        c.SetCoordinates({ 7, 8, 9 }); VK_CHECK(c == Cartesian3D(7, 8, 9), "setters", "coordinates");
        VK_CHECK(vk::throws([&] { c[3] = 1; }), "index", "index 3 accepted");
        Spherical3D s(Cartesian3D(0, 0, 0)); VK_CHECK(s == Spherical3D(0, 0, 0), "zero", "zero vector");
        VK_CHECK(Cartesian3D(json::parse("[1,-2.5,3]")) == Cartesian3D(1, -2.5, 3) && Spherical3D(json::parse("[1,0.5,0.25]")) == Spherical3D(1, 0.5, 0.25), "json", "array");
        for (auto t : { "[1,2]", "[1,2,3,4]", "{}", "\"a\"", "[1,2,\"c\"]", "[null,2,3]", "3" })
            VK_CHECK(vk::throws([&] { Cartesian3D x(json::parse(t)); }) && vk::throws([&] { Spherical3D x(json::parse(t)); }), "json", "accepted %s", t);
        for (int i = 0; i < 3; ++i) { double v[3] = { 1, 2, 3 }; v[i] += 1e-15; VK_CHECK(Cartesian3D(v[0], v[1], v[2]) != Cartesian3D(1, 2, 3) || v[i] == i + 1, "equality", "component %d", i); }
        vk::outcome("setters");
    });
}
