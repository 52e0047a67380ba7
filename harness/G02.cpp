// vk: sources=geometry/,math/Cartesian3D,math/Spherical3D,math/Vector3D,Logging,methods,Constants
#include "geo.h"
using namespace geo;
using PROPOSAL::Geometry;

static const char* locname(int l) { return l == 0 ? "infront" : l == 1 ? "inside" : "behind"; }

// in the material (+1), outside (-1), too close to the surface to tell (0)
static int member(Shape const& s, V3 const& P)
{
    ld x = ld(P[0]) - s.ctr[0], y = ld(P[1]) - s.ctr[1], z = ld(P[2]) - s.ctr[2], d;
    if (s.k == SPH) { ld r = sqrtl(x*x+y*y+z*z); d = s.a - r; if (s.b > 0) d = std::min(d, r - ld(s.b)); }
    else if (s.k == BOX) d = std::min(std::min(ld(s.a)/2 - fabsl(x), ld(s.b)/2 - fabsl(y)), ld(s.c)/2 - fabsl(z));
    else { ld r = sqrtl(x*x+y*y); d = std::min(ld(s.a) - r, ld(s.c)/2 - fabsl(z)); if (s.b > 0) d = std::min(d, r - ld(s.b)); }
    ld tol = 1e-6L * s.size();
    return d > tol ? 1 : d < -tol ? -1 : 0;
}

static void location(Shape const& s, Geometry const& g, V3 const& P, V3 const& D, std::string const& tag)
{
    auto p = c3(P), d = c3(D);
    bool in = g.IsInside(p, d), fr = g.IsInfront(p, d), be = g.IsBehind(p, d);
    std::string k = std::string(kn(s.k)) + tag;
    VK_CHECK(in + fr + be == 1, "partition-" + k, "%s %s %s: inside %d infront %d behind %d", s.name().c_str(), str(P).c_str(), str(D).c_str(), in, fr, be);
    int loc = g.GetLocation(p, d);
    int want = fr ? Geometry::ParticleLocation::InfrontGeometry : in ? Geometry::ParticleLocation::InsideGeometry : Geometry::ParticleLocation::BehindGeometry;
    VK_CHECK(loc == want, "location-value-" + k, "%s %s %s: location %s but inside %d infront %d", s.name().c_str(), str(P).c_str(), str(D).c_str(), locname(loc), in, fr);
    int m = member(s, P);
    if (m) VK_CHECK(in == (m > 0), "membership-" + k, "%s %s %s: inside %d, true membership %d", s.name().c_str(), str(P).c_str(), str(D).c_str(), in, m);
    auto a = allowed(s, P, D);
    if (a.robust && (a.eps <= 1e-8L || m != 0)) {
        int w = pat(a.exact) == 0 ? 2 : pat(a.exact) == 1 ? 1 : 0;
        VK_CHECK(loc == w, "location-" + k, "%s %s %s: location %s want %s", s.name().c_str(), str(P).c_str(), str(D).c_str(), locname(loc), locname(w));
        vk::state(vk::hd(vk::hd(vk::hs(s.name()), a.exact.f), a.exact.s));
        vk::outcome(k + " " + locname(w));
    }
    // signed distance to the point of the ray nearest to the centre
    ld want_ca = 0;
    for (int i = 0; i < 3; ++i) want_ca += (ld(s.ctr[i]) - ld(P[i])) * ld(D[i]);
    double ca = g.DistanceToClosestApproach(p, d);
    VK_CHECK(std::fabs(ca - double(want_ca)) <= 1e-11 * (s.size() + std::fabs(ca) + std::fabs(s.ctr[0]) + std::fabs(s.ctr[1]) + std::fabs(s.ctr[2]) + std::fabs(P[0]) + std::fabs(P[1]) + std::fabs(P[2])),
        "closest-approach-" + k, "%s %s %s: %.17g want %.17Lg", s.name().c_str(), str(P).c_str(), str(D).c_str(), ca, want_ca);
}

static void walk(Shape const& s, Geometry const& g, V3 P, V3 const& D)
{
    if (allowed(s, P, D).eps > 1e-6L || s.size() > 1e4 || std::fabs(P[0]) + std::fabs(P[1]) + std::fabs(P[2]) > 1e5) return; // a step lands within 1e-9 of the border only if doubles resolve it
    // the crossings ahead according to the model; walk only well separated ones
    std::vector<ld> cr;
    ld sep = 1e-4L * s.minsize();
    for (auto& i : material(s, P, D, 0)) {
        if (i.b <= 1e-9L) continue;
        if (i.b - i.a < sep || i.b < sep) return;
        if (i.a > 1e-9L) { if (i.a < sep) return; cr.push_back(i.a); }
        cr.push_back(i.b);
    }
    for (size_t i = 1; i < cr.size(); ++i) if (cr[i] - cr[i - 1] < sep) return;
    if (!allowed(s, P, D).robust) return;
    ld done = 0;
    bool in = cr.size() % 2 == 1;
    for (size_t n = 0; n <= cr.size(); ++n) {
        auto p = c3(P), d = c3(D);
        auto a = allowed(s, P, D);
        if (!a.robust) return; // stepped onto a grazing border
        auto x = g.DistanceToBorder(p, d);
        bool last = n == cr.size();
        int want = last ? 2 : in ? 1 : 0;
        int loc = g.GetLocation(p, d);
        VK_CHECK(loc == want, std::string("walk-") + kn(s.k), "%s at %s along %s after %zu of %zu crossings: %s want %s", s.name().c_str(), str(P).c_str(), str(D).c_str(), n, cr.size(), locname(loc), locname(want));
        VK_CHECK(g.IsInside(p, d) == (in && !last), std::string("walk-inside-") + kn(s.k), "%s at %s along %s after %zu crossings", s.name().c_str(), str(P).c_str(), str(D).c_str(), n);
        // entering / leaving: at the border only; hollow solids may have further material on the other side
        auto M = material(s, P, D, 0);
        if (M.size() == 1 && s.b == 0 || s.k == BOX) {
            bool on_in = n > 0 && in && !last, on_out = n > 0 && !in && last;
            if (n > 0 ? a.eps <= 1e-8L : member(s, P) != 0) {
                VK_CHECK(g.IsEntering(p, d) == on_in, std::string("entering-") + kn(s.k), "%s at %s along %s crossing %zu: entering %d", s.name().c_str(), str(P).c_str(), str(D).c_str(), n, !on_in);
                VK_CHECK(g.IsLeaving(p, d) == on_out, std::string("leaving-") + kn(s.k), "%s at %s along %s crossing %zu: leaving %d", s.name().c_str(), str(P).c_str(), str(D).c_str(), n, !on_out);
                vk::outcome(on_in ? "entering" : on_out ? "leaving" : "neither");
            }
        }
        if (last) break;
        VK_CHECK(std::fabs(double(done + x.first - cr[n])) <= a.tol + 1e-9 * s.size(), std::string("walk-length-") + kn(s.k), "%s at %s along %s: crossing %zu at %.17Lg want %.17Lg", s.name().c_str(), str(P).c_str(), str(D).c_str(), n, done + x.first, cr[n]);
        if (!(x.first > 0)) return;
        done += x.first;
        auto q = p + d * x.first;
        P = { { q.GetX(), q.GetY(), q.GetZ() } };
        in = !in;
    }
    vk::outcome(vk::f("walk of %zu crossings", cr.size()));
}

void vk_main()
{
    quiet();
    bool big = true;
    auto S = shapes(big);
    vk::bound(vk::f("%zu shapes x all positions x all directions; every ray walked from border to border to its end", S.size()));
    for (size_t i = 0; i < S.size(); ++i) {
        auto& s = S[i];
        auto g = s.make();
        auto P = positions(s, big);
        for (size_t j = 0; j < P.size(); ++j)
            vk::cs(vk::f("pos/%zu/%zu", i, j), [&] {
                for (auto& D : directions(s, P[j], big)) {
                    location(s, *g, P[j], D, s.k != BOX && s.b > 0 ? "-hollow" : "");
                    walk(s, *g, P[j], D);
                }
            });
    }
}
