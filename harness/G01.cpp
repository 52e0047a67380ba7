// vk: sources=geometry/,math/Cartesian3D,math/Spherical3D,math/Vector3D,Logging,methods,Constants
#include "geo.h"
#include "PROPOSAL/math/Spherical3D.h"
using namespace geo;

static void one(Shape const& s, PROPOSAL::Geometry const& g, V3 const& P, V3 const& D)
{
    auto a = allowed(s, P, D);
    auto d = g.DistanceToBorder(c3(P), c3(D));
    VK_CHECK(a.ok(d.first, d.second), std::string("distances-") + kn(s.k) + (a.robust ? "" : "-degenerate"),
        "%s from %s along %s: got (%.17g,%.17g) want (%.17g,%.17g) tol %g", s.name().c_str(), str(P).c_str(), str(D).c_str(),
        d.first, d.second, a.exact.f, a.exact.s, a.tol);
    vk::state(vk::hd(vk::hd(vk::hs(s.name()), a.exact.f), a.exact.s));
    vk::outcome(std::string(kn(s.k)) + (s.k != BOX && s.b > 0 ? "-hollow" : "") + (a.robust ? "" : "-degenerate") + (pat(a.exact) == 0 ? " none" : pat(a.exact) == 1 ? " inside" : " ahead"));
}

void vk_main()
{
    quiet();
    bool big = true;
    auto S = shapes(big);
    vk::bound(vk::f("%zu shapes x all positions on/inside/outside/in the hole x all lattice, grazing and aimed directions", S.size()));
    for (size_t i = 0; i < S.size(); ++i) {
        auto& s = S[i];
        auto g = s.make();
        auto P = positions(s, big);
        for (size_t j = 0; j < P.size(); ++j)
            vk::cs(vk::f("ray/%zu/%zu", i, j), [&] {
                for (auto& D : directions(s, P[j], big)) one(s, *g, P[j], D);
            });
        // a moved geometry answers like one built there
        vk::cs(vk::f("moved/%zu", i), [&] {
            Shape m = s;
            m.ctr = { { -4, 11, 0.5 } };
            g->SetPosition(c3(m.ctr));
            for (auto& p : positions(m, false)) for (auto& D : directions(m, p, false)) one(m, *g, p, D);
            g->SetPosition(c3(s.ctr));
        });
        // directions and positions given in spherical coordinates
        vk::cs(vk::f("spherical/%zu", i), [&] {
            for (auto& p : positions(s, false)) for (auto& D : directions(s, p, false)) {
                PROPOSAL::Spherical3D sp(c3(p)), sd(c3(D));
                PROPOSAL::Cartesian3D bp(sp), bd(sd);
                V3 p2 { { bp.GetX(), bp.GetY(), bp.GetZ() } }, d2 { { bd.GetX(), bd.GetY(), bd.GetZ() } };
                auto a = allowed(s, p2, d2);
                auto x = g->DistanceToBorder(sp, sd);
                VK_CHECK(a.ok(x.first, x.second), std::string("spherical-") + kn(s.k), "%s %s %s: (%g,%g)", s.name().c_str(), str(p2).c_str(), str(d2).c_str(), x.first, x.second);
            }
        });
    }
    // the precision rule: a crossing closer than 1e-9 is left out, one beyond is kept
    std::vector<Shape> N { { SPH, { { 0, 0, 0 } }, 4, 0, 0 }, { SPH, { { 0, 0, 0 } }, 4, 2, 0 }, { BOX, { { 0, 0, 0 } }, 8, 4, 2 },
        { CYL, { { 0, 0, 0 } }, 4, 0, 2 }, { CYL, { { 0, 0, 0 } }, 4, 2, 2 } };
    for (size_t i = 0; i < N.size(); ++i)
        for (int ax = 0; ax < 3; ++ax)
            vk::cs(vk::f("precision/%zu/%d", i, ax), [&] {
                auto& s = N[i];
                auto g = s.make();
                double half[3];
                if (s.k == SPH) half[0] = half[1] = half[2] = 4;
                else if (s.k == BOX) { half[0] = 4; half[1] = 2; half[2] = 1; }
                else { half[0] = half[1] = 4; half[2] = 1; }
                std::vector<double> faces { half[ax], -half[ax] };
                if (s.k != BOX && s.b > 0 && !(s.k == CYL && ax == 2)) { faces.push_back(s.b); faces.push_back(-s.b); }
                for (double fc : faces) for (double off : { -1e-7, -1e-8, -2e-9, -5e-10, -1e-11, 0., 1e-11, 5e-10, 2e-9, 1e-8, 1e-7 }) for (double sg : { -1., 1. }) {
                    V3 P { { 0, 0, 0 } }, D { { 0, 0, 0 } };
                    if (s.k == CYL && ax == 2) P[0] = 3;
                    P[ax] = fc + off; D[ax] = sg;
                    auto r = ref(s, P, D, 0, 1e-9);
                    auto d = g->DistanceToBorder(c3(P), c3(D));
                    bool ok = pat(r) == pat({ d.first, d.second }) && (r.f < 0 ? d.first == -1 : std::fabs(r.f - d.first) < 1e-10 * 40) && (r.s < 0 ? d.second == -1 : std::fabs(r.s - d.second) < 1e-10 * 40);
                    VK_CHECK(ok, std::string("precision-") + kn(s.k), "%s from %s along %s: got (%.17g,%.17g) want (%.17g,%.17g)", s.name().c_str(), str(P).c_str(), str(D).c_str(), d.first, d.second, r.f, r.s);
                    vk::state(vk::hd(vk::hd(i, r.f), r.s));
                }
            });
}
