// vk: sources=density_distr/,math/Function,math/Spline,math/MathMethods,math/Cartesian3D,math/Spherical3D,math/Vector3D,Logging,methods,Constants,medium/
#include "dens.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/medium/MediumFactory.h"
using namespace dens;
using PROPOSAL::Density_distr;

static void ray(Prof const& P, Density_distr const& D, Ray const& R)
{
    V3 p = R.p, d = R.d;
    auto x = c3(p), dir = c3(d);
    LD d0 = P.depth(p), s = P.slope(p, d);
    LD lmax = defined(P, p, d);
    if (lmax <= 0) throw vk::Skip();
    bool exact = !P.ax.radial || P.k == HOM || is_radial_line(P, p, d);
    VK_CHECK(fabsl(D.Evaluate(x) - P.rho(p)) <= 1e-12L * P.rho(p) * (1 + P.antiscale(d0) / P.rho(p) / std::max(d0, 1.L)), "local-density", "%s %s: %.17g want %.17Lg", P.tag.c_str(), R.name.c_str(), D.Evaluate(x), P.rho(p));
    if (P.k != HOM) {
        VK_CHECK(fabsl(D.GetAxis().GetDepth(x) - d0) <= 1e-13L * (1000 + d0), "axis", "depth %g want %Lg", D.GetAxis().GetDepth(x), d0);
        VK_CHECK(fabsl(D.GetAxis().GetEffectiveDistance(x, dir) - s) <= 1e-13L * 3, "axis", "change of depth per length %g want %Lg", D.GetAxis().GetEffectiveDistance(x, dir), s);
    }
    VK_CHECK(D.Calculate(x, dir, 0) == 0, "zero-path", "%g", D.Calculate(x, dir, 0));
    std::vector<LD> L;
    for (LD q : { 1e-6L, 1e-3L, 0.1L, 0.37L, 0.5L, 0.9L, 1.L }) L.push_back(double(q * lmax));
    std::vector<double> C;
    std::vector<LD> T;
    for (LD l : L) {
        double got = D.Calculate(x, dir, l);
        LD by_eval = integral(P, [&](LD t) { return LD(D.Evaluate(c3(add(p, t, d)))); }, d0, s, l, P.k == EXP ? 12 : 3);
        LD by_ref = integral(P, [&](LD t) { return P.rho(add(p, t, d)); }, d0, s, l, P.k == EXP ? 12 : 3);
        LD by_lin = exact ? by_ref : integral(P, [&](LD t) { return P.rho_at(d0 + t * s); }, d0, s, l, P.k == EXP ? 12 : 3);
        LD num = 2e-8L * by_ref;
        if (P.numeric()) {
            LD a = 3e-15L * P.antiscale(d0 + l * fabsl(s));
            num += std::min(a / fabsl(s), a * l / (1e-7L * d0));
        }
        // curvature of a radial path
        LD tol = num + fabsl(by_lin - by_ref) * 1.001L;
        // break points of a spline on a curved path are missed by the quadrature
        if (!exact && P.k >= LIN) tol += 1e-4L * by_ref;
        VK_CHECK(fabsl(got - by_ref) <= tol, "column-depth", "%s %s l=%Lg: %.17g want %.17Lg tol %Lg", P.tag.c_str(), R.name.c_str(), l, got, by_ref, tol);
        VK_CHECK(fabsl(got - by_eval) <= tol * 1.5L, "column-depth-of-density", "%s %s l=%Lg: %.17g want %.17Lg tol %Lg", P.tag.c_str(), R.name.c_str(), l, got, by_eval, tol);
        if (!C.empty()) VK_CHECK(got > C.back(), "monotone", "%s %s l=%Lg: %.17g after %.17g", P.tag.c_str(), R.name.c_str(), l, got, C.back());
        C.push_back(got); T.push_back(num);
        vk::state(vk::hd(vk::hs(P.tag), got));
    }
    if (exact) for (size_t i = 0; i < L.size(); ++i) for (LD q : { 0.25L, 0.5L, 0.99L }) {
        double l1 = double(q * L[i]), l2 = double(L[i] - l1);
        double a = D.Calculate(x, dir, l1), b = D.Calculate(c3(add(p, l1, d)), dir, l2);
        VK_CHECK(fabsl(LD(a) + b - C[i]) <= 3 * T[i] + 1e-12L * C[i], "additive", "%s %s: %.17g + %.17g != %.17g", P.tag.c_str(), R.name.c_str(), a, b, C[i]);
    }
    vk::outcome(vk::f("%s %s", P.k == HOM ? "hom" : P.ax.radial ? "radial" : "cartesian", exact ? "straight" : "curved"));
}
void vk_main()
{
    spdlog::set_level(spdlog::level::off);
    auto PR = profiles();
    // the atmosphere of the documentation and a tilted one
    PR.push_back({ EXP, { true, { 0, 0, 0 }, { 0, 0, 0 } }, 1.225e-3, { -10.4e5, 6.3781e8 }, {}, "atmosphere" });
    vk::bound(vk::f("%zu profiles (homogeneous, exponential, polynomial degree 0..3, linear and cubic spline x 5 axes), all rays of the lattice (10 cosines x azimuths x depths, coordinate axes), 7 path lengths x 3 cuts", PR.size()));
    for (auto& P : PR) {
        std::vector<Ray> RR;
        if (P.tag == "atmosphere") {
            for (double h : { 1e5, 1e6, 3e6 }) for (double c : { 1., -1., 0., -0.5, 0.9 })
                RR.push_back({ { 0, 0, 6.3781e8 + h }, { std::sqrt(1 - c * c), 0, c }, vk::f("h%g-cos%g", h, c) });
        } else RR = rays(P.ax, P.k == HOM);
        for (auto& R : RR) vk::cs(P.tag + "-" + R.name, [&] {
            auto D = P.make();
            if (P.tag == "atmosphere") {
                // depths far from 0..1000: only lengths of the order of a hundred metres
                auto x = c3(R.p), dir = c3(R.d);
                for (double l : { 0.0, 1., 1e2, 1e4, 1e5 }) {
                    LD ref = gauss([&](LD t) { return P.rho(add(R.p, t, R.d)); }, 0, l, 8);
                    LD s = P.slope(R.p, R.d), d0 = P.depth(R.p);
                    LD lin = gauss([&](LD t) { return P.rho_at(d0 + t * s); }, 0, l, 8);
                    double got = D->Calculate(x, dir, l);
                    VK_CHECK(fabsl(got - ref) <= 1e-9L * ref + 1.001L * fabsl(ref - lin), "column-depth", "atmosphere %s l=%g: %.17g want %.17Lg", R.name.c_str(), l, got, ref);
                }
                vk::outcome("atmosphere");
            } else ray(P, *D, R);
        });
        vk::cs(P.tag + "-json", [&] {
            auto D = P.make(), J = PROPOSAL::CreateDensityDistribution(P.js());
            for (auto& R : RR) for (double l : { 0.5, 3. })
                VK_CHECK(D->Calculate(c3(R.p), c3(R.d), l) == J->Calculate(c3(R.p), c3(R.d), l), "json-column-depth", "%s %s", P.tag.c_str(), R.name.c_str());
            vk::outcome("json");
        });
    }
    // starting at the origin of a radial axis
    for (auto& P : PR) if (P.ax.radial && P.tag != "atmosphere") vk::cs(P.tag + "-origin", [&] {
        auto D = P.make();
        Cartesian3D x(P.ax.o[0], P.ax.o[1], P.ax.o[2]);
        for (auto d : { Cartesian3D(1, 0, 0), Cartesian3D(0, 0.6, -0.8), Cartesian3D(0, 0, -1) }) for (double l : { 1e-3, 1., 50., 500. }) {
            LD ref = integral(P, [&](LD t) { return P.rho_at(t); }, 0, 1, l, 12);
            VK_CLOSE(D->Calculate(x, d, l), double(ref), 1e-9, 0, "radial-origin", "%s l=%g", P.tag.c_str(), l);
            VK_CLOSE(D->Correct(x, d, double(ref), 900), l, 1e-7, 2e-6, "radial-origin", "%s correct l=%g", P.tag.c_str(), l);
        }
        vk::outcome("origin");
    });
    for (double f : { 1., 0.5, 2.25 }) vk::cs(vk::f("medium-%g", f), [&] {
        auto m = PROPOSAL::CreateMedium("ice");
        PROPOSAL::Density_homogeneous h(*m, f);
        VK_CLOSE(h.Evaluate(Cartesian3D(1, 2, 3)), m->GetMassDensity() * f, 1e-15, 0, "medium-density", "factor %g", f);
        VK_CLOSE(h.Calculate(Cartesian3D(1, 2, 3), Cartesian3D(0, 0, 1), 4), 4 * m->GetMassDensity() * f, 1e-14, 0, "medium-density", "factor %g", f);
        PROPOSAL::CartesianAxis A;
        PROPOSAL::Density_exponential e(A, 3, 1, *m);
        PROPOSAL::Density_polynomial p(A, PROPOSAL::Polynom(V { 1, 2 }), *m);
        PROPOSAL::Density_splines s(A, PROPOSAL::Linear_Spline(V { 0, 1 }, V { 1, 3 }), *m);
        double r = m->GetMassDensity();
        VK_CLOSE(e.Evaluate(Cartesian3D(1, 0, 0)), r, 1e-14, 0, "medium-density", "exp");
        VK_CLOSE(p.Evaluate(Cartesian3D(0.5, 0, 0)), 2 * r, 1e-14, 0, "medium-density", "poly");
        VK_CLOSE(s.Evaluate(Cartesian3D(0.5, 0, 0)), 2 * r, 1e-14, 0, "medium-density", "spline");
    });
}
