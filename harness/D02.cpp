// vk: sources=density_distr/,math/Function,math/Spline,math/MathMethods,math/Cartesian3D,math/Spherical3D,math/Vector3D,Logging,methods,Constants,medium/
#include "dens.h"
using namespace dens;
using PROPOSAL::Density_distr;
using PROPOSAL::DensityException;

enum Res { VALUE, REFUSED, OTHER };
static Res correct(Density_distr const& D, Cartesian3D const& x, Cartesian3D const& d, double X, double m, double& out)
{
    try { out = D.Correct(x, d, X, m); return VALUE; }
    catch (DensityException const&) { return REFUSED; }
    catch (std::exception const& e) { vk::fail("other-exception", "%s", e.what()); return OTHER; }
}
static void ray(Prof const& P, Density_distr const& D, Ray const& R, LD lmax)
{
    V3 p = R.p, d = R.d;
    auto x = c3(p), dir = c3(d);
    LD d0 = P.depth(p), s = P.slope(p, d);
    bool exact = !P.ax.radial || P.k == HOM || is_radial_line(P, p, d);
    double got;
    for (double m : { 1e-3, 1., double(lmax) })
        if (m <= lmax) {
            auto r = correct(D, x, dir, 0, m, got);
            VK_CHECK(r == VALUE && fabs(got) <= 1e-6, "zero-grammage", "%s %s max %g: %d %g", P.tag.c_str(), R.name.c_str(), m, r, got);
        }
    for (LD q : { 1e-4L, 0.05L, 0.3L, 0.5L, 0.77L, 1.L }) {
        double l = double(q * lmax);
        LD X = integral(P, [&](LD t) { return exact ? P.rho(add(p, t, d)) : P.rho_at(d0 + t * s); }, d0, s, l, P.k == EXP ? 12 : 3);
        double Xd = D.Calculate(x, dir, l);
        LD rho_end = exact ? P.rho(add(p, l, d)) : P.rho_at(d0 + l * s);
        LD num = 2e-8L * X, a = 0;
        if (P.numeric()) { a = 3e-15L * P.antiscale(d0 + l * fabsl(s)); num += std::min(a / fabsl(s), a * l / (1e-7L * d0)); }
        for (LD w : { 1.L + 1e-4L, 1.5L, 3.L, 20.L, 0.L, -1.L, 0.999L, 0.5L }) {
            // maximum distance: beyond the target, the whole defined range, below the target
            double m = w > 0 ? double(w * l) : w == 0 ? double(lmax * 1.0000001L) : 1e20;
            if (m > lmax * 1.00001L && P.numeric()) {
                // beyond the range of definition only when the profile stays positive there
                bool ok = P.tag.substr(0, 5) == "poly0" || (P.tag.substr(0, 5) == "poly1" && s > -1e-12L) || (P.tag.substr(0, 5) == "poly3" && s > -1e-12L) || s == 0;
                if (!ok) continue;
            }
            auto r = correct(D, x, dir, double(X), m, got);
            if (m >= l * 1.00005L || (m > l && l > 1)) {
                LD tl = 2e-6L + 2 * num / rho_end + 1e-9L * l;
                VK_CHECK(r == VALUE, "refused-reachable", "%s %s: X=%Lg l=%g max %g", P.tag.c_str(), R.name.c_str(), X, l, m);
                if (r == VALUE) {
                    VK_CHECK(got >= 0 && fabsl(got - l) <= tl, "inverse", "%s %s: X=%Lg max %g: %.17g want %.17g tol %Lg", P.tag.c_str(), R.name.c_str(), X, m, got, l, tl);
                    double back = D.Calculate(x, dir, got);
                    VK_CHECK(fabsl(back - X) <= tl * rho_end * 2, "inverse-depth", "%s %s: depth of corrected distance %.17g want %.17Lg", P.tag.c_str(), R.name.c_str(), back, X);
                    vk::state(vk::hd(vk::hs(P.tag), got));
                }
                double g2;
                auto r2 = correct(D, x, dir, Xd, m, g2);
                VK_CHECK(r2 == VALUE && fabsl(g2 - l) <= tl, "round-trip", "%s %s: l=%g returns %g", P.tag.c_str(), R.name.c_str(), l, g2);
                vk::outcome("reached");
            } else if (m < l * 0.9995L) {
                // not reachable: refuse, or tell the true length (which exceeds the maximum)
                if (r == VALUE) VK_CHECK(got > m && fabsl(got - l) <= 1e-6L * l + 2e-6L, "beyond-maximum", "%s %s: l=%g max %g: %g", P.tag.c_str(), R.name.c_str(), l, m, got);
                vk::outcome(r == VALUE ? "true length beyond maximum" : "refused beyond maximum");
            }
        }
    }
    // an exponential profile that fades out along the ray has a finite total depth
    if (P.k == EXP && fabsl(s) > 1e-3L && s / P.a[0] < 0 && exact && !P.ax.radial) {
        LD total = P.rho(p) / fabsl(s / P.a[0]);
        for (double f : { 1. + 1e-6, 1.5, 1e6 }) {
            auto r = correct(D, x, dir, double(total * f), 1e20, got);
            VK_CHECK(r == REFUSED, "infinite", "%s %s: %g times the total depth gives %g", P.tag.c_str(), R.name.c_str(), f, got);
        }
        for (double f : { 0.5, 0.99, 0.999999 }) {
            auto r = correct(D, x, dir, double(total * f), 1e20, got);
            LD want = -logl(1 - f) / fabsl(s / P.a[0]);
            VK_CHECK(r == VALUE && fabsl(got - want) <= 1e-5L * want, "infinite", "%s %s: %g of the total depth gives %g want %Lg", P.tag.c_str(), R.name.c_str(), f, got, want);
        }
        vk::outcome("fading profile");
    }
}
void vk_main()
{
    spdlog::set_level(spdlog::level::off);
    auto PR = profiles();
    vk::bound(vk::f("%zu profiles x rays of the lattice x 6 targets x 8 maximum distances (beyond, at, below the target, 1e20)", PR.size()));
    for (auto& P : PR) for (auto& R : rays(P.ax, P.k == HOM))
        vk::cs(P.tag + "-" + R.name, [&] {
            LD lmax = defined(P, R.p, R.d);
            if (lmax <= 0) throw vk::Skip();
            auto D = P.make();
            ray(P, *D, R, lmax);
        });
}
