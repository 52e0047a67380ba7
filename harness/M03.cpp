// vk: sources=math/MathMethods,Logging,methods,Constants
#include "vk.h"
#include "PROPOSAL/math/MathMethods.h"
#include <spdlog/spdlog.h>
using namespace PROPOSAL;
typedef long double LD;

struct Fn { const char* n; std::function<double(double)> f, df; double root; int mult; };
static std::vector<Fn> functions(double r, double s)
{
    // continuous functions with one change of sign, at r, slope scale s
    return {
        { "linear", [=](double x) { return s * (x - r); }, [=](double) { return s; }, r, 1 },
        { "cubic", [=](double x) { return s * std::pow(x - r, 3); }, [=](double x) { return 3 * s * std::pow(x - r, 2); }, r, 3 },
        { "cubic+linear", [=](double x) { return s * (std::pow(x - r, 3) + 0.5 * (x - r)); }, [=](double x) { return s * (3 * std::pow(x - r, 2) + 0.5); }, r, 1 },
        { "expm1", [=](double x) { return s * std::expm1(x - r); }, [=](double x) { return s * std::exp(x - r); }, r, 1 },
        { "atan", [=](double x) { return s * std::atan(5 * (x - r)); }, [=](double x) { return s * 5 / (1 + 25 * (x - r) * (x - r)); }, r, 1 },
        { "kink", [=](double x) { return s * (x > r ? 10 * (x - r) : 0.1 * (x - r)); }, [=](double x) { return s * (x > r ? 10 : 0.1); }, r, 1 },
        { "cbrt", [=](double x) { return s * std::cbrt(x - r); }, [=](double x) { return s / 3 / std::pow(std::cbrt(x - r), 2); }, r, 1 },
        { "wiggle", [=](double x) { return s * ((x - r) + 0.9 * std::sin(x - r) / 1); }, [=](double x) { return s * (1 + 0.9 * std::cos(x - r)); }, r, 1 },
        { "plateau", [=](double x) { return s * (x < r - 0.1 ? -0.1 : x > r + 0.1 ? 0.1 : x - r); }, [=](double x) { return std::fabs(x - r) <= 0.1 ? s : 0; }, r, 1 },
    };
}
static LD Phi(LD z) { return 0.5L * erfcl(-z / sqrtl(2)); }
static LD Q(LD z) { return 0.5L * erfcl(z / sqrtl(2)); }
static LD pdf(LD z) { return expl(-z * z / 2) / sqrtl(2 * 3.14159265358979323846L); }
static std::vector<double> unit()
{
    std::vector<double> u { 1e-300, 1e-100, 1e-20, 1e-16, 1e-12, 1e-9, 1e-6, 1e-4, 0.02424999, 0.02425, 0.02425001, 0.5, 1 - 0.02425001, 1 - 0.02425, 1 - 0.0242499, 1 - 1e-4, 1 - 1e-6, 1 - 1e-9, 1 - 1e-12, 1 - 1e-15, 1 - 1.2e-16 };
    int n = vk::thorough() ? 1 << 16 : 1 << 12;
    for (int i = 1; i < n; ++i) u.push_back(double(i) / n);
    std::sort(u.begin(), u.end());
    return u;
}
void vk_main()
{
    spdlog::set_level(spdlog::level::off);
    std::vector<double> roots { 0, 0.5, 3, -7.25, 1e-3 }, slopes { 1, -2.5, 1e-6, 1e8 };
    std::vector<std::pair<double, double>> brackets { { 1, 1 }, { 0.1, 3 }, { 5, 0.01 }, { 0, 2 }, { 2, 0 }, { 100, 40 }, { 1e3, 1e4 } };
    vk::bound(vk::f("root finders: 9 functions x %zu roots x %zu slopes x %zu brackets (also exchanged limits and roots on a limit) x start values x tolerances", roots.size(), slopes.size(), brackets.size()));
    for (double r : roots) for (double s : slopes) for (size_t k = 0; k < functions(r, s).size(); ++k) for (auto& b : brackets) {
        vk::cs(vk::f("root-%s-%g-%g-(%g,%g)", functions(r, s)[k].n, r, s, b.first, b.second), [&] {
            auto F = functions(r, s)[k];
            double lo = r - b.first, hi = r + b.second;
            if (!std::isfinite(F.f(hi))) throw vk::Skip();
            for (double acc : { 1e-3, 1e-6, 1e-9 }) {
                for (int sw = 0; sw < 2; ++sw) {
                    auto p = sw ? Bisection(F.f, hi, lo, acc, 100) : Bisection(F.f, lo, hi, acc, 100);
                    VK_CHECK(p.first <= p.second && p.second - p.first < acc, "bisection-width", "[%g,%g] acc %g", p.first, p.second, acc);
                    VK_CHECK(p.first >= lo && p.second <= hi, "bisection-interval", "[%g,%g] outside [%g,%g]", p.first, p.second, lo, hi);
                    VK_CHECK(p.first - 1e-15 <= r + 1e-15 && p.second + 1e-15 >= r - 1e-15, "bisection-root", "[%.17g,%.17g] misses %g", p.first, p.second, r);
                    vk::state(vk::hd(vk::hd(1, p.first), p.second));
                }
                for (double q : { 0.5, 0., 1., 0.25, 0.9, -1. }) for (int sw = 0; sw < 2; ++sw) {
                    double start = q < 0 ? r : lo + q * (hi - lo);
                    if (start < lo || start > hi) continue;
                    double x = sw ? NewtonRaphson(F.f, F.df, hi, lo, start, 200, acc) : NewtonRaphson(F.f, F.df, lo, hi, start, 200, acc);
                    VK_CHECK(x >= lo - acc && x <= hi + acc, "newton-interval", "%g outside [%g,%g]", x, lo, hi);
                    VK_CHECK(std::fabs(x - r) <= 4 * F.mult * acc + 1e-15, "newton-root", "start %g acc %g exchanged %d: %.17g want %g", start, acc, sw, x, r);
                    vk::state(vk::hd(2, x));
                }
            }
            // default accuracy
            VK_CHECK(std::fabs(NewtonRaphson(F.f, F.df, lo, hi, 0.5 * (lo + hi)) - r) <= 4e-6 * F.mult, "newton-root", "default accuracy");
            // no change of sign
            if (F.f(hi) != 0) {
                double far = hi + 1;
                VK_CHECK(vk::throws([&] { NewtonRaphson(F.f, F.df, hi, far, far); }), "newton-refusal", "no root in [%g,%g] accepted", hi, far);
                VK_CHECK(vk::throws([&] { Bisection(F.f, hi, far, 1e-6, 100); }), "bisection-refusal", "no root in [%g,%g] accepted", hi, far);
                try { NewtonRaphson(F.f, F.df, hi, far, far); } catch (MathException const&) { } catch (...) { vk::fail("newton-refusal", "other exception"); }
                try { Bisection(F.f, far, hi, 1e-6, 100); } catch (MathException const&) { } catch (...) { vk::fail("bisection-refusal", "other exception"); }
            }
            if (F.f(lo) != 0) {
                double far = lo - 3;
                VK_CHECK(vk::throws([&] { NewtonRaphson(F.f, F.df, far, lo, far); }), "newton-refusal", "no root in [%g,%g] accepted", far, lo);
                VK_CHECK(vk::throws([&] { Bisection(F.f, lo, far, 1e-6, 100); }), "bisection-refusal", "no root in [%g,%g] accepted", far, lo);
            }
            vk::outcome(std::string("root of ") + F.n);
        });
    }
    auto U = unit();
    vk::bound(vk::f("normal quantile and samplers: %zu random numbers incl. 1e-300 and 1-1.2e-16; (mean, sigma, min, max) tuples incl. limits in the far tails", U.size()));
    vk::cs("normalppf", [&] {
        double last = -INFINITY;
        for (double p : U) {
            double x = normalppf(p);
            LD err = p < 0.5 ? Phi(x) - p : (1 - LD(p)) - Q(x);
            VK_CHECK(std::fabs(double(err)) <= 3e-16 + 0 * p && std::isfinite(x), "normalppf", "p=%.17g: %.17g is off by %Lg in p", p, x, err);
            if (p < 0.5) VK_CHECK(fabsl(err) <= 1e-8L * p, "normalppf-tail", "p=%g: relative error %Lg", p, err / p);
            VK_CHECK(x >= last - 1e-15 || p > 1 - 1e-14, "normalppf-monotone", "p=%.17g", p);
            last = x;
            if (p > 0.01 && p < 0.5) VK_CLOSE(normalppf(1 - p), -x, 1e-12, 1e-12, "normalppf-symmetry", "p=%g", p);
        }
        VK_CHECK(normalppf(0.5) == 0, "normalppf", "median %g", normalppf(0.5));
        vk::outcome("normal quantile");
    });
    for (double m : { 0., 5., -3e3, 1e6 }) for (double sg : { 1., 0.25, 1e3, 1e-6 })
        for (auto& L : std::vector<std::pair<double, double>> { { -INFINITY, INFINITY }, { -1, 2 }, { 0, INFINITY }, { -INFINITY, 0.5 }, { 3, 4 }, { -7, -6.5 }, { -20, 30 }, { 9, 10 }, { -40, -39 }, { 0, 1e-9 }, { -9, 0 }, { -1, 0 } })
            vk::cs(vk::f("gauss-%g-%g-(%g,%g)", m, sg, L.first, L.second), [&] {
                double mn = m + L.first * sg, mx = m + L.second * sg, last = -INFINITY;
                bool inf = std::isinf(L.first) && std::isinf(L.second);
                double zl = (mn - m) / sg, zh = (mx - m) / sg;
                LD lo = Phi(zl), hi = Phi(zh);
                auto V = U; if (!inf) { V.push_back(1 - 1e-17); V.insert(V.begin(), 0.); }
                for (double u : V) {
                    double x = inf ? SampleFromGaussian(m, sg, u) : SampleFromGaussian(m, sg, u, mn, mx);
                    if (u > 0 && u < 1) VK_CHECK(std::isfinite(x), "gauss-limits", "u=%g: %g", u, x);
                    VK_CHECK(x >= mn && x <= mx, "gauss-limits", "u=%.17g: %.17g not in [%.17g,%.17g]", u, x, mn, mx);
                    LD target = lo + (hi - lo) * u, z = (LD(x) - m) / sg;
                    LD tol = 1e-15L + pdf(z) * 4e-16L * (fabsl(m) / sg + fabsl(z) + 1) * 3;
                    // limits which are not resolved in double precision collapse onto one of the limits
                    VK_CHECK(fabsl(Phi(z) - target) <= tol, "gauss-inverse", "u=%.17g: %.17g has share %.17Lg want %.17Lg", u, x, Phi(z), target);
                    VK_CHECK(x >= last - 1e-14 * (fabs(m) + sg) || u > 1 - 1e-14, "gauss-monotone", "u=%.17g", u);
                    last = x;
                    if (vk::ctx().states.size() < 100000) vk::state(vk::hd(3, x));
                }
                vk::outcome("gaussian");
            });
    for (double m : { 0., -2.5, 1e8 }) vk::cs(vk::f("gauss-sigma0-%g", m), [&] {
        for (double u : U) VK_CHECK(SampleFromGaussian(m, 0, u) == m && SampleFromGaussian(m, 0, u, m - 1, m + 1) == m, "gauss-sigma0", "u=%g", u);
    });
    for (double l : { 1., 1e-6, 37.5, 1e10 }) vk::cs(vk::f("exponential-%g", l), [&] {
        double last = 0;
        VK_CHECK(SampleFromExponential(0, l) == 0, "exponential", "p=0");
        for (double u : U) {
            double x = SampleFromExponential(u, l);
            VK_CHECK(std::isfinite(x) && x >= last, "exponential-monotone", "p=%g: %g", u, x);
            VK_CHECK(fabsl(expm1l(-LD(l) * x) + u) <= 1e-15L * u + 2e-16L * (-log1pl(-u)) * (1 - u) + l * 1e-323L, "exponential-inverse", "p=%.17g: %.17g", u, x);
            last = x;
        }
        vk::outcome("exponential");
    });
    // dilogarithm: -int_0^x log(1-t)/t dt (real part for x > 1)
    for (int i = -60; i <= 60; ++i) vk::cs(vk::f("dilog-%d", i), [&] {
        LD PI = 3.14159265358979323846264338327950288L;
        std::function<LD(LD)> ser = [&](LD x) -> LD { // |x| <= 1/2 : defining series
            LD s = 0, p = 1;
            for (int k = 1; k < 80; ++k) { p *= x; s += p / (LD(k) * k); }
            return s;
        };
        auto quad = [&](LD a, LD b) { // smooth part by Simpson with many panels
            // in the logarithm of the argument
            LD la = logl(fabsl(a)), lb = logl(fabsl(b)); if (a < 0) { la = -la; lb = -lb; }
            int n = 4000; LD h = (lb - la) / n, s = 0;
            auto g = [&](LD u) { LD t = a < 0 ? -expl(-u) : expl(u); return (a < 0 ? 1 : -1) * logl(fabsl(1 - t)); };
            for (int k = 0; k < n; ++k) s += (g(la + k * h) + 4 * g(la + (k + 0.5L) * h) + g(la + (k + 1) * h)) * h / 6;
            return s;
        };
        for (double x : { i * 0.05, i * 0.37, double(i) * i * i * 0.01 + 0.003 }) {
            LD want;
            if (fabs(x) <= 0.5) want = ser(x);
            else if (x < -0.5) want = ser(-0.5L) - quad(x, -0.5L);
            else if (x == 1) want = PI * PI / 6;
            else if (x < 0.95) want = ser(0.5L) + quad(0.5L, x);
            else if (x < 1) want = PI * PI / 6 - logl(x) * log1pl(-LD(x)) - ser(1 - LD(x));
            else if (x <= 2) want = PI * PI / 6 + 0.5L * 0 - (logl(x) * (logl(1 - 1 / LD(x)) + 0.5L * logl(x))) + ser(1 - 1 / LD(x));
            else want = PI * PI / 4 + quad(2, x); // Li2(2) = pi^2/4
            VK_CLOSE(dilog(x), double(want), 1e-11, 1e-12, "dilog", "x=%.17g", x);
        }
        vk::outcome("dilogarithm");
    });
    for (int n : { 1, 2, 10 }) vk::cs(vk::f("welford-%d", n), [&] {
        std::vector<double> d { 1.5, -2, 7, 7, 0.25, 100, -31, 4, 5, 6 };
        double mean = 0, cov = 0; LD s = 0, s2 = 0;
        for (int k = 1; k <= n; ++k) {
            unsigned it = k;
            auto r = welfords_online_algorithm(d[k - 1], it, mean, cov);
            mean = r.first; cov = r.second;
            s += d[k - 1]; s2 += LD(d[k - 1]) * d[k - 1];
            VK_CLOSE(mean, double(s / k), 1e-12, 1e-12, "welford", "mean of %d", k);
            VK_CLOSE(cov, double(s2 / k - (s / k) * (s / k)), 1e-10, 1e-10, "welford", "variance of %d", k);
        }
    });
}
