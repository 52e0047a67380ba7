// vk: sources=math/Function,math/Spline,math/MathMethods,Logging,methods,Constants
#include "vk.h"
#include "polyref.h"
#include "PROPOSAL/math/Function.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/math/Spline.h"
#include <memory>
#include <nlohmann/json.hpp>
#include <spdlog/spdlog.h>
using namespace PROPOSAL;
using nlohmann::json;
using namespace pr;
static const std::vector<double> X { -3.25, -1, -1e-3, 0, 1e-10, 0.5, 1, 2.75, 40 };

// ---------------------------------------------------------------- polynomials
struct PM { LP c; LD grow; }; // reference value and growth of coefficient errors
static void compare(Polynom& p, PM const& m, const char* key, std::string const& when)
{
    auto c = p.GetCoefficient();
    LD tot = 0;
    for (auto v : m.c) tot = std::max(tot, fabsl(v));
    VK_CHECK(c.size() == m.c.size(), key, "%s: %zu coefficients, want %zu", when.c_str(), c.size(), m.c.size());
    auto fn = p.GetFunction();
    for (double x : X) {
        LD want = ev(m.c, x), tol = 1e-13L * (sc(m.c, x) + m.grow * powl(1 + fabsl(x), m.c.size() ? m.c.size() - 1 : 0));
        double got = p.evaluate(x);
        VK_CHECK(fabsl(got - want) <= tol, key, "%s: p(%g)=%.17g want %.17Lg tol %Lg", when.c_str(), x, got, want, tol);
        VK_CHECK(fn(x) == got, key, "%s: function differs from evaluate at %g", when.c_str(), x);
    }
    uint64_t h = 3;
    for (auto v : c) h = vk::hd(h, v);
    vk::state(h);
}
static const std::vector<double> SH { -1.5, 2, 1e-3, 1e-12 };
static std::vector<std::string> polyops()
{
    std::vector<std::string> o;
    for (int s = 0; s < 2; ++s) {
        for (size_t i = 0; i < SH.size(); ++i) o.push_back(vk::f("shift%d.%zu", s, i));
        for (auto n : { "copy", "assign", "clone", "deriv", "anti", "self" }) o.push_back(vk::f("%s%d", n, s));
    }
    return o;
}
static void applyp(std::string const& o, std::unique_ptr<Polynom>* p, PM* m)
{
    int s = 0; for (char c : o) if (c == '0' || c == '1') { s = c - '0'; break; }
    int t = 1 - s;
    if (o[0] == 's' && o[1] == 'h') {
        double d = SH[std::stoi(o.substr(7))];
        p[s]->shift(d);
        LD g = 0; for (auto v : m[s].c) g += fabsl(v);
        m[s].grow = (m[s].grow + g) * powl(1 + fabsl(d), m[s].c.size());
        m[s].c = shf(m[s].c, d);
    } else if (o[0] == 'c' && o[1] == 'o') { p[t].reset(new Polynom(*p[s])); m[t] = m[s]; }
    else if (o[0] == 'a' && o[1] == 's') { *p[t] = *p[s]; m[t] = m[s]; }
    else if (o[0] == 'c') { p[t].reset(p[s]->clone()); m[t] = m[s]; }
    else if (o[0] == 'd') { *p[s] = p[s]->GetDerivative(); m[s].grow *= m[s].c.size(); m[s].c = der(m[s].c); }
    else if (o[0] == 'a') { *p[s] = p[s]->GetAntiderivative(0.75); m[s].c = anti(m[s].c, 0.75); }
    else { auto& r = *p[s]; *p[s] = r; }
}
static bool differ(LP const& a, LP const& b)
{
    if (a.size() != b.size()) return true;
    for (size_t i = 0; i < a.size(); ++i) if (fabsl(a[i] - b[i]) > 1e-6L * (1 + fabsl(a[i]))) return true;
    return false;
}
static bool same(LP const& a, LP const& b) { return a == b; }
static void polys()
{
    std::vector<std::vector<double>> A { { 2.5 }, { 0, 1 }, { 1, -2, 0.5 }, { 0.25, 0, 0, -3 }, { 1, 1, 1, 1, 1, 1 }, { 0 } };
    auto O = polyops();
    int depth = vk::thorough() ? 5 : 4;
    vk::bound(vk::f("polynomials: all sequences of length <= %d of %zu operations on pairs of %zu polynomials", depth, O.size(), A.size()));
    for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A.size(); ++j) for (size_t k = 0; k < O.size(); ++k) {
        if (!vk::thorough() && (i + j) % 2) continue;
        vk::cs(vk::f("poly-%zu-%zu-%s", i, j, O[k].c_str()), [&] {
            std::vector<size_t> seq { k };
            std::function<void()> rec = [&] {
                std::unique_ptr<Polynom> p[2] { std::unique_ptr<Polynom>(new Polynom(A[i])), std::unique_ptr<Polynom>(new Polynom(A[j])) };
                PM m[2] { { LP(A[i].begin(), A[i].end()), 0 }, { LP(A[j].begin(), A[j].end()), 0 } };
                std::string name;
                for (auto q : seq) { name += O[q] + " "; applyp(O[q], p, m); }
                for (int s = 0; s < 2; ++s) compare(*p[s], m[s], "polynomial-value", name + vk::f("[%d]", s));
                if (same(m[0].c, m[1].c) && m[0].grow == m[1].grow && O[seq.back()][0] == 'c')
                    VK_CHECK(*p[0] == *p[1] && !(*p[0] != *p[1]), "polynomial-equality", "%s: copy not equal", name.c_str());
                if (differ(m[0].c, m[1].c))
                    VK_CHECK(!(*p[0] == *p[1]) && *p[1] != *p[0], "polynomial-equality", "%s: different compare equal", name.c_str());
                if (int(seq.size()) < depth) for (size_t q = 0; q < O.size(); ++q) { seq.push_back(q); rec(); seq.pop_back(); }
            };
            rec();
            vk::outcome("polynomial histories");
        });
    }
    // single operations on a wide lattice
    std::vector<std::vector<double>> B = A;
    B.insert(B.end(), { { 0, 0, 0, 1 }, { 3, 1e-8, 1e12 }, { -1e-5, 4e3 }, { 7, 0, 0 }, { 1, 2, 3, 4, 5, 6, 7, 8, 9 } });
    for (size_t i = 0; i < B.size(); ++i)
        for (double d : { 0., 1e-200, 1e-12, -1e-9, 2e-9, -1e-5, 0.5, -1., 3., -17.5, 1e4, -6.4e8 })
            vk::cs(vk::f("shift-%zu-%g", i, d), [&] {
                Polynom p(B[i]), q(p);
                p.shift(d);
                LP m(B[i].begin(), B[i].end()), w = shf(m, d), a;
                for (auto v : m) a.push_back(fabsl(v));
                a = shf(a, fabsl(d));
                auto c = p.GetCoefficient();
                for (size_t k = 0; k < w.size(); ++k)
                    VK_CHECK(fabsl(c[k] - w[k]) <= 1e-13L * a[k] + 1e-300L, "shift", "coefficient %zu: %.17g want %.17Lg", k, c[k], w[k]);
                VK_CHECK(q.GetCoefficient() == B[i], "shift", "copy changed by shift of original");
                p = Polynom(B[i]); auto dd = p.GetDerivative(), aa = p.GetAntiderivative(d);
                VK_CHECK(aa.GetCoefficient()[0] == d, "antiderivative", "constant %g", aa.GetCoefficient()[0]);
                LP dm = der(m), am = anti(m, d);
                for (double x : X) {
                    VK_CHECK(fabsl(dd.evaluate(x) - ev(dm, x)) <= 1e-14L * sc(dm, x), "derivative", "at %g: %g want %Lg", x, dd.evaluate(x), ev(dm, x));
                    VK_CHECK(fabsl(aa.evaluate(x) - ev(am, x)) <= 1e-14L * sc(am, x), "antiderivative", "at %g: %g want %Lg", x, aa.evaluate(x), ev(am, x));
                }
                json j; j["coefficients"] = B[i];
                Polynom pj(j);
                VK_CHECK(pj == p && pj.GetCoefficient() == B[i], "json", "polynomial from JSON differs");
                vk::outcome("single operations");
            });
    vk::cs("poly-json-invalid", [&] {
        for (auto s : { "{}", "[]", "{\"coefficients\":3}", "{\"coefficients\":[\"a\"]}", "{\"coefficient\":[1]}" })
            VK_CHECK(vk::throws([&] { Polynom p(json::parse(s)); }), "json", "accepted %s", s);
    });
    for (size_t i = 0; i < B.size(); ++i) for (size_t j = 0; j < B.size(); ++j)
        vk::cs(vk::f("poly-eq-%zu-%zu", i, j), [&] {
            Polynom p(B[i]), q(B[j]);
            VK_CHECK((p == q) == (B[i] == B[j]) && (p != q) == (B[i] != B[j]), "polynomial-equality", "wrong");
        });
}

// -------------------------------------------------------------------- splines
static LD gscale(SM const& m, double t)
{
    // magnitude of the terms of the pieces written as global polynomials
    LD r = 0;
    for (size_t i = 0; i < m.p.size(); ++i) {
        auto g = m.p[i];
        for (auto& v : g) v = fabsl(v);
        r = std::max(r, ev(g, fabsl(LD(t)) + fabsl(LD(m.x[i]))));
    }
    return r;
}
static std::vector<double> args(std::vector<double> const& x)
{
    std::vector<double> r;
    for (size_t i = 0; i + 1 < x.size(); ++i) for (double q : { 0., 0.25, 0.5, 0.9375 }) r.push_back(x[i] + q * (x[i + 1] - x[i]));
    r.push_back(x.back());
    return r;
}
static void compare(Spline& s, SM const& m, const char* key, std::string const& when, LD slack)
{
    auto dom = s.GetDomain();
    VK_CHECK(dom.first == m.x.front() && dom.second == m.x.back(), key, "%s: domain %g %g", when.c_str(), dom.first, dom.second);
    VK_CHECK(s.GetSubintervalls() == m.x && s.GetNumberIntervalls() == m.p.size() && s.GetFunctions().size() == m.p.size(), key, "%s: intervals", when.c_str());
    uint64_t h = 5;
    for (double t : args(m.x)) {
        double got = s.evaluate(t);
        LD tol = 4e-14L * slack * gscale(m, t), bestd = INFINITY, want = 0;
        for (size_t i = 0; i < m.p.size(); ++i) if (m.x[i] <= t && t <= m.x[i + 1]) {
            LD w = ev(m.p[i], LD(t) - m.x[i]);
            if (fabsl(w - got) < bestd) { bestd = fabsl(w - got); want = w; }
        }
        VK_CHECK(bestd <= tol, key, "%s: s(%g)=%.17g want %.17Lg tol %Lg", when.c_str(), t, got, want, tol);
        h = vk::hd(h, got);
    }
    vk::state(h);
}
static std::unique_ptr<Spline> make(bool cub, std::vector<double> const& x, std::vector<double> const& y)
{
    if (cub) return std::unique_ptr<Spline>(new Cubic_Spline(x, y));
    return std::unique_ptr<Spline>(new Linear_Spline(x, y));
}
static std::unique_ptr<Spline> load(bool cub, std::string const& f, bool bin)
{
    if (cub) return std::unique_ptr<Spline>(new Cubic_Spline(f, bin));
    return std::unique_ptr<Spline>(new Linear_Spline(f, bin));
}
static std::unique_ptr<Spline> copy(bool cub, Spline const& s)
{
    if (cub) return std::unique_ptr<Spline>(new Cubic_Spline(static_cast<Cubic_Spline const&>(s)));
    return std::unique_ptr<Spline>(new Linear_Spline(static_cast<Linear_Spline const&>(s)));
}
static std::string file(const char* tag) { return vk::f("sp_%d_%s", int(getpid()), tag); }
static void splines()
{
    struct D { std::vector<double> x, y; };
    std::vector<D> A { { { 0, 1, 2 }, { 1, 2, 3 } }, { { -1, 0.5, 4, 4.5 }, { 0.1, -2, 0.3, 1. / 3 } }, { { 10, 20.5, 30 }, { 1e-3, 1.23456789e-3, 5 } } };
    std::vector<D> W = A;
    W.insert(W.end(), { { { 0, 1 }, { 1, -1 } }, { { 1e3, 1.1e3, 2e3, 2.5e3, 6e3 }, { 0, 1, 4, 2, 2 } }, { { -5, -3, -2, -1, 0, 1, 7 }, { 1, 1, 1, 1, 1, 1, 1 } },
        { { 0, 1e-6, 3e-6 }, { 2, 5, 1 } }, { { 0.125, 1. / 3, 2. / 3, 1 }, { M_PI, M_E, M_SQRT2, 1e-7 } } });
    std::vector<std::string> O;
    for (int s = 0; s < 2; ++s) for (auto n : { "deriv", "anti", "text", "bin", "copy", "clone", "assign" }) O.push_back(vk::f("%s%d", n, s));
    int depth = vk::thorough() ? 5 : 4;
    vk::bound(vk::f("splines: all sequences of length <= %d of %zu operations on pairs of %zu data sets, linear and cubic", depth, O.size(), A.size()));
    for (int cub = 0; cub < 2; ++cub) for (size_t i = 0; i < A.size(); ++i) for (size_t k = 0; k < O.size(); ++k)
        vk::cs(vk::f("spline-%d-%zu-%s", cub, i, O[k].c_str()), [&] {
            size_t j = (i + 1) % A.size();
            std::vector<size_t> seq { k };
            std::function<void()> rec = [&] {
                std::unique_ptr<Spline> s[2] { make(cub, A[i].x, A[i].y), make(cub, A[j].x, A[j].y) };
                SM m[2] { cub ? cubic(A[i].x, A[i].y) : linear(A[i].x, A[i].y), cub ? cubic(A[j].x, A[j].y) : linear(A[j].x, A[j].y) };
                std::string name;
                for (auto q : seq) {
                    auto& o = O[q]; name += o + " ";
                    int a = o.back() - '0', b = 1 - a;
                    if (o[0] == 'd') { s[a]->Derivative(); m[a] = sder(m[a]); }
                    else if (o[0] == 'a' && o[1] == 'n') { s[a]->Antiderivative(-0.5); m[a] = santi(m[a], -0.5); }
                    else if (o[0] == 't' || o[0] == 'b') {
                        bool bin = o[0] == 'b';
                        auto fn = file("h");
                        VK_CHECK(s[a]->save(fn, bin), "spline-storage", "save refused");
                        auto r = load(cub, fn, bin);
                        VK_CHECK(*r == *s[a], "spline-storage", "%s: loaded spline differs", name.c_str());
                        s[a] = std::move(r);
                        std::remove((fn + (bin ? ".bin" : ".txt")).c_str());
                    } else if (o[0] == 'c' && o[1] == 'o') { s[b] = copy(cub, *s[a]); m[b] = m[a]; }
                    else if (o[0] == 'c') { s[b].reset(s[a]->clone()); m[b] = m[a]; }
                    else {
                        if (cub) static_cast<Cubic_Spline&>(*s[b]) = static_cast<Cubic_Spline&>(*s[a]);
                        else static_cast<Linear_Spline&>(*s[b]) = static_cast<Linear_Spline&>(*s[a]);
                        m[b] = m[a];
                    }
                }
                for (int a = 0; a < 2; ++a) compare(*s[a], m[a], "spline-value", name + vk::f("[%d]", a), 10);
                if (O[seq.back()][0] == 'c') VK_CHECK(*s[0] == *s[1] && !(*s[0] != *s[1]), "spline-equality", "%s: copy unequal", name.c_str());
                bool diff = m[0].x != m[1].x || differ(m[0].p[0], m[1].p[0]);
                if (diff) VK_CHECK(!(*s[0] == *s[1]) && *s[1] != *s[0], "spline-equality", "%s: different compare equal", name.c_str());
                if (int(seq.size()) < depth) for (size_t q = 0; q < O.size(); ++q) { seq.push_back(q); rec(); seq.pop_back(); }
            };
            rec();
            vk::outcome("spline histories");
        });
    for (int cub = 0; cub < 2; ++cub) for (size_t i = 0; i < W.size(); ++i)
        vk::cs(vk::f("spline-fresh-%d-%zu", cub, i), [&] {
            auto& d = W[i];
            auto s = make(cub, d.x, d.y);
            SM m = cub ? cubic(d.x, d.y) : linear(d.x, d.y);
            compare(*s, m, "spline-value", "fresh", 10);
            auto P = s->GetFunctions();
            for (size_t k = 0; k < d.x.size(); ++k) {
                LD tol = 1e-12L * gscale(m, d.x[k]);
                VK_CHECK(fabsl(s->evaluate(d.x[k]) - d.y[k]) <= tol, "spline-support", "s(%g)=%.17g want %g", d.x[k], s->evaluate(d.x[k]), d.y[k]);
                if (k && k + 1 < d.x.size()) {
                    VK_CHECK(fabsl(P[k - 1].evaluate(d.x[k]) - P[k].evaluate(d.x[k])) <= 2 * tol, "spline-continuity", "jump at %g", d.x[k]);
                    if (cub) {
                        auto D0 = P[k - 1].GetDerivative(), D1 = P[k].GetDerivative();
                        SM dm = sder(m);
                        VK_CHECK(fabsl(D0.evaluate(d.x[k]) - D1.evaluate(d.x[k])) <= 1e-11L * gscale(dm, d.x[k]), "spline-continuity", "slope jump at %g", d.x[k]);
                    }
                }
            }
            // outside of the domain: first and last piece
            double lo = d.x.front() - 0.5 * (d.x[1] - d.x[0]), hi = d.x.back() + 0.25 * (d.x[1] - d.x[0]);
            VK_CLOSE(s->evaluate(lo), P.front().evaluate(lo), 1e-12, 0, "spline-outside", "below");
            VK_CLOSE(s->evaluate(hi), P.back().evaluate(hi), 1e-12, 0, "spline-outside", "above");
            json j; j["x"] = d.x; j["y"] = d.y;
            std::unique_ptr<Spline> sj, sp;
            if (cub) { sj.reset(new Cubic_Spline(j)); sp.reset(new Cubic_Spline(P, d.x)); }
            else { sj.reset(new Linear_Spline(j)); sp.reset(new Linear_Spline(P, d.x)); }
            VK_CHECK(*sj == *s && *sp == *s, "spline-equality", "from JSON or pieces differs");
            compare(*sj, m, "spline-value", "json", 10);
            compare(*sp, m, "spline-value", "pieces", 10);
            for (double c : { 0., -2.5, 1e3 }) {
                auto a = std::unique_ptr<Spline>(s->clone());
                a->Antiderivative(c);
                VK_CHECK(fabsl(a->evaluate(d.x[0]) - c) <= 1e-12L * gscale(santi(m, c), d.x[0]), "spline-antiderivative", "constant");
                compare(*a, santi(m, c), "spline-antiderivative", "anti", 30);
                a->Derivative();
                compare(*a, m, "spline-antiderivative", "anti+deriv", 30);
                compare(*s, m, "spline-value", "original after antiderivative of clone", 10);
            }
            auto dd = std::unique_ptr<Spline>(s->clone());
            dd->Derivative();
            compare(*dd, sder(m), "spline-derivative", "deriv", 30);
            for (bool bin : { false, true }) {
                auto fn = file("f");
                s->save(fn, bin);
                auto r = load(cub, fn, bin);
                VK_CHECK(*r == *s, "spline-storage", "loaded spline differs (binary %d)", bin);
                for (double t : args(d.x)) VK_CHECK(r->evaluate(t) == s->evaluate(t), "spline-storage", "value at %g", t);
                std::remove((fn + (bin ? ".bin" : ".txt")).c_str());
            }
            if (cub && d.x.size() > 2) {
                auto c = CalculateSpline(d.x, d.y);
                VK_CHECK(c.size() == m.p.size(), "calculate-spline", "pieces");
                for (size_t k = 0; k < c.size(); ++k) {
                    auto g = c[k].GetSpline();
                    VK_CHECK(g.first == d.x[k] && g.second.size() == 4, "calculate-spline", "start");
                    LP q(g.second.begin(), g.second.end());
                    LD h = LD(d.x[k + 1]) - d.x[k], tot = 0;
                    for (auto v : d.y) tot = std::max(tot, fabsl(v));
                    for (LD u : { 0.L, 0.5L, 1.L }) VK_CHECK(fabsl(ev(q, u * h) - ev(m.p[k], u * h)) <= 1e-12L * (tot + sc(m.p[k], h)), "calculate-spline", "piece %zu", k);
                }
            }
            vk::outcome("fresh splines");
        });
    vk::cs("spline-json-invalid", [&] {
        for (auto s : { "{}", "{\"x\":[1,2]}", "{\"y\":[1,2]}", "{\"x\":[1,2],\"y\":[1,2,3]}", "{\"x\":1,\"y\":[1,2]}", "{\"x\":[1,2],\"y\":\"a\"}" })
            VK_CHECK(vk::throws([&] { Linear_Spline p(json::parse(s)); }) && vk::throws([&] { Cubic_Spline p(json::parse(s)); }), "json", "accepted %s", s);
    });
}
void vk_main()
{
    spdlog::set_level(spdlog::level::off);
    polys();
    splines();
}
