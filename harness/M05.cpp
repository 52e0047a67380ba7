// vk: sources=math/Interpolant,Constants,Logging,methods flavor=asan shards=8 limit=700
#include "vk.h"
#include "PROPOSAL/math/Interpolant.h"
#include "PROPOSAL/math/InterpolantBuilder.h"
#include <memory>
#include <sys/stat.h>
using namespace PROPOSAL;
typedef std::unique_ptr<Interpolant> P;

struct Cfg { int max; double lo, hi; int romb; bool rat, log; int rombY; bool ratY, sub; };
static P make1(Cfg const& c, std::function<double(double)> f)
{
    return P(new Interpolant(c.max, c.lo, c.hi, f, c.romb, c.rat, false, c.log, c.rombY, c.ratY, false, c.sub));
}
static std::string cid(Cfg const& c)
{
    return vk::f("n%d[%g,%g]r%d%s%s/Y%d%s%s", c.max, c.lo, c.hi, c.romb, c.rat ? "R" : "", c.log ? "L" : "", c.rombY, c.ratY ? "R" : "", c.sub ? "S" : "");
}
static std::vector<double> args(Cfg const& c, int n)
{
    std::vector<double> v;
    for (int i = 0; i <= n; ++i) {
        double t = double(i) / n;
        v.push_back(c.log ? c.lo * std::pow(c.hi / c.lo, t) : c.lo + t * (c.hi - c.lo));
    }
    return v;
}

static void one()
{
    std::vector<Cfg> cfgs;
    for (int max : { 3, 4, 5, 8, 20, 50 })
        for (int romb : { 1, 2, 3, 4, 5 })
            for (int log = 0; log < 2; ++log)
                for (int sub = 0; sub < 2; ++sub)
                    for (int rat = 0; rat < 2; ++rat)
                        for (auto& l : std::vector<std::pair<double, double>> { { 1, 3 }, { 0.01, 20 }, { 100, 1e5 }, { -2, 2 } }) {
                            if (log && l.first <= 0) continue;
                            if (romb > max) continue;
                            cfgs.push_back({ max, l.first, l.second, romb, rat != 0, log != 0, std::max(romb, 2), false, sub != 0 });
                        }
    if (vk::thorough()) {
        auto base = cfgs;
        for (auto c : base) if (c.max == 50) { c.max = 173; cfgs.push_back(c); }
    }
    vk::bound(vk::f("one-dimensional tables: %zu shapes x all polynomials of the basis below the order, zero regions, inverses", cfgs.size()));
    for (auto& c : cfgs) vk::cs("one/" + cid(c), [&] {
        auto tr = [&](double x) { return c.log ? std::log(x) : x; };
        double a = tr(c.lo), b = tr(c.hi);
        // polynomials in the transformed variable, of a degree that is reproduced
        for (int deg = 0; deg < std::max(c.romb, 2); ++deg)
            for (int sg : { 1, -1 }) {
                auto poly = [=](double x) {
                    double t = (tr(x) - a) / (b - a);
                    double s = 0;
                    for (int d = deg; d >= 0; --d) s = s * t + (d + 1) * 0.7;
                    return c.sub ? std::exp(sg * s) : sg * s;
                };
                auto t = make1(c, poly);
                auto iX = t->GetIX();
                auto k = vk::f("one%s%s%s", c.log ? "-log" : "", c.sub ? "-subst" : "", c.rat ? "-rational" : "");
                VK_CHECK((int)iX.size() == c.max, k + "/nodes", "%zu nodes", iX.size());
                for (size_t i = 0; i < iX.size(); ++i) {
                    double x = c.log ? std::exp(iX[i]) : iX[i];
                    VK_CHECK(iX[i] >= std::min(a, b) && iX[i] <= std::max(a, b), k + "/nodes", "node %g outside of the range", iX[i]);
                    VK_CLOSE(t->Interpolate(x), poly(x), 1e-10, 1e-12, k + "/node", "deg %d sign %d at node %zu x=%.17g", deg, sg, i, x);
                }
                if (!c.rat && deg < c.romb)
                    for (double x : args(c, 37)) {
                        double v = t->Interpolate(x);
                        VK_CLOSE(v, poly(x), 1e-9, 1e-10, k + "/between", "deg %d sign %d at %.17g", deg, sg, x);
                        vk::state(vk::hd(vk::hd(vk::hs(cid(c)), x), v));
                        VK_CLOSE(t->Interpolate(x), v, 0, 0, k + "/again", "deg %d at %.17g", deg, x);
                    }
                // inverse of a straight line
                if (deg == 1 && c.romb >= 2 && !c.rat) {
                    for (double x : args(c, 23)) {
                        double y = poly(x);
                        double r = t->FindLimit(y);
                        VK_CLOSE(r, x, 1e-9, 1e-9 * std::fabs(c.hi - c.lo), k + "/inverse", "sign %d y=%.17g", sg, y);
                        VK_CLOSE(t->Interpolate(r), y, 1e-9, 1e-10, k + "/inverse-value", "sign %d y=%.17g", sg, y);
                        VK_CLOSE(t->Interpolate(x), y, 1e-9, 1e-10, k + "/after-inverse", "sign %d x=%.17g", sg, x);
                    }
                    double ylo = poly(c.lo), yhi = poly(c.hi);
                    double d = yhi - ylo;
                    double beyond = c.sub ? yhi * (yhi / ylo) : yhi + d, before = c.sub ? ylo * (ylo / yhi) : ylo - d;
                    VK_CLOSE(t->FindLimit(beyond), c.hi, 1e-9, 0, k + "/inverse-clamp", "beyond the end");
                    VK_CLOSE(t->FindLimit(before), c.lo, 1e-9, 0, k + "/inverse-clamp", "before the start");
                }
            }
        // smooth monotone functions between the nodes, and their inverse
        if (c.max >= 20 && c.romb >= 3 && (c.log || c.hi < 10)) {
            bool wide = c.hi / c.lo > 100 || c.max < 50;
            std::vector<std::pair<const char*, std::function<double(double)>>> fs = {
                { "rat", [&](double x) { double t = (tr(x) - a) / (b - a); return 2 / (1 + t); } },
                { "exp", [&](double x) { double t = (tr(x) - a) / (b - a); return std::exp(1.5 * t); } },
                { "sq", [&](double x) { double t = (tr(x) - a) / (b - a); return 1 + t + 0.5 * t * t * t; } } };
            for (auto& f : fs) {
                auto t = make1(c, f.second);
                double tol = wide ? 2e-4 : 2e-5;
                auto xs = args(c, 41);
                for (double x : xs) {
                    if (x < xs[1] || x > xs[xs.size() - 2]) continue;
                    double y = f.second(x);
                    VK_CLOSE(t->Interpolate(x), y, tol, 0, std::string("smooth/") + f.first, "at %.17g", x);
                    double r = t->FindLimit(y);
                    VK_CLOSE(t->Interpolate(r), y, 5 * tol, 0, std::string("smooth-inverse/") + f.first, "y=%.17g -> %.17g", y, r);
                }
            }
        }
        // functions that vanish in a part of the range
        if (c.sub && c.max >= 8) {
            double x0 = args(c, 2)[1];
            auto f = [=](double x) { return x < x0 ? 0. : 1 + (tr(x) - tr(x0)); };
            auto t = make1(c, f);
            auto iX = t->GetIX();
            for (auto xi : iX) {
                double x = c.log ? std::exp(xi) : xi;
                VK_CLOSE(t->Interpolate(x), f(x), 1e-9, 1e-9, "zero-region/node", "x=%.17g", x);
            }
            auto xs = args(c, 40);
            double step = (b - a) / c.max;
            for (double x : xs) {
                double v = t->Interpolate(x);
                VK_CHECK(v >= 0 && v < 3 * (1 + std::fabs(b - a)), "zero-region/finite", "x=%.17g: %.17g", x, v);
                if (tr(x) < tr(x0) - (c.romb + 1) * step) VK_CHECK(v == 0, "zero-region/zero", "x=%.17g: %.17g", x, v);
            }
        }
    });
}

static void arrays()
{
    for (int n : { 2, 3, 5, 9, 16 })
        for (int romb : { 1, 2, 3, 4 })
            for (int desc = 0; desc < 2; ++desc)
                for (int grid = 0; grid < 3; ++grid) vk::cs(vk::f("array/%d/%d/%d/%d", n, romb, desc, grid), [&] {
                    if (romb > n) throw vk::Skip();
                    std::vector<double> x;
                    for (int i = 0; i < n; ++i) x.push_back(grid == 0 ? i : grid == 1 ? std::pow(1.4, i) : 0.3 * i * i + i - 4);
                    if (desc) std::reverse(x.begin(), x.end());
                    for (int deg = 0; deg < std::max(romb, 2); ++deg) {
                        auto f = [&](double t) { double s = 0; for (int d = deg; d >= 0; --d) s = s * t * 0.3 + d + 1; return s; };
                        std::vector<double> y;
                        for (double v : x) y.push_back(f(v));
                        Interpolant t(x, y, romb, false, false);
                        for (int i = 0; i < n; ++i) VK_CLOSE(t.InterpolateArray(x[i]), y[i], 1e-11, 1e-11, "array/node", "deg %d node %d", deg, i);
                        if (deg < romb)
                            for (int i = 0; i < n - 1; ++i)
                                for (double w : { 0.1, 0.5, 0.8 }) {
                                    double z = x[i] + w * (x[i + 1] - x[i]);
                                    VK_CLOSE(t.InterpolateArray(z), f(z), 1e-9, 1e-9, "array/between", "deg %d x=%.17g", deg, z);
                                }
                        vk::state(vk::hd(vk::hd(n * 100 + romb * 10 + desc, grid), deg));
                    }
                    // two-dimensional, common and separate second axis
                    auto g = [](double u, double v) { return 1 + 2 * u - v + (0.3 * u * v); };
                    std::vector<double> x2 = { -1, 0.5, 1, 3, 4 };
                    std::vector<std::vector<double>> x2s, y, ys;
                    for (int i = 0; i < n; ++i) {
                        y.push_back({});
                        for (double v : x2) y.back().push_back(g(x[i], v));
                        x2s.push_back({}); ys.push_back({});
                        for (double v : x2) { x2s.back().push_back(v + 0.01 * i); ys.back().push_back(g(x[i], v + 0.01 * i)); }
                    }
                    for (int romb2 : { 1, 2, 3 }) {
                        Interpolant t(x, x2, y, romb, false, false, romb2, false, false), s(x, x2s, ys, romb, false, false, romb2, false, false);
                        for (int i = 0; i < n; ++i)
                            for (size_t j = 0; j < x2.size(); ++j) {
                                VK_CLOSE(t.InterpolateArray(x[i], x2[j]), y[i][j], 1e-11, 1e-11, "array2/node", "%d %zu", i, j);
                                if (romb2 >= 2) VK_CLOSE(s.InterpolateArray(x[i], x2s[i][j]), ys[i][j], 1e-11, 1e-11, "array2s/node", "%d %zu", i, j);
                            }
                        if (romb >= 2 && romb2 >= 2)
                            for (int i = 0; i < n - 1; ++i)
                                for (double v : { -0.9, 0., 0.6, 2., 3.9 }) {
                                    double u = x[i] + 0.3 * (x[i + 1] - x[i]);
                                    VK_CLOSE(t.InterpolateArray(u, v), g(u, v), 1e-9, 1e-9, "array2/between", "%g %g", u, v);
                                    VK_CLOSE(s.InterpolateArray(u, v), g(u, v), 1e-9, 1e-9, "array2s/between", "%g %g", u, v);
                                }
                    }
                });
}

struct Cfg2 { Cfg a, b; };
static P make2(Cfg const& a, Cfg const& b, std::function<double(double, double)> f)
{
    return P(new Interpolant(a.max, a.lo, a.hi, b.max, b.lo, b.hi, f, a.romb, a.rat, false, a.log, b.romb, b.rat, false, b.log, b.rombY, b.ratY, false, b.sub));
}
static void two()
{
    for (int n1 : { 4, 9 }) for (int n2 : { 4, 7, 12 })
        for (int r1 : { 2, 4 }) for (int r2 : { 2, 4 })
            for (int l1 = 0; l1 < 2; ++l1) for (int l2 = 0; l2 < 2; ++l2) for (int sub = 0; sub < 2; ++sub) vk::cs(vk::f("two/%d/%d/%d/%d/%d%d%d", n1, n2, r1, r2, l1, l2, sub), [&] {
                Cfg a { n1, 1, 5, r1, false, l1 != 0, 3, false, false }, b { n2, 0.1, 40, r2, false, l2 != 0, 3, false, sub != 0 };
                auto ta = [&](double x) { return l1 ? std::log(x) : x; };
                auto tb = [&](double x) { return l2 ? std::log(x) : x; };
                auto g = [=](double u, double v) {
                    double s = (2 + 0.3 * ta(u)) + (l2 ? 0.4 : 0.05) * tb(v) * (1 + 0.1 * ta(u));
                    return sub ? std::exp(s) : s;
                };
                auto t = make2(a, b, g);
                for (double u : args(a, 9))
                    for (double v : args(b, 11)) {
                        double y = g(u, v);
                        double got = t->Interpolate(u, v);
                        VK_CLOSE(got, y, 1e-9, 1e-9, "two/value", "(%.17g,%.17g)", u, v);
                        double r = t->FindLimit(u, y);
                        VK_CLOSE(r, v, 1e-8, 1e-8, "two/inverse", "(%.17g,%.17g)", u, v);
                        VK_CLOSE(t->Interpolate(u, r), y, 1e-8, 1e-8, "two/inverse-value", "(%.17g,%.17g)", u, v);
                        vk::state(vk::hd(vk::hd(vk::hd(n1 * 100 + n2 * 10 + r1, u), v), got));
                    }
                // falling dependence
                auto gd = [=](double u, double v) { return sub ? 1 / g(u, v) : -g(u, v); };
                auto td = make2(a, b, gd);
                for (double u : args(a, 5))
                    for (double v : args(b, 7)) {
                        VK_CLOSE(td->Interpolate(u, v), gd(u, v), 1e-9, 1e-9, "two/value", "falling (%.17g,%.17g)", u, v);
                        VK_CLOSE(td->FindLimit(u, gd(u, v)), v, 1e-8, 1e-8, "two/inverse", "falling (%.17g,%.17g)", u, v);
                    }
            });
}

// ---- a pool of kinds of tables for histories and storage
struct Kind { const char* n; std::function<P()> make; int dim; };
static std::vector<Kind> kinds()
{
    return {
        { "lin", [] { return make1({ 6, -1, 2.3, 3, false, false, 2, false, false }, [](double x) { return std::sin(x) + x / 3; }); }, 1 },
        { "log", [] { return make1({ 7, 0.3, 1234.5, 4, false, true, 3, false, true }, [](double x) { return std::pow(x, 1. / 3); }); }, 1 },
        { "rat", [] { return make1({ 5, 1, 9, 3, true, false, 2, false, false }, [](double x) { return 1 / (x + 0.1); }); }, 1 },
        { "two", [] { return make2({ 5, 1, 3, 3, false, false, 2, false, false }, { 6, 0.1, 7.7, 3, false, false, 2, false, false }, [](double u, double v) { return u / 3 + v * v / 7; }); }, 2 },
        { "twolog", [] { return make2({ 4, 1, 3e3, 3, false, true, 2, false, false }, { 5, 0.1, 7.7e2, 3, true, true, 3, false, true }, [](double u, double v) { return std::sqrt(u) * v; }); }, 2 },
        { "arr", [] { return P(new Interpolant({ 0.1, 0.7, 1.9, 3.3, 4.1 }, { 1. / 3, 2.1, 3.7, 2.2, 1e-7 }, 3, false, false)); }, 11 },
        { "arr2", [] { return P(new Interpolant(std::vector<double> { 1, 2, 4, 7 }, std::vector<double> { 0.5, 1.1, 2.3 }, { { 1. / 3, 2, 3 }, { 4, 5, 6. / 7 }, { 7, 8, 9 }, { 1, 2, 4 } }, 2, false, false, 2, false, false)); }, 12 },
    };
}
static std::vector<double> probe(Interpolant& t, int dim)
{
    std::vector<double> r;
    if (dim == 1) {
        for (double x : { -0.9, 0.35, 0.6, 1., 1.7, 2.2, 5., 8.8, 300. }) { if (x <= 0 && t.GetIsLog()) continue; r.push_back(t.Interpolate(x)); }
        for (double y : { 0.2, 0.5, 1.3, 4. }) r.push_back(t.FindLimit(y));
    } else if (dim == 2) {
        for (double u : { 1.1, 2., 2.9 }) for (double v : { 0.15, 1., 3.3, 7. }) r.push_back(t.Interpolate(u, v));
        for (double u : { 1.1, 2.5 }) for (double y : { 0.5, 1., 4. }) r.push_back(t.FindLimit(u, y));
    } else if (dim == 11) for (double x : { 0.1, 0.3, 1., 1.9, 2.5, 4. }) r.push_back(t.InterpolateArray(x));
    else for (double u : { 1., 1.5, 3., 6.9 }) for (double v : { 0.5, 0.7, 2. }) r.push_back(t.InterpolateArray(u, v));
    return r;
}
static bool same(std::vector<double> const& a, std::vector<double> const& b, double tol)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!vk::close(a[i], b[i], tol, tol * 1e-3)) return false;
    return true;
}
static std::string fname(std::string const& p, bool bin) { return bin ? p : p + ".txt"; }
static std::string slurp(std::string const& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s; s << f.rdbuf();
    return s.str();
}
static void spill(std::string const& p, std::string const& c) { std::ofstream f(p, std::ios::binary); f << c; }

static void storage()
{
    auto K = kinds();
    std::vector<std::vector<double>> ref;
    for (auto& k : K) ref.push_back(probe(*k.make(), k.dim));
    for (size_t k = 0; k < K.size(); ++k)
        for (int bin = 0; bin < 2; ++bin) {
            // how the table that is stored came into being
            for (int how = 0; how < 5; ++how) vk::cs(vk::f("store/%s/%d/%d", K[k].n, bin, how), [&] {
                std::string p = vk::f("tab%zu%d%d", k, bin, how), q = p + "b";
                P t = K[k].make();
                if (how == 1) { P c(new Interpolant(*t)); t = std::move(c); }
                if (how == 2) { P c = K[(k + 3) % K.size()].make(); *c = *t; t = std::move(c); }
                if (how == 3) probe(*t, K[k].dim);
                if (how == 4) { P c = K[(k + 3) % K.size()].make(); if (!t->Save(q, bin != 0) || !c->Load(q, bin != 0)) { vk::fail("store/reload", "cannot save or load"); return; } t = std::move(c); }
                VK_CHECK(t->Save(p, bin != 0), "store/save", "save failed");
                for (int target = 0; target < 3; ++target) {
                    P u;
                    if (target == 0) u.reset(new Interpolant());
                    else if (target == 1) u = K[(k + 2) % K.size()].make();
                    else u.reset(new Interpolant(*K[k].make()));
                    bool ok = u->Load(p, bin != 0);
                    VK_CHECK(ok, "store/load", "load failed");
                    if (!ok) continue;
                    VK_CHECK(same(probe(*u, K[k].dim), ref[k], bin ? 1e-11 : 1e-11), "store/same", "kind %s, origin %d, target %d", K[k].n, how, target);
                    VK_CHECK(same(probe(*t, K[k].dim), ref[k], 1e-11), "store/source", "source changed by saving");
                    vk::state(vk::mix(vk::mix(k * 10 + bin, how), target));
                }
                // through a stream that holds several tables
                {
                    std::ofstream o(fname(q, bin != 0), std::ios::binary);
                    if (!bin) o.precision(16);
                    P other = K[(k + 1) % K.size()].make();
                    VK_CHECK(t->Save(o, bin != 0) && other->Save(o, bin != 0), "stream/save", "save failed");
                    o.close();
                    std::ifstream in(fname(q, bin != 0), std::ios::binary);
                    Interpolant u, v;
                    VK_CHECK(u.Load(in, bin != 0) && v.Load(in, bin != 0), "stream/load", "load failed");
                    VK_CHECK(same(probe(u, K[k].dim), ref[k], 1e-11), "stream/same", "first table");
                    size_t o2 = (k + 1) % K.size();
                    VK_CHECK(same(probe(v, K[o2].dim), ref[o2], 1e-11), "stream/same", "second table");
                }
            });
            // every prefix of the file
            std::string p = vk::f("pre%zu%d_%d", k, bin, vk::ctx().shard);
            K[k].make()->Save(p, bin != 0);
            std::string full = slurp(fname(p, bin != 0));
            const size_t chunk = 64;
            for (size_t c0 = 0; c0 < full.size(); c0 += chunk) vk::cs(vk::f("cut/%s/%d/%zu", K[k].n, bin, c0), [&] {
                for (size_t n = c0; n < std::min(full.size(), c0 + chunk); ++n) {
                    spill(fname(p, bin != 0), full.substr(0, n));
                    for (int target = 0; target < 2; ++target) {
                        P u = target ? K[(k + 3) % K.size()].make() : P(new Interpolant());
                        bool ok;
                        try { ok = u->Load(p, bin != 0); }
                        catch (std::exception const&) { ok = false; vk::outcome("refused with exception"); }
                        vk::trans();
                        vk::state(vk::mix(vk::mix(k * 10 + bin, n), target));
                        if (!ok) { vk::outcome("refused"); Interpolant copy(*u); continue; }
                        // only admissible if nothing is missing but trailing white space
                        if (!same(probe(*u, K[k].dim), ref[k], 1e-11)) vk::fail("cut/used", "kind %s %s: file cut after %zu of %zu bytes was loaded", K[k].n, bin ? "binary" : "text", n, full.size());
                        else if (bin) vk::fail("cut/accepted", "kind %s: binary file cut after %zu of %zu bytes was accepted", K[k].n, n, full.size());
                    }
                }
            });
            // failing writes
            vk::cs(vk::f("fail/%s/%d", K[k].n, bin), [&] {
                auto t = K[k].make();
                std::string q = vk::f("full%zu%d", k, bin);
                (void)!symlink("/dev/full", fname(q, bin != 0).c_str());
                bool ok = t->Save(q, bin != 0);
                VK_CHECK(!ok, "fail/full", "saving to a full device reports success");
                unlink(fname(q, bin != 0).c_str());
                VK_CHECK(!t->Save("no/such/directory/" + q, bin != 0), "fail/open", "saving to a missing directory reports success");
                Interpolant u;
                VK_CHECK(!u.Load("no/such/directory/" + q, bin != 0), "fail/missing", "loading a missing file reports success");
                VK_CHECK(same(probe(*t, K[k].dim), ref[k], 0), "fail/unchanged", "table changed by failing save");
            });
        }
    vk::bound("every byte prefix of the files of 7 tables, text and binary");
}

static void histories()
{
    auto K = kinds();
    std::vector<std::vector<double>> ref;
    for (auto& k : K) ref.push_back(probe(*k.make(), k.dim));
    std::vector<int> use = { 0, 1, 3, 4, 5 };
    // ops: make(o,kind), copy-assign, copy-construct, swap, save/load through text/binary, probe, failed load, self-assign
    const int NM = use.size();
    const int NOPS = 2 * NM + 12;
    const int depth = vk::thorough() ? 5 : 4;
    vk::bound(vk::f("histories: all sequences of %d of %d operations on two tables", depth, NOPS));
    auto name = [&](const char* s) { return vk::f("h%s%d", s, vk::ctx().shard); };
    for (int o1 = 0; o1 < NOPS; ++o1)
        for (int o2 = 0; o2 < NOPS; ++o2) vk::cs(vk::f("hist/%d/%d", o1, o2), [&] {
            uint64_t n = 1;
            for (int d = 2; d < depth; ++d) n *= NOPS;
            for (uint64_t s = 0; s < n; ++s) {
                std::vector<int> seq = { o1, o2 };
                uint64_t r = s;
                for (int d = 2; d < depth; ++d) { seq.push_back(r % NOPS); r /= NOPS; }
                P t[2] = { K[1].make(), K[3].make() };
                int st[2] = { 1, 3 };
                std::string h;
                auto chk = [&](int o) {
                    vk::trans();
                    if (!same(probe(*t[o], K[st[o]].dim), ref[st[o]], 1e-10)) vk::fail("history", "table %d (%s) answers differently after%s", o, K[st[o]].n, h.c_str());
                };
                for (int op : seq) {
                    h += " " + std::to_string(op);
                    if (op < 2 * NM) { int o = op / NM; st[o] = use[op % NM]; t[o] = K[st[o]].make(); }
                    else switch (op - 2 * NM) {
                        case 0: *t[0] = *t[1]; st[0] = st[1]; VK_CHECK(*t[0] == *t[1], "history/equal", "after%s", h.c_str()); break;
                        case 1: *t[1] = *t[0]; st[1] = st[0]; VK_CHECK(*t[0] == *t[1], "history/equal", "after%s", h.c_str()); break;
                        case 2: t[0].reset(new Interpolant(*t[1])); st[0] = st[1]; VK_CHECK(*t[0] == *t[1], "history/equal", "after%s", h.c_str()); break;
                        case 3: t[0]->swap(*t[1]); std::swap(st[0], st[1]); break;
                        case 4: case 5: { // through a file from 0 to 1
                            bool bin = op - 2 * NM == 5;
                            if (!t[0]->Save(name("x"), bin) || !t[1]->Load(name("x"), bin)) { vk::fail("history/file", "save or load failed after%s", h.c_str()); return; }
                            st[1] = st[0];
                            break;
                        }
                        case 6: case 7: { // and back to itself
                            bool bin = op - 2 * NM == 7;
                            if (!t[0]->Save(name("y"), bin) || !t[0]->Load(name("y"), bin)) { vk::fail("history/file", "save or load failed after%s", h.c_str()); return; }
                            break;
                        }
                        case 8: chk(0); break;
                        case 9: chk(1); break;
                        case 10: { auto& x = *t[0]; x = *t[0]; break; }
                        case 11: t[1].reset(new Interpolant(*t[0])); st[1] = st[0]; t[0] = K[0].make(); st[0] = 0; break;
                        }
                    vk::state(vk::mix(st[0], st[1] + 100));
                }
                chk(0); chk(1); chk(0);
            }
        });
}

static void builder()
{
    vk::cs("builder/one", [&] {
        Interpolant1DBuilder::Definition d;
        d.function1d = [](double x) { return x * x; };
        d.nodes = 20; d.xmin = 1; d.xmax = 30; d.romberg = 4; d.rational = false; d.relative = false; d.isLog = true; d.rombergY = 3; d.rationalY = false; d.relativeY = false; d.logSubst = true;
        auto t = Interpolant1DBuilder(d).build();
        Interpolant r(20, 1, 30, d.function1d, 4, false, false, true, 3, false, false, true);
        VK_CHECK(*t == r, "builder/one", "built table differs");
        for (double x : { 1.5, 7., 29. }) VK_CLOSE(t->Interpolate(x), x * x, 1e-9, 0, "builder/value", "%g", x);
    });
    vk::cs("builder/two", [&] {
        Interpolant2DBuilder::Definition d;
        d.function2d = [](double x, double y) { return x * x + y; };
        d.nodes = 9; d.xmin = 1; d.xmax = 30; d.romberg = 4; d.rational = false; d.relative = false; d.isLog = false; d.rombergY = 3; d.rationalY = false; d.relativeY = false; d.logSubst = false;
        d.nodes2 = 7; d.x2min = 0.1; d.x2max = 5; d.romberg2 = 3; d.rational2 = false; d.relative2 = false; d.isLog2 = false;
        auto t = Interpolant2DBuilder(d).build();
        for (double x : { 1.5, 7., 29. }) for (double y : { 0.2, 4.9 }) VK_CLOSE(t->Interpolate(x, y), x * x + y, 1e-9, 0, "builder/value2", "%g %g", x, y);
    });
}

void vk_main()
{
    one();
    arrays();
    two();
    storage();
    histories();
    builder();
}
