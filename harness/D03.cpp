// vk: sources=density_distr/,math/Function,math/Spline,math/MathMethods,math/Cartesian3D,math/Spherical3D,math/Vector3D,Logging,methods,Constants,medium/ flavor=asan
#include "dens.h"
using namespace dens;
using namespace PROPOSAL;

static std::vector<double> print(Density_distr const& D)
{
    std::vector<double> r;
    for (auto p : { Cartesian3D(10, 20, 30), Cartesian3D(100, 0.5, -3), Cartesian3D(0, 200, -400) })
        for (auto d : { Cartesian3D(1, 0, 0), Cartesian3D(0, 0.6, -0.8), Cartesian3D(0, 0, 1) }) {
            r.push_back(D.Evaluate(p));
            r.push_back(D.Calculate(p, d, 3.5));
            double c = -1;
            try { c = D.Correct(p, d, r.back(), 50); } catch (DensityException const&) { }
            r.push_back(c);
        }
    return r;
}
static bool assign(Density_distr& a, Density_distr const& b)
{
#define T(C) if (auto x = dynamic_cast<C*>(&a)) if (auto y = dynamic_cast<C const*>(&b)) { *x = *y; return true; }
    T(Density_homogeneous) T(Density_exponential) T(Density_polynomial) T(Density_splines)
#undef T
    return false;
}
static std::shared_ptr<Density_distr> copy(Density_distr const& b)
{
#define T(C) if (auto y = dynamic_cast<C const*>(&b)) return std::make_shared<C>(*y);
    T(Density_homogeneous) T(Density_exponential) T(Density_polynomial) T(Density_splines)
#undef T
    return nullptr;
}
static std::vector<Prof> variants()
{
    // one base per kind and every single-parameter change of it
    Ax c { false, { 1, 0, 0 }, { 0, 0, 0 } }, cf { false, { 0, 1, 0 }, { 0, 0, 0 } }, co { false, { 1, 0, 0 }, { 0, 0, 1 } }, r { true, { 1, 0, 0 }, { 0, 0, 0 } }, ro { true, { 1, 0, 0 }, { 2, 0, 0 } };
    std::vector<Prof> v;
    for (double m : { 1., 1.25 }) v.push_back({ HOM, c, m, {}, {}, "hom" });
    for (auto& a : { c, cf, co, r, ro }) for (double m : { 1., 1.25 }) {
        for (auto q : { V { 10, 0 }, V { 11, 0 }, V { 10, 2.5 }, V { -10, 0 } }) v.push_back({ EXP, a, m, q, {}, "exp" });
        for (auto q : { V { 1 }, V { 1, 0.5 }, V { 1, 0.5, 2 }, V { 1, 0.25 }, V { 2, 0.5 } }) v.push_back({ POLY, a, m, q, {}, "poly" });
        struct XY { V x, y; };
        for (auto q : { XY { { 0, 100, 200 }, { 1, 2, 1.5 } }, XY { { 0, 100, 200 }, { 1, 2, 1.75 } }, XY { { 0, 110, 200 }, { 1, 2, 1.5 } }, XY { { 0, 100, 200, 300 }, { 1, 2, 1.5, 3 } }, XY { { 0, 100, 210 }, { 1, 2, 1.5 } } })
            for (auto k : { LIN, CUB }) v.push_back({ k, a, m, q.x, q.y, "spl" });
    }
    for (size_t i = 0; i < v.size(); ++i) v[i].tag += vk::f("#%zu", i);
    return v;
}
static bool equal(Prof const& a, Prof const& b)
{
    if (a.k != b.k || a.rho0 != b.rho0) return false;
    if (a.k == HOM) return true;
    return a.a == b.a && a.b == b.b && a.ax.radial == b.ax.radial && a.ax.o == b.ax.o && (a.ax.radial || a.ax.f == b.ax.f);
}
void vk_main()
{
    spdlog::set_level(spdlog::level::off);
    auto W = variants();
    vk::bound(vk::f("equality: all ordered pairs of %zu profiles (all single-parameter changes of mass density, axis kind, direction, origin, shape parameters)", W.size()));
    for (size_t i = 0; i < W.size(); ++i) vk::cs(vk::f("eq-%zu", i), [&] {
        auto a = W[i].make();
        auto pa = print(*a);
        for (size_t j = 0; j < W.size(); ++j) {
            auto b = W[j].make();
            bool want = equal(W[i], W[j]);
            VK_CHECK((*a == *b) == want && (*a != *b) == !want, "equality", "%s vs %s want %d: %s %s", W[i].tag.c_str(), W[j].tag.c_str(), want, W[i].js().dump().c_str(), W[j].js().dump().c_str());
            vk::state(vk::mix(i, j));
        }
        // a copy by every way is equal and behaves the same, also after the original is gone
        for (int way = 0; way < 3; ++way) {
            auto o = W[i].make();
            std::shared_ptr<Density_distr> c;
            if (way == 0) c.reset(o->clone());
            if (way == 1) c = copy(*o);
            if (way == 2) c = CreateDensityDistribution(W[i].js());
            VK_CHECK(*c == *o && *o == *c && !(*c != *o), "copy-equality", "%s way %d", W[i].js().dump().c_str(), way);
            VK_CHECK(print(*c) == pa, "copy-value", "%s way %d", W[i].js().dump().c_str(), way);
            o.reset();
            auto clobber = W[(i + 1) % W.size()].make();
            VK_CHECK(print(*c) == pa, "copy-value", "%s way %d after destruction of the original", W[i].js().dump().c_str(), way);
        }
        vk::outcome("equality and copies");
    });
    // axes
    struct A { const char* n; std::shared_ptr<Axis> a; int id; };
    std::vector<A> AX;
    Cartesian3D e1(1, 0, 0), e2(0, 1, 0), o(0, 0, 0), p(0, 0, 2);
    AX.push_back({ "c", std::make_shared<CartesianAxis>(), 0 });
    AX.push_back({ "c(e1,o)", std::make_shared<CartesianAxis>(e1, o), 0 });
    AX.push_back({ "c(e2,o)", std::make_shared<CartesianAxis>(e2, o), 1 });
    AX.push_back({ "c(e1,p)", std::make_shared<CartesianAxis>(e1, p), 2 });
    AX.push_back({ "r", std::make_shared<RadialAxis>(), 3 });
    AX.push_back({ "r(o)", std::make_shared<RadialAxis>(o), 3 });
    AX.push_back({ "r(p)", std::make_shared<RadialAxis>(p), 4 });
    AX.push_back({ "json c", std::make_shared<CartesianAxis>(json::parse(R"({"fAxis":[0,1,0],"fp0":[0,0,0]})")), 1 });
    AX.push_back({ "json r", std::make_shared<RadialAxis>(json::parse(R"({"fp0":[0,0,2]})")), 4 });
    vk::cs("axes", [&] {
        for (auto& a : AX) {
            for (auto& b : AX) VK_CHECK((*a.a == *b.a) == (a.id == b.id) && (*a.a != *b.a) == (a.id != b.id), "axis-equality", "%s vs %s", a.n, b.n);
            std::shared_ptr<Axis> c(a.a->clone());
            VK_CHECK(*c == *a.a && *a.a == *c, "axis-equality", "clone of %s", a.n);
            for (auto x : { e1, e2, p, Cartesian3D(3, -4, 5) }) for (auto d : { e1, e2, Cartesian3D(0, 0.6, 0.8) })
                VK_CHECK(c->GetDepth(x) == a.a->GetDepth(x) && (c->GetEffectiveDistance(x, d) == a.a->GetEffectiveDistance(x, d)), "axis-copy", "%s", a.n);
        }
    });
    for (auto s : { R"({"type":"exponential"})", R"({"mass_density":1})", R"({"type":"cubic","mass_density":1})", R"({"type":"homogeneous"})",
             R"({"type":"exponential","mass_density":1})", R"({"type":"exponential","mass_density":1,"axis_type":"radial"})", R"({"type":"exponential","mass_density":1,"axis_type":"cartesian","fp0":[0,0,0]})",
             R"({"type":"exponential","axis_type":"radial","fp0":[0,0,0]})", R"({"type":"exponential","mass_density":1,"axis_type":"spherical","fp0":[0,0,0]})",
             R"({"type":"polynomial","mass_density":1,"axis_type":"radial","fp0":[0,0,0]})", R"({"type":"spline","mass_density":1,"axis_type":"radial","fp0":[0,0,0],"x":[0,1],"y":[1,2]})",
             R"({"type":"spline","mass_density":1,"axis_type":"radial","fp0":[0,0,0],"spline_type":"quadratic","x":[0,1],"y":[1,2]})", R"({"type":"spline","mass_density":1,"axis_type":"radial","fp0":[0,0,0],"spline_type":"linear","x":[0,1]})" })
        vk::cs(std::string("invalid-") + s, [&] { VK_CHECK(vk::throws([&] { CreateDensityDistribution(json::parse(s)); }), "invalid", "accepted %s", s); });

    // histories on a pool of three profiles
    Ax c { false, { 0, 0.6, -0.8 }, { 5, -3, 2 } }, r { true, { 1, 0, 0 }, { 0, 0, 0 } };
    std::vector<Prof> B { { HOM, c, 2, {}, {}, "h" }, { HOM, c, 3, {}, {}, "h2" }, { EXP, c, 1, { 100, 1 }, {}, "e" }, { EXP, r, 1, { -200, 0 }, {}, "e2" },
        { POLY, r, 1, { 1, 2 }, {}, "p" }, { POLY, c, 1, { 3, 1, 0.5 }, {}, "p2" }, { LIN, c, 1, { -100, 0, 500 }, { 1, 2, 3 }, "l" }, { CUB, r, 1, { 0, 10, 500 }, { 1, 2, 3 }, "c" } };
    struct Op { char k; int a, b; };
    std::vector<Op> O;
    for (int a = 0; a < 2; ++a) {
        O.push_back({ 'x', a, 0 });
        for (int b = 0; b < 2; ++b) for (char k : { 'c', 'k', '=' }) if (a != b || k == '=') O.push_back({ k, a, b });
    }
    int depth = vk::thorough() ? 5 : 4;
    vk::bound(vk::f("histories: all sequences of length <= %d of %zu operations (destroy, clone, copy, assign) on pools of two of %zu profiles, all values re-evaluated after every step", depth, O.size(), B.size()));
    for (size_t i = 0; i < B.size(); ++i) for (size_t j = 0; j < B.size(); ++j) vk::cs(vk::f("hist-%zu-%zu", i, j), [&] {
        std::vector<std::vector<double>> want;
        for (auto& b : B) want.push_back(print(*b.make()));
        std::vector<int> seq;
        std::function<void()> rec = [&] {
            std::shared_ptr<Density_distr> s[2] { B[i].make(), B[j].make() };
            int m[2] { int(i), int(j) };
            std::string name;
            for (auto q : seq) {
                auto& o = O[q]; name += vk::f("%c%d%d ", o.k, o.a, o.b);
                if (o.k == 'x') { s[o.a].reset(); m[o.a] = -1; continue; }
                if (m[o.b] < 0) return;
                if (o.k == 'c') { s[o.a].reset(s[o.b]->clone()); m[o.a] = m[o.b]; }
                if (o.k == 'k') { s[o.a] = copy(*s[o.b]); m[o.a] = m[o.b]; }
                if (o.k == '=') { if (m[o.a] < 0 || !assign(*s[o.a], *s[o.b])) return; m[o.a] = m[o.b]; }
                for (int t = 0; t < 2; ++t) if (m[t] >= 0 && seq.size() < 3) print(*s[t]); // use between the steps
            }
            for (int t = 0; t < 2; ++t) if (m[t] >= 0) VK_CHECK(print(*s[t]) == want[m[t]], "history-value", "%s: slot %d", name.c_str(), t);
            if (m[0] >= 0 && m[1] >= 0) VK_CHECK((*s[0] == *s[1]) == (m[0] == m[1]), "history-equality", "%s", name.c_str());
            vk::state(vk::mix(m[0] * 100 + m[1], seq.size() * 7 + i));
            if (int(seq.size()) < depth) for (size_t q = 0; q < O.size(); ++q) { seq.push_back(q); rec(); seq.pop_back(); }
        };
        rec();
        vk::outcome("histories");
    });
}
