// vk: sources=geometry/,math/Cartesian3D,math/Spherical3D,math/Vector3D,Logging,methods,Constants
#include "geo.h"
#include "PROPOSAL/geometry/GeometryFactory.h"
#include <nlohmann/json.hpp>
using namespace geo;
using nlohmann::json;
using PROPOSAL::Geometry;

static json describe(Shape const& s, unsigned h, bool with_h, bool with_inner, std::string shape)
{
    json j;
    j["shape"] = shape;
    j["origin"] = { s.ctr[0], s.ctr[1], s.ctr[2] };
    if (with_h) j["hierarchy"] = h;
    if (s.k == BOX) { j["length"] = s.a; j["width"] = s.b; j["height"] = s.c; }
    else { j["outer_radius"] = s.a; if (with_inner) j["inner_radius"] = s.b; if (s.k == CYL) j["height"] = s.c; }
    return j;
}
static std::shared_ptr<Geometry> direct(Kind k, json const& j)
{
    if (k == SPH) return std::make_shared<PROPOSAL::Sphere>(j);
    if (k == BOX) return std::make_shared<PROPOSAL::Box>(j);
    return std::make_shared<PROPOSAL::Cylinder>(j);
}
static std::shared_ptr<Geometry> copy(Geometry const& g)
{
    if (auto p = dynamic_cast<PROPOSAL::Sphere const*>(&g)) return std::make_shared<PROPOSAL::Sphere>(*p);
    if (auto p = dynamic_cast<PROPOSAL::Box const*>(&g)) return std::make_shared<PROPOSAL::Box>(*p);
    return std::make_shared<PROPOSAL::Cylinder>(dynamic_cast<PROPOSAL::Cylinder const&>(g));
}
static std::string attrs(Geometry const& g)
{
    auto p = g.GetPosition();
    std::string r = vk::f("pos(%.17g,%.17g,%.17g) h%u ", p.GetX(), p.GetY(), p.GetZ(), g.GetHierarchy());
    if (auto q = dynamic_cast<PROPOSAL::Sphere const*>(&g)) r += vk::f("sphere R%.17g r%.17g", q->GetRadius(), q->GetInnerRadius());
    if (auto q = dynamic_cast<PROPOSAL::Box const*>(&g)) r += vk::f("box %.17g %.17g %.17g", q->GetX(), q->GetY(), q->GetZ());
    if (auto q = dynamic_cast<PROPOSAL::Cylinder const*>(&g)) r += vk::f("cyl R%.17g r%.17g z%.17g", q->GetRadius(), q->GetInnerRadius(), q->GetZ());
    return r;
}
static std::string expect(Shape const& s, unsigned h)
{
    std::string r = vk::f("pos(%.17g,%.17g,%.17g) h%u ", s.ctr[0], s.ctr[1], s.ctr[2], h);
    if (s.k == SPH) r += vk::f("sphere R%.17g r%.17g", s.a, s.b);
    if (s.k == BOX) r += vk::f("box %.17g %.17g %.17g", s.a, s.b, s.c);
    if (s.k == CYL) r += vk::f("cyl R%.17g r%.17g z%.17g", s.a, s.b, s.c);
    return r;
}
static std::vector<Shape> alphabet()
{
    std::vector<Shape> r;
    std::vector<V3> C { { { 0, 0, 0 } }, { { 1.5, -2.25, 1e4 } }, { { -0.1, 3, 0 } } };
    for (auto& c : C) {
        for (double R : { 3., 10.75, 6.4e8 }) for (double q : { 0., 0.3, 0.5, 2., 2.9999 }) r.push_back({ SPH, c, R, q, 0 });
        for (double x : { 1., 2.5 }) for (double y : { 1., 0.125 }) for (double z : { 1., 1e5 }) r.push_back({ BOX, c, x, y, z });
        for (double z : { 1., 0.5, 33. }) for (double R : { 3., 10.75 }) for (double q : { 0., 0.3, 2., 2.9999 }) r.push_back({ CYL, c, R, q, z });
    }
    return r;
}
static void same(Geometry const& a, Geometry const& b, Shape const& s, const char* key)
{
    VK_CHECK(a == b && b == a && !(a != b) && !(b != a), std::string("equal-") + key, "%s vs %s", attrs(a).c_str(), attrs(b).c_str());
    VK_CHECK(attrs(a) == attrs(b), std::string("attributes-") + key, "%s vs %s", attrs(a).c_str(), attrs(b).c_str());
    VK_CHECK(a.GetName() == b.GetName(), std::string("name-") + key, "%s vs %s", a.GetName().c_str(), b.GetName().c_str());
    auto P = positions(s, false);
    for (size_t i = 0; i < P.size(); i += 7) for (auto& D : directions(s, P[i], false)) {
        auto x = a.DistanceToBorder(c3(P[i]), c3(D)), y = b.DistanceToBorder(c3(P[i]), c3(D));
        VK_CHECK(x == y, std::string("behaviour-") + key, "%s", attrs(a).c_str());
        VK_CHECK(a.GetLocation(c3(P[i]), c3(D)) == b.GetLocation(c3(P[i]), c3(D)), std::string("location-") + key, "%s", attrs(a).c_str());
    }
}

void vk_main()
{
    quiet();
    auto S = alphabet();
    vk::bound(vk::f("%zu shapes x 3 hierarchies x 4 ways of construction; all pairs compared; all single-key corruptions", S.size()));
    const char* names[3][4] = { { "sphere", "Sphere", "SPHERE", "sPhErE" }, { "box", "Box", "BOX", "bOx" }, { "cylinder", "Cylinder", "CYLINDER", "cYlinDer" } };
    for (size_t i = 0; i < S.size(); ++i)
        vk::cs(vk::f("construct/%zu", i), [&] {
            auto& s = S[i];
            for (unsigned h : { 0u, 1u, 7u }) {
                auto g = s.make();
                VK_CHECK(g->GetHierarchy() == 0, "default-hierarchy", "%u", g->GetHierarchy());
                g->SetHierarchy(h);
                VK_CHECK(attrs(*g) == expect(s, h), "constructor", "%s want %s", attrs(*g).c_str(), expect(s, h).c_str());
                auto cp = copy(*g);
                same(*g, *cp, s, "copy");
                g->SetHierarchy(h + 1); g->SetPosition(Cartesian3D(9, 9, 9));
                VK_CHECK(attrs(*cp) == expect(s, h), "copy-independent", "%s", attrs(*cp).c_str());
                g->SetHierarchy(h); g->SetPosition(c3(s.ctr));
                for (int n = 0; n < 4; ++n) {
                    auto j = describe(s, h, true, true, names[s.k][n]);
                    same(*g, *PROPOSAL::CreateGeometry(j), s, "factory");
                    same(*g, *direct(s.k, j), s, "json");
                    // through text, as from a configuration file
                    same(*g, *PROPOSAL::CreateGeometry(json::parse(j.dump())), s, "json-text");
                    if (h == 0) same(*g, *PROPOSAL::CreateGeometry(describe(s, 0, false, true, names[s.k][n])), s, "default-hierarchy");
                    if (s.b == 0 && s.k != BOX) same(*g, *PROPOSAL::CreateGeometry(describe(s, h, true, false, names[s.k][n])), s, "default-inner");
                }
                if (s.k != BOX && s.b > 0) { // swapped radii are put in order
                    Shape w = s; std::swap(w.a, w.b);
                    auto sw = w.make(); sw->SetHierarchy(h);
                    same(*g, *sw, s, "swapped-radii");
                }
                vk::state(attrs(*g));
            }
        });
    // equality is exactly equality of all attributes
    for (size_t i = 0; i < S.size(); ++i)
        vk::cs(vk::f("pairs/%zu", i), [&] {
            for (size_t k = 0; k < S.size(); ++k) for (unsigned h1 : { 0u, 2u }) for (unsigned h2 : { 0u, 2u }) {
                auto a = S[i].make(), b = S[k].make();
                a->SetHierarchy(h1); b->SetHierarchy(h2);
                bool w = i == k && h1 == h2;
                VK_CHECK((*a == *b) == w && (*b == *a) == w && (*a != *b) != w && (*b != *a) != w, "equality", "%s vs %s: want %d", attrs(*a).c_str(), attrs(*b).c_str(), w);
                vk::outcome(w ? "equal" : "different");
                if (i != k) continue;
                // setters change exactly their attribute
                if (auto p = dynamic_cast<PROPOSAL::Sphere*>(a.get())) { p->SetRadius(p->GetRadius() * 1.0000001); VK_CHECK(*a != *b, "set-radius", "sphere"); p->SetRadius(S[i].a); p->SetInnerRadius(p->GetInnerRadius() + 1e-7); VK_CHECK(*a != *b, "set-inner", "sphere"); p->SetInnerRadius(S[i].b); }
                if (auto p = dynamic_cast<PROPOSAL::Box*>(a.get())) {
                    p->SetX(S[i].a + 1e-7); VK_CHECK(*a != *b, "set-x", "box"); p->SetX(S[i].a);
                    p->SetY(S[i].b + 1e-7); VK_CHECK(*a != *b, "set-y", "box"); p->SetY(S[i].b);
                    p->SetZ(S[i].c + 1e-7); VK_CHECK(*a != *b, "set-z", "box"); p->SetZ(S[i].c);
                }
                if (auto p = dynamic_cast<PROPOSAL::Cylinder*>(a.get())) {
                    p->SetRadius(S[i].a + 1e-7); VK_CHECK(*a != *b, "set-radius", "cyl"); p->SetRadius(S[i].a);
                    p->SetInnerRadius(S[i].b + 1e-7); VK_CHECK(*a != *b, "set-inner", "cyl"); p->SetInnerRadius(S[i].b);
                    p->SetZ(S[i].c + 1e-7); VK_CHECK(*a != *b, "set-z", "cyl"); p->SetZ(S[i].c);
                }
                VK_CHECK((*a == *b) == w, "setters-restore", "%s", attrs(*a).c_str());
                for (int ax = 0; ax < 3; ++ax) {
                    V3 p = S[i].ctr; p[ax] += 1e-6;
                    a->SetPosition(c3(p));
                    VK_CHECK(*a != *b, "set-position", "axis %d", ax);
                }
            }
        });
    // corrupted descriptions
    for (int k = 0; k < 3; ++k) {
        Shape s { Kind(k), { { 1, 2, 3 } }, 5, k == BOX ? 4. : 2., 7 };
        json good = describe(s, 3, true, true, names[k][0]);
        std::vector<std::string> keys;
        for (auto it = good.begin(); it != good.end(); ++it) keys.push_back(it.key());
        auto bad = [&](json j, bool factory) {
            int r = vk::guarded([&] { try { if (factory) PROPOSAL::CreateGeometry(j); else direct(Kind(k), j); } catch (std::exception const&) { return 0; } return 1; });
            return r;
        };
        for (auto& key : keys)
            vk::cs(vk::f("corrupt/%s/%s", names[k][0], key.c_str()), [&] {
                bool mandatory = key != "hierarchy" && key != "inner_radius";
                json j = good; j.erase(key);
                if (mandatory) {
                    VK_CHECK(bad(j, true) == 0, "missing-" + key, "%s without %s: factory %d (1: accepted, <0: signal)", names[k][0], key.c_str(), bad(j, true));
                    if (key != "shape") VK_CHECK(bad(j, false) == 0, "missing-" + key, "%s without %s: constructor %d", names[k][0], key.c_str(), bad(j, false));
                }
                std::vector<json> vals { "text", json::array(), json::array({ 1, 2 }), json::object(), nullptr, "unknown-shape" };
                if (key == "origin") { vals.push_back(json::array({ 1, 2, 3, 4 })); vals.push_back(json::array({ 1, "a", 3 })); vals.push_back(5); }
                else if (key != "hierarchy" && key != "shape") vals.push_back(-1.5);
                if (key == "inner_radius") vals.push_back(5.5);
                if (key == "shape") vals.push_back(3);
                for (auto& v : vals) {
                    json c = good; c[key] = v;
                    VK_CHECK(bad(c, true) == 0, "corrupt-" + key, "%s with %s=%s: factory %d (1: accepted, <0: signal)", names[k][0], key.c_str(), v.dump().c_str(), bad(c, true));
                    vk::state(c.dump());
                }
            });
        vk::cs(vk::f("corrupt/%s/not-an-object", names[k][0]), [&] {
            for (json j : { json(3), json("sphere"), json::array({ 1 }), json(nullptr) })
                VK_CHECK(bad(j, true) == 0 && bad(j, false) == 0, "not-an-object", "%s", j.dump().c_str());
        });
    }
}
