// vk: sources=EnergyCutSettings,medium,Constants,methods,Logging,math flavor=asan shards=8 limit=800
#include "vk.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
#include <nlohmann/json.hpp>
#include <sstream>
using namespace PROPOSAL;
using nlohmann::json;

static double want(double e, double v, double E) { long double r = std::isinf(e) ? INFINITY : (long double)e / E; return r < v ? double(r) : v; }
static void judge(EnergyCutSettings const& c, double e, double v, bool r, std::string const& h)
{
    VK_CHECK(c.GetEcut() == e && c.GetVcut() == v && c.GetContRand() == r, "values", "%s: %.17g %.17g %d", h.c_str(), c.GetEcut(), c.GetVcut(), int(c.GetContRand()));
}
void vk_main()
{
    std::vector<double> ec = { 5e-324, 1e-300, 1e-12, 1e-3, 0.1, 1, 500, 500 * (1 + 3e-16), 1000, 1e6, 1e14, 1e300, INFINITY }, vc = { 5e-324, 1e-300, 1e-12, 1e-4, 0.05, 0.5, nextafter(0.5, 1), 1 - 1.2e-16, 1 };
    std::vector<double> en = { 1e-300, 1e-6, 0.511, 1, 105.658, 500, 1000, 2000, 1e4, 1e6, 1e10, 1e14, 1e20, 1e300 };
    for (int i = -8; i < 60; ++i) { en.push_back(pow(2, i)); en.push_back(1000 / pow(0.7, i)); }
    struct L { double a, b; }; std::vector<L> lim; std::vector<double> lv = { 0, 5e-324, 1e-9, 1e-3, 0.05, 0.3, 0.5, 0.9, 1 - 1.2e-16, 1 };
    for (double a : lv) for (double b : lv) lim.push_back({ a, b });
    vk::bound(vk::f("%zu e_cut x %zu v_cut x randomisation x %zu energies x %zu kinematic limits (including empty ranges)", ec.size(), vc.size(), en.size(), lim.size()));
    for (double e : ec) for (double v : vc) for (int r = 0; r < 2; ++r)
        vk::cs(vk::f("cut-%g-%.17g-%d-%a", e, v, r, e), [&] {
            EnergyCutSettings c(e, v, r); judge(c, e, v, r, "constructor"); EnergyCutSettings d(e, v); judge(d, e, v, false, "default randomisation");
            EnergyCutSettings k(c); judge(k, e, v, r, "copy"); EnergyCutSettings as(7, 0.7, !r); as = c; judge(as, e, v, r, "assign"); VK_CHECK(k == c && as == c && k.GetHash() == c.GetHash(), "copy-equal", "%g %g", e, v);
            std::ostringstream os; os << c; VK_CHECK(os.str().size() > 20, "print", "empty");
            for (double E : en) {
                double w = want(e, v, E), g = c.GetCut(E);
                VK_CLOSE(g, w, 3e-16, 5e-324, "cut", "e=%.17g v=%.17g E=%.17g", e, v, E); VK_CHECK(g <= v && g >= 0 && (g <= e / E), "cut", "e=%.17g v=%.17g E=%.17g: %.17g", e, v, E, g);
                vk::state(vk::hd(vk::hd(vk::hd(r, e), v), E));
                for (auto& l : lim) { crosssection::KinematicLimits kl; kl.v_min = l.a; kl.v_max = l.b; double x = c.GetCut(kl, E);
                    double y = l.a > g ? l.a : g; y = y > l.b ? l.b : y;
                    VK_CHECK(x == y, "cut-limits", "e=%g v=%g E=%g limits %g %g: %.17g want %.17g", e, v, E, l.a, l.b, x, y); }
            }
            judge(c, e, v, r, "after use");
            // json: all spellings of the same setting
            std::vector<json> js; json b; b["v_cut"] = v; b["cont_rand"] = bool(r);
            if (std::isinf(e)) for (auto s : { "inf", "Inf", "INF", "infinity", "Infinity", "INFINITY", "iNf", "inFINity" }) { json j = b; j["e_cut"] = s; js.push_back(j); }
            else { json j = b; j["e_cut"] = e; js.push_back(j); if (e == std::floor(e) && e < 1e15) { j["e_cut"] = (long)e; js.push_back(j); } }
            { size_t n = js.size(); for (size_t i = 0; i < n; ++i) { json j = js[i]; j["other"] = 3; js.push_back(j); if (v == 1) { j["v_cut"] = 1; js.push_back(j); } } }
            for (auto& j : js) {
                EnergyCutSettings x(j); judge(x, e, v, r, j.dump()); VK_CHECK(x == c && c == x && x.GetHash() == c.GetHash(), "json", "%s", j.dump().c_str());
                if (!std::isinf(e)) { EnergyCutSettings y(json::parse(j.dump())); judge(y, e, v, r, "parsed " + j.dump()); }
            }
            // every single corruption of the description is refused
            json g = js[0]; int nbad = 0;
            auto bad = [&](json const& j) { ++nbad; VK_CHECK(vk::throws([&] { EnergyCutSettings x(j); }), "corrupt-json", "accepted: %s", j.dump().c_str()); };
            for (auto key : { "e_cut", "v_cut", "cont_rand" }) { json j = g; j.erase(key); bad(j); j = g; j.erase(key); std::string s = key; s[0] = 'E'; j[s] = g[key]; bad(j); for (json x : { json(nullptr), json::array(), json::object(), json("x"), json("") }) { j = g; j[key] = x; bad(j); } }
            for (json x : { json(0), json(0.0), json(-1), json(-0.5), json(-1e300) }) { json j = g; j["e_cut"] = x; bad(j); j = g; j["v_cut"] = x; bad(j); }
            for (json x : { json(nextafter(1, 2)), json(1.5), json(2), json("1"), json("inf") }) { json j = g; j["v_cut"] = x; bad(j); }
            for (json x : { json("-inf"), json("500"), json("nan"), json("in"), json("infinit") , json("infinity1") }) { json j = g; j["e_cut"] = x; bad(j); }
            for (json x : { json("true"), json("yes") }) { json j = g; j["cont_rand"] = x; bad(j); }
            vk::outcome(vk::f("refused %d descriptions", nbad));
            // equality against every other setting
            for (double e2 : ec) for (double v2 : vc) for (int r2 = 0; r2 < 2; ++r2) { EnergyCutSettings o(e2, v2, r2); bool s = e == e2 && v == v2 && r == r2; VK_CHECK((c == o) == s && (o == c) == s, "equality", "(%.17g %.17g %d) == (%.17g %.17g %d) is %d", e, v, r, e2, v2, r2, int(c == o));
                if (e != e2 || v != v2) VK_CHECK(c.GetHash() != o.GetHash(), "hash", "(%.17g %.17g) and (%.17g %.17g) share a hash", e, v, e2, v2); else if (s) VK_CHECK(c.GetHash() == o.GetHash(), "hash", "equal"); }
        });
    vk::cs("refused", [&] {
        std::vector<double> be = { 0, -0., -5e-324, -1, -500, -INFINITY, NAN }, bv = { 0, -0., -5e-324, -0.5, -1, nextafter(1, 2), 1.0001, 2, 1e300, INFINITY, -INFINITY, NAN };
        auto refused = [&](double e, double v, bool r) { bool th = false; try { EnergyCutSettings c(e, v, r); } catch (std::invalid_argument const&) { th = true; } VK_CHECK(th, "refused", "e=%g v=%g accepted", e, v); vk::state(vk::hd(vk::hd(8, e), v)); };
        for (int r = 0; r < 2; ++r) { for (double e : be) { for (double v : vc) refused(e, v, r); for (double v : bv) refused(e, v, r); } for (double v : bv) for (double e : ec) refused(e, v, r); }
    });
}
