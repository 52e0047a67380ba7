// vk: sources=crosssection,EnergyCutSettings,medium,Constants,methods,Logging,math,particle,decay,propagation_utility/D,propagation_utility/I,propagation_utility/T,propagation_utility/C,propagation_utility/PropagationUtilityI flavor=o1 shards=8 limit=800
#include "stub.h"
#include <map>
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/crosssection/ParticleDefaultCrossSectionList.h"
using namespace PROPOSAL; using stub::fn;
struct Model { std::string name; stub::list xs; fn a, n, s; double low; ParticleDef p; bool real; double ceil; };
static std::shared_ptr<const EnergyCutSettings> crcut() { return std::make_shared<EnergyCutSettings>(500, 0.05, true); }
static Model mk(std::string nm, fn a, fn n, fn s, double low, ParticleDef p)
{   // the losses are spread over three processes, one of which has no continuous loss and one no rate
    auto I = InteractionType::Ioniz, B = InteractionType::Brems, W = InteractionType::WeakInt;
    stub::list l { std::make_shared<stub::X>(I, [=](double e) { return 0.25 * a(e); }, [=](double e) { return 0.5 * s(e); }, std::vector<stub::Target> { { 1, [=](double e) { return 0.5 * n(e); } } }, low, crcut()),
        std::make_shared<stub::X>(B, [=](double e) { return 0.75 * a(e); }, [=](double e) { return 0.5 * s(e); }, std::vector<stub::Target> { { 2, [=](double e) { return 0.25 * n(e); } }, { 3, [=](double e) { return 0.125 * n(e); } } }, low * 2),
        std::make_shared<stub::X>(W, fn(), fn(), std::vector<stub::Target> { { 4, [=](double e) { return 0.125 * n(e); } } }, low * 3) };
    return { nm, l, a, n, s, low, p, false, 1e14 };
}
// energies of a model: lower limit, just above, and decades
static std::vector<double> energies(Model const& m, bool interpol) { std::vector<double> v { m.low, m.low * 1.001, m.low * 1.5 }; if (m.real) { if (interpol) v = { m.low, m.low * 1.5, 500, 1e4, 1e6 }; else v = { m.low, m.low * 1.5, 1e4 }; v.erase(std::remove_if(v.begin(), v.end(), [&](double e) { return e < m.low; }), v.end()); std::sort(v.begin(), v.end()); return v; } for (double e : { 5e2, 1e4, 1e6, 1e9 }) if (e > m.low * 2) v.push_back(e); if (vk::thorough() && !m.real) for (double e : { 2e3, 1e5, 1e7, 1e8, 1e11 }) if (e > m.low * 2) v.push_back(e); std::sort(v.begin(), v.end()); return v; }
// everything with one signature: path, time, depth, decay depth, variance between two energies
struct Quantity { std::string name; std::function<double(double, double)> get; std::function<double(double, double)> ref; std::function<double(double, double)> inv; /* energy for (E, amount) */ bool refuses; };
static void run(Model const& m, bool interpol)
{
    auto disp = std::shared_ptr<Displacement>(make_displacement(m.xs, interpol)); auto E = energies(m, interpol);
    std::vector<std::unique_ptr<Decay>> decs; std::vector<Quantity> Q; double M = m.p.mass;
    VK_CHECK(disp->GetLowerLim() == m.low, "lowerlim", "%s: displacement lower limit %.17g, smallest of the cross sections %.17g", m.name.c_str(), disp->GetLowerLim(), m.low);
    std::map<std::tuple<int, double, double>, double> memo; int serial = 0;
    auto over = [&](fn f, int id, double hi, double lo) { auto k = std::make_tuple(id, hi, lo); auto it = memo.find(k); if (it != memo.end()) return it->second; return memo[k] = M > 0 ? stub::coshint(f, M, lo, hi, m.real ? 1e-5 : 1e-9) : stub::logint(f, lo, hi, m.real ? 1e-5 : 1e-9); }; (void)serial;
    fn one = [&](double e) { double a = m.a(e); return a > 0 ? 1 / a : 0; };
    Q.push_back({ "path", [&](double i, double f) { return disp->SolveTrackIntegral(i, f); }, [&](double i, double f) { return over(one, 0, i, f); }, [&](double i, double x) { return disp->UpperLimitTrackIntegral(i, x); }, true });
    auto inter = make_interaction(disp, m.xs, interpol, false); fn depth = [&](double e) { return one(e) * m.n(e); };
    Q.push_back({ "depth", [&](double i, double f) { return inter->EnergyIntegral(i, f); }, [&](double i, double f) { return over(depth, 1, i, f); }, [&](double i, double x) { return inter->EnergyInteraction(i, std::exp(-x)); }, false });
    auto time = make_time(disp, m.p, interpol); fn tm = [&](double e) { return one(e) * e / (SPEED * std::sqrt((e - M) * (e + M))); };
    std::vector<double> dens { 1, 0.9168 };
    Q.push_back({ "time", [&](double i, double f) { return time->TimeElapsed(i, f, 1e300, 1); }, [&](double i, double f) { return over(tm, 2, i, f); }, nullptr, false });
    auto cr = make_contrand(disp, m.xs, interpol); fn var = [&](double e) { return one(e) * m.s(e); };
    Q.push_back({ "variance", [&](double i, double f) { return cr->Variance(i, f); }, [&](double i, double f) { return over(var, 3, i, f); }, nullptr, false });
    std::unique_ptr<Decay> dec; fn dk = [&](double e) { return one(e) * M / (SPEED * std::sqrt((e - M) * (e + M))); };
    if (M > 0 && m.p.lifetime > 0) { dec = make_decay(disp, m.p, interpol);
        for (double rho : dens) Q.push_back({ vk::f("decay*%g", rho), nullptr, [&, rho](double i, double f) { return over(dk, 4, i, f) / (m.p.lifetime * rho); }, [&, rho](double i, double x) { return dec->EnergyDecay(i, std::exp(-x), rho); }, false }); }
    // tolerance against the independent quadrature: the library asks its Romberg integrator for 1e-5; at rest the velocity gives an inverse square-root
    // singularity where it stops a few percent short; the default sets are not smooth where one process sets in
    auto tol = [&](Quantity const& q, double lo) { if (interpol) return 1e-3; double t = m.real ? 2e-2 : 2e-3; if ((q.name == "time" || q.name[0] == 'd' && q.name[1] == 'e' && q.name[2] == 'c') && lo < 10 * M) t = 0.06; return t; };
    auto chk = [&](Quantity const& q) {
        if (!q.get) return; double top = interpol ? q.ref(E.back(), m.low) : 0;
        for (size_t i = 0; i < E.size(); ++i) for (size_t j = 0; j <= i; ++j) {
            vk::state(vk::hs(m.name + q.name + vk::f("%zu,%zu,%d", i, j, interpol))); vk::trans();
            double v = q.get(E[i], E[j]), r = q.ref(E[i], E[j]);
            if (i == j) { VK_CHECK(v == 0, "zero", "%s %s(%g,%g) = %.17g for equal energies", m.name.c_str(), q.name.c_str(), E[i], E[j], v); continue; }
            VK_CHECK(v >= (interpol ? -1e-12 * top : 0), "negative", "%s %s(%g,%g) = %.17g", m.name.c_str(), q.name.c_str(), E[i], E[j], v);
            VK_CLOSE(v, r, tol(q, E[j]), top * (interpol ? 1e-4 : 0), "value", "%s %s(%g,%g)", m.name.c_str(), q.name.c_str(), E[i], E[j]);
            for (size_t k = 0; k <= j; ++k) { double w = q.get(E[j], E[k]), t = q.get(E[i], E[k]); VK_CLOSE(v + w, t, interpol ? 1e-9 : tol(q, E[k]), top * 1e-12, "additive", "%s %s over %g, %g, %g", m.name.c_str(), q.name.c_str(), E[i], E[j], E[k]); }
        }
    };
    auto inv = [&](Quantity const& q) {
        if (!q.inv) return;
        for (size_t i = 0; i < E.size(); ++i) {
            auto amount = [&](double a, double b) { return interpol && q.get ? q.get(a, b) : q.ref(a, b); }; double all = amount(E[i], m.low); if (!(all > 0)) { if (!q.refuses) { double e = q.inv(E[i], 0.5); VK_CHECK(e == m.low, "inv-low", "%s %s: energy %.17g for an amount of 0.5, only 0 available", m.name.c_str(), q.name.c_str(), e); } continue; }
            double prev = INFINITY; std::vector<double> X;
            if (q.name == "path") { X = { 0, 1e-6 * all, 0.01 * all, 0.3 * all, 0.7 * all, 0.99 * all }; }
            else X = { 0, 1e-9, 1e-3, 0.1, 0.5, 1, 2, 5, 20, 0.999 * all };
            std::sort(X.begin(), X.end());
            for (double x : X) {
                vk::state(vk::hs(m.name + q.name + vk::f("inv%zu,%.12g,%d", i, x, interpol))); vk::trans();
                if (q.name != "path") { double e2 = std::exp(-x); x = -std::log(e2); } // the amount the rounded random number stands for
                if (x > 0.995 * all && x < 1.005 * all) continue; // at the end itself: below
                double e; 
                if (q.name == "path" && x > all) continue;
                e = q.inv(E[i], x);
                VK_CHECK(e >= m.low * (1 - 1e-14) && e <= E[i] * (1 + 1e-12), "inv-range", "%s %s: energy %.17g for amount %g from %.17g", m.name.c_str(), q.name.c_str(), e, x, E[i]);
                VK_CHECK(e <= prev * (1 + 1e-9) + (interpol ? 0 : 1e-5 * (E[i] - m.low)), "inv-monotone", "%s %s: energy %.17g for amount %g from %g, %.17g for a smaller one", m.name.c_str(), q.name.c_str(), e, x, E[i], prev); prev = e;
                if (x > all) { VK_CHECK(e == m.low, "inv-low", "%s %s: energy %.17g for amount %g of %g, lower limit %g", m.name.c_str(), q.name.c_str(), e, x, all, m.low); continue; }
                if (interpol && !q.get && E[i] < 2 * m.low) continue; // within the first table cells only the object itself could say
                double got = amount(E[i], std::max(e, m.low));
                VK_CLOSE(got, x, interpol && q.get ? 1e-6 : tol(q, e), (interpol && q.get ? (E[i] - e < 2e-6 * E[i] ? 2e-3 : 1e-9) : interpol ? 2e-3 : 2e-5) * all, "inverse", "%s %s: from %g amount %g of %g gives energy %.17g, which is amount %.17g", m.name.c_str(), q.name.c_str(), E[i], x, all, e, got);
            }
            if (q.refuses) { VK_CHECK(vk::throws([&] { q.inv(E[i], 1.01 * all); }), "beyond", "%s path beyond the lower limit from %g is not refused", m.name.c_str(), E[i]);
                VK_CHECK(vk::throws([&] { q.inv(E[i], 1e3 * all); }), "beyond", "%s path far beyond the lower limit from %g is not refused", m.name.c_str(), E[i]); }
            else if (q.get || !interpol || E[i] > 10 * m.low) { if (all < 1e-12) continue; double e1 = q.inv(E[i], 1.05 * all); VK_CHECK(e1 == m.low || all > 700, "inv-low", "%s %s: energy %.17g for more than the available %g from %g is not the lower limit", m.name.c_str(), q.name.c_str(), e1, all, E[i]); }
        }
    };
    // physics relations between the quantities
    for (size_t i = 0; i < E.size(); ++i) for (size_t j = 0; j < i; ++j) {
        double x = disp->SolveTrackIntegral(E[i], E[j]); 
        for (double rho : dens) { double t = time->TimeElapsed(E[i], E[j], x, rho), c = x / (rho * SPEED), t1 = time->TimeElapsed(E[i], E[j], x, 1);
            VK_CLOSE(t * rho, t1, 1e-12, 0, "time-density", "%s time(%g,%g) at density %g", m.name.c_str(), E[i], E[j], rho);
            VK_CHECK(t >= c * (1 - (interpol ? 2e-3 : m.real ? 2e-2 : 2e-3)) - (interpol ? 1e-4 * disp->SolveTrackIntegral(E.back(), m.low) / SPEED : 0), "light", "%s time(%g,%g) = %.17g below the light travel time %.17g", m.name.c_str(), E[i], E[j], t, c);
            if (M == 0 || E[j] > 1e3 * M) VK_CLOSE(t, c, interpol ? 4e-3 : m.real ? 2e-2 : 2e-3, interpol ? 2e-4 * disp->SolveTrackIntegral(E.back(), m.low) / SPEED : 0, "boost", "%s time(%g,%g) against light travel time", m.name.c_str(), E[i], E[j]);
            ApproximateTimeBuilder ap; VK_CLOSE(ap.TimeElapsed(E[i], E[j], x, rho), c, 1e-14, 0, "approx", "simple time for %g g/cm2", x); }
    }
    // the same object answers the same whatever was asked before: all ordered pairs of kinds of question
    for (auto& q : Q) chk(q);
    for (auto& q : Q) inv(q);
    std::vector<std::pair<std::string, std::function<double()>>> ask;
    double Ea = E[E.size() - 1], Eb = E[E.size() - 2], Ec = E[2];
    for (auto& q : Q) { if (q.get) for (auto pr : { std::make_pair(Ea, Ec), std::make_pair(Eb, m.low) }) ask.push_back({ q.name + vk::f("(%g,%g)", pr.first, pr.second), [&q, pr] { return q.get(pr.first, pr.second); } });
        if (q.inv) for (double e : { Ea, Ec }) for (double fr : { 0.2, 0.6 }) { double x = fr * (q.refuses ? q.ref(e, m.low) : std::min(q.ref(e, m.low), 3.)); ask.push_back({ q.name + vk::f("^-1(%g,%g)", e, x), [&q, e, x] { return q.inv(e, x); } }); } }
    std::vector<double> base; for (auto& a : ask) base.push_back(a.second());
    if (m.real) { ask.resize(8); base.resize(8); }
    for (size_t i = 0; i < ask.size(); ++i) for (size_t j = 0; j < ask.size(); ++j) { vk::trans(); ask[i].second(); double v = ask[j].second(); VK_CHECK(v == base[j], "history", "%s: %s after %s is %.17g, was %.17g", m.name.c_str(), ask[j].first.c_str(), ask[i].first.c_str(), v, base[j]); }
    // randomisation stays between the limits, is monotone in the random number and centred on the mean
    for (size_t i = 1; i < E.size(); ++i) for (size_t j = 0; j <= i; ++j) { double prev = -1; for (double mn : { 0., m.low * 1.2 }) { if (E[j] < mn) continue; prev = -1;
        for (double r : { 1e-6, 0.01, 0.2, 0.5, 0.8, 0.99, 1 - 1e-6 }) { vk::state(vk::hs(m.name + vk::f("cr%zu,%zu,%g,%g,%d", i, j, r, mn, interpol))); double e = cr->EnergyRandomize(E[i], E[j], r, mn);
            double V = cr->Variance(E[i], E[j]); VK_CHECK(e >= std::max(m.low, mn) && e <= E[i], "random-range", "%s randomised energy %.17g outside [%g,%g]", m.name.c_str(), e, std::max(m.low, mn), E[i]);
            if (V > 0) VK_CHECK(e >= prev * (1 - 1e-9), "random-monotone", "%s randomised energy decreases with the random number (%g,%g,%g)", m.name.c_str(), E[i], E[j], r); prev = e;
            if (!(V > 0)) VK_CLOSE(e, E[j], 1e-9, 0, "random-none", "%s no variance but randomised (%g,%g,%g)", m.name.c_str(), E[i], E[j], r);
            double sd = std::sqrt(std::max(V, 0.)); if (r == 0.5 && sd > 0 && E[j] - 7 * sd > std::max(m.low, mn) && E[j] + 7 * sd < E[i]) VK_CLOSE(e, E[j], 1e-6, 0, "random-mean", "%s median of (%g,%g)", m.name.c_str(), E[i], E[j]);
            if (sd > 1e-6 * E[j] && E[j] - 7 * sd > std::max(m.low, mn) && E[j] + 7 * sd < E[i]) { double z = (e - E[j]) / sd, P = 0.5 * std::erfc(-z / std::sqrt(2.)); VK_CLOSE(P, r, 1e-3, 1e-5, "random-width", "%s distribution of (%g,%g) at %g", m.name.c_str(), E[i], E[j], r); } } } }
}
void vk_main()
{
    vk::bound("stub models with closed integrands (3 processes each), default cross section sets of mu, tau, e- and gamma-like stubs; energy grid from the lower limit to 1e9 MeV (1e11 thorough); all pairs and triples; all ordered pairs of questions to one object");
    std::vector<std::function<Model()>> G; MuMinusDef mu; TauMinusDef tau; EMinusDef e; GammaDef g;
    auto add = [&](std::string nm, fn a, fn n, fn s, double low, ParticleDef p) { G.push_back([=] { return mk(nm, a, n, s, low, p); }); };
    fn lin = [](double E) { return 2 + 3e-6 * E; }, c2 = [](double) { return 2.; }, pr = [](double E) { return 1e-5 * E; };
    fn n0 = [](double) { return 1e-3; }, nl = [](double E) { return 1e-4 * std::log(1 + E); }, ns = [](double E) { return 1e-3 * std::sqrt(E / 1e3); };
    fn s2 = [](double E) { return 1e-7 * E * E; }, s1 = [](double E) { return 1e-4 * E; };
    add("mu.lin", lin, nl, s2, mu.mass, mu); add("mu.lin200", lin, n0, s1, 200, mu); add("mu.const", c2, ns, s1, 150, mu); add("tau.lin", lin, nl, s2, tau.mass, tau); add("tau.rad", pr, nl, s2, 2 * tau.mass, tau);
    add("e.lin", [](double E) { return 2 + 0.02 * E; }, nl, [](double E) { return 1e-3 * E * E; }, e.mass, e); add("e.lin10", [](double E) { return 2 + 0.02 * E; }, n0, [](double E) { return 1e-3 * E * E; }, 10, e); add("gamma.rad", pr, nl, s2, 1.5, g);
    if (vk::thorough()) { add("mu.steep", [](double E) { return 1e-3 * std::sqrt(E) + 1; }, ns, s1, 300, mu); }
    for (auto& gen : G) for (int ip = 0; ip < 2; ++ip) { auto nm = gen().name; vk::cs(vk::f("stub.%s.%s", nm.c_str(), ip ? "interpol" : "integral"), [=] { run(gen(), ip); }); }
    // real default sets, with interpolated cross sections: the reference integrates the very same cross sections
    struct Real { std::string n; ParticleDef p; std::function<stub::list(Medium const&, std::shared_ptr<const EnergyCutSettings>)> mk; };
    std::vector<Real> R { { "mu", mu, [](Medium const& m, std::shared_ptr<const EnergyCutSettings> c) { return GetStdCrossSections(MuMinusDef(), m, c, true); } } };
    if (vk::thorough()) { R.push_back({ "tau", tau, [](Medium const& m, std::shared_ptr<const EnergyCutSettings> c) { return GetStdCrossSections(TauMinusDef(), m, c, true); } }); R.push_back({ "e", e, [](Medium const& m, std::shared_ptr<const EnergyCutSettings> c) { return GetStdCrossSections(EMinusDef(), m, c, true); } }); }
    for (auto& r : R) for (int cut = 0; cut < (vk::thorough() ? 2 : 1); ++cut) for (int med = 0; med < (vk::thorough() ? 2 : 1); ++med) for (int ip = vk::thorough() ? 0 : 1; ip < 2; ++ip) // the integrator works up to its step limit on interpolated cross sections
        vk::cs(vk::f("real.%s.%d.%d.%s", r.n.c_str(), cut, med, ip ? "interpol" : "integral"), [=] {
            auto c = cut ? std::make_shared<const EnergyCutSettings>(INF, 0.05, true) : crcut(); auto m = med ? Medium(StandardRock()) : Medium(Ice());
            auto l0 = r.mk(m, c); stub::list l; for (auto& x : l0) if (x->GetInteractionType() == InteractionType::Brems || x->GetInteractionType() == InteractionType::Ioniz) l.push_back(x); // the tables of the others take minutes
            double low = INFINITY; for (auto& x : l) low = std::min(low, x->GetLowerEnergyLim());
            Model M { r.n, l, [l](double E) { double s = 0; for (auto& x : l) s += x->CalculatedEdx(E); return s; }, [l](double E) { double s = 0; for (auto& x : l) s += x->CalculatedNdx(E); return s; }, [l](double E) { double s = 0; for (auto& x : l) s += x->CalculatedE2dx(E); return s; }, low, r.p, true, 1e14 };
            run(M, ip); });
    vk::cs("refusal", [] { VK_CHECK(vk::throws([] { make_displacement(stub::list(), false); }), "empty", "displacement without cross sections accepted"); 
        auto m = mk("x", [](double) { return 1.; }, [](double) { return 1.; }, [](double) { return 1.; }, 200, MuMinusDef()); auto d = std::shared_ptr<Displacement>(make_displacement(m.xs, false));
        VK_CHECK(vk::throws([&] { make_interaction(d, stub::list(), false, false); }), "empty", "interaction without cross sections accepted");
        stub::list nc { std::make_shared<stub::X>(InteractionType::Ioniz, [](double) { return 1.; }, fn(), std::vector<stub::Target>(), 200, std::make_shared<EnergyCutSettings>(500, 0.05, false)) };
        VK_CHECK(vk::throws([&] { make_contrand(d, nc, false); }), "norandom", "continuous randomisation without tables accepted"); });
}
