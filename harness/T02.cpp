// vk: sources=crosssection,EnergyCutSettings,medium,Constants,methods,Logging,math,particle,decay,propagation_utility/D,propagation_utility/I,propagation_utility/T,propagation_utility/C,propagation_utility/PropagationUtilityI flavor=o1 shards=8 limit=800
#include "stub.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include <map>
#include <set>
using namespace PROPOSAL; using stub::fn; using I = InteractionType;
static const I types[] = { I::Ioniz, I::Brems, I::Epair, I::Photonuclear };
static std::shared_ptr<Displacement> disp(stub::list const& l) { return std::shared_ptr<Displacement>(make_displacement(l, false)); }
// one process set: targets with rates in whole units
static void shares(std::vector<std::vector<int>> const& R, double unit, double E)
{
    stub::list l; long total = 0; std::map<std::pair<int, size_t>, int> want; size_t h = 100;
    std::vector<std::shared_ptr<stub::X>> xs;
    for (size_t i = 0; i < R.size(); ++i) { std::vector<stub::Target> t; for (int r : R[i]) { t.push_back({ ++h, [r, unit](double) { return r * unit; } }); want[{ (int)types[i], h }] = r; total += r; }
        auto x = std::make_shared<stub::X>(types[i], [](double) { return 1.; }, fn(), t, 100); xs.push_back(x); l.push_back(x); }
    auto in = make_interaction(disp(l), l, false, false); std::string nm; for (auto& v : R) { nm += "["; for (int r : v) nm += vk::f("%d ", r); nm += "]"; }
    auto rates = in->Rates(E); double sum = 0; std::set<std::pair<int, size_t>> seen;
    for (auto& r : rates) { sum += r.rate; auto k = std::make_pair((int)r.crosssection->GetInteractionType(), r.comp_hash); VK_CHECK(seen.insert(k).second, "twice", "%s: rate of (%d,%zu) listed twice", nm.c_str(), k.first, k.second); auto it = want.find(k);
        VK_CHECK(it != want.end() && r.rate == it->second * unit, "rate", "%s: rate of (%d,%zu) is %g, expected %g", nm.c_str(), k.first, k.second, r.rate, it == want.end() ? -1 : it->second * unit);
        bool own = false; for (auto& x : xs) own |= x == r.crosssection; VK_CHECK(own, "own", "%s: rate of a process that was not given", nm.c_str()); }
    for (auto& w : want) VK_CHECK(w.second == 0 || seen.count(w.first), "missing", "%s: no rate for (%d,%zu)", nm.c_str(), w.first.first, w.first.second);
    VK_CLOSE(sum, total * unit, 1e-13, 0, "total", "%s: sum of the rates", nm.c_str());
    double mfp = in->MeanFreePath(E); if (total) VK_CLOSE(mfp, 1 / (total * unit), 1e-13, 0, "mfp", "%s: mean free path", nm.c_str()); else VK_CHECK(std::isinf(mfp) && mfp > 0, "mfp", "%s: mean free path %g without any rate", nm.c_str(), mfp);
    if (!total) { for (double r : { 0., 0.3, 1 - std::ldexp(1., -53) }) { auto L = in->SampleLoss(E, rates, r); VK_CHECK(L.type == I::Undefined && L.v_loss == 0, "none", "%s: interaction of type %d without any rate", nm.c_str(), (int)L.type); } return; }
    // K random numbers in the middle of each unit: exact counts and uniform loss quantiles in every share
    const int K = 4; long N = total * K; std::map<std::pair<int, size_t>, std::vector<double>> got;
    auto ask = [&](double rnd, bool keep) {
        vk::state(vk::hs(nm + vk::f("%.17g,%g,%g", rnd, unit, E))); vk::trans(); for (auto& x : xs) x->asked.clear(); auto L = in->SampleLoss(E, rates, rnd); auto k = std::make_pair((int)L.type, L.comp_hash); auto it = want.find(k);
        VK_CHECK(it != want.end() && it->second > 0, "chosen", "%s: random number %.17g chooses (%d,%zu), which has no rate", nm.c_str(), rnd, k.first, k.second);
        if (it == want.end()) return; VK_CHECK(L.v_loss >= 0 && L.v_loss <= 1 + 1e-9, "loss", "%s: loss fraction %.17g of the quantile asked for at random number %.17g", nm.c_str(), L.v_loss, rnd);
        size_t n = 0; for (auto& x : xs) { n += x->asked.size(); for (auto& a : x->asked) VK_CHECK((int)x->type == k.first && std::get<0>(a) == k.second && std::get<1>(a) == E && std::get<2>(a) >= 0, "asked", "%s: loss asked of type %d target %zu at energy %g (interaction energy %g) with rate %g", nm.c_str(), (int)x->type, std::get<0>(a), std::get<1>(a), E, std::get<2>(a)); }
        VK_CHECK(n == 1, "asked", "%s: loss asked %zu times", nm.c_str(), n); if (keep) got[k].push_back(L.v_loss); };
    for (long i = 0; i < N; ++i) ask((i + 0.5) / N, true);
    for (auto& w : want) { auto& g = got[w.first]; VK_CHECK((long)g.size() == (long)w.second * K, "share", "%s: (%d,%zu) chosen by %zu of %ld random numbers, expected %d", nm.c_str(), w.first.first, w.first.second, g.size(), N, w.second * K);
        if ((long)g.size() != (long)w.second * K) continue; std::sort(g.begin(), g.end()); for (size_t i = 0; i < g.size(); ++i) VK_CLOSE(g[i], (i + 0.5) / g.size(), 1e-9, 1e-12, "quantile", "%s: loss quantiles of (%d,%zu)", nm.c_str(), w.first.first, w.first.second); }
    for (long i = 0; i <= total; ++i) { double b = (double)i / total; for (double r : { std::nextafter(b, 0), b, std::nextafter(b, 1) }) if (r >= 0 && r < 1) ask(r, false); }
    for (double r : { 5e-324, 1e-300, std::ldexp(1., -53), std::ldexp(1., -33), 1 - std::ldexp(1., -53), 1 - std::ldexp(1., -33) }) ask(r, false);
    for (double r : { 1.01, 2. }) VK_CHECK(vk::throws([&] { in->SampleLoss(E, rates, r); }), "outside", "%s: random number %g accepted", nm.c_str(), r);
}
void vk_main()
{
    vk::bound("all sets of up to 3 processes with up to 2 targets (thorough: 4 and 3) with rates of 0..3 units, three units; all random numbers in the middle of a quarter unit, at and next to each share border and at the ends; catalogue processes for mu, e+, gamma in three media");
    std::vector<std::vector<int>> T { {}, { 0 }, { 1 }, { 3 }, { 0, 2 }, { 1, 0 }, { 1, 2 }, { 3, 1 } }; if (vk::thorough()) { T.push_back({ 2, 0, 1 }); T.push_back({ 1, 1, 1 }); T.push_back({ 0, 0, 3 }); }
    std::vector<std::vector<std::vector<int>>> sets; for (auto& a : T) { sets.push_back({ a }); for (auto& b : T) { sets.push_back({ a, b }); for (auto& c : T) { sets.push_back({ a, b, c }); if (vk::thorough()) for (auto& d : T) sets.push_back({ a, b, c, d }); } } }
    for (double unit : { 1., 0.1, 3.7e-9 }) for (size_t b = 0; b < 8; ++b) vk::cs(vk::f("shares.%g.%zu", unit, b), [=] { for (size_t i = b; i < sets.size(); i += 8) shares(sets[i], unit, 1e4); });
    // rates that follow the energy; interpolated mean free path
    vk::cs("energy", [] {
        fn f = [](double E) { return E > 1e3 ? 1e-4 * std::log(E / 1e3) : 0; }, g = [](double E) { return 2e-5 * std::sqrt(E / 100); };
        for (int thr = 0; thr < 2; ++thr) { stub::list l { std::make_shared<stub::X>(I::Brems, [](double) { return 1.; }, fn(), std::vector<stub::Target> { { 1, f }, { 2, [=](double E) { return 2 * f(E); } } }, 100) };
            if (!thr) l.push_back(std::make_shared<stub::X>(I::Ioniz, [](double) { return 1.; }, fn(), std::vector<stub::Target> { { 3, g } }, 100));
            auto tot = [&](double E) { return 3 * f(E) + (thr ? 0 : g(E)); };
            for (int ip = 0; ip < 2; ++ip) { auto in = make_interaction(disp(l), l, false, ip); auto in2 = make_interaction(l, false, ip); double prev = -1;
                for (double E = 100; E < 1e13; E *= 1.17) { vk::state(vk::hs(vk::f("mfp%g,%d,%d", E, ip, thr))); double m = in->MeanFreePath(E), t = tot(E), s = 0; for (auto& r : in->Rates(E)) s += r.rate; VK_CLOSE(s, t, 1e-12, 0, "total", "sum of rates at %g", E);
                    if (t > 0 && (!ip || E > 1.3e3 || !thr)) VK_CLOSE(m, 1 / t, ip ? (E > 2e3 || E < 900 ? 1e-4 : 0.2) : 1e-12, 0, "mfp", "mean free path at %g (interpolated: %d)", E, ip); else if (!(t > 0)) VK_CHECK(std::isinf(m) && m > 0, "mfp", "mean free path %g at %g below the threshold (interpolated: %d)", m, E, ip);
                    VK_CHECK(in2->MeanFreePath(E) == m, "same", "mean free path at %g depends on who made the displacement", E); prev = m; } (void)prev; } } });
    // the library's own processes
    std::vector<xs::Spec> S; std::vector<std::pair<std::string, std::vector<xs::Spec>>> sets2; { std::map<std::string, std::map<std::string, xs::Spec>> m; for (auto& s : xs::all(false)) { if (s.opt != "" && s.opt != "hard") continue; if (s.fam == "epair" || s.fam == "mupair" || s.fam == "photoq2") { if (!vk::thorough()) continue; } auto k = s.p.name; if (!m[k].count(s.fam)) m[k].emplace(s.fam, s); }
        for (auto& k : m) { std::vector<xs::Spec> v; for (auto& f : k.second) v.push_back(f.second); sets2.push_back({ k.first, v }); } }
    int nm = vk::thorough() ? 4 : 3;
    for (auto& k : sets2) for (int mi = 0; mi < nm; ++mi) for (int ci = 0; ci < 3; ++ci) vk::cs(vk::f("real.%s.%d.%d", k.first.c_str(), mi, ci), [=] {
        std::vector<Medium> ms { Ice(), Uranium(), StandardRock(), Air() }; auto med = ms[mi]; double ec[] = { 500, 10, INF }, vc[] = { 0.05, 1, 0.3 }; auto cut = std::make_shared<const EnergyCutSettings>(ec[ci], vc[ci], false);
        stub::list l; std::map<int, xs::Spec const*> by; for (auto& s : k.second) { l.push_back(s.cross(med, s.stoch ? nullptr : cut)); by[(int)s.type] = &s; }
        auto in = make_interaction(disp(l), l, false, false); auto cl = med.GetComponents(); std::map<size_t, Component const*> comps; for (auto& c : cl) comps[c.GetHash()] = &c;
        for (double E : { k.second[0].p.mass * 1.5 + 1, 50., 3e3, 1e6, 1e10 }) { if (E < k.second[0].p.mass) continue;
            auto rates = in->Rates(E); double sum = 0, sumx = 0; std::set<std::pair<int, size_t>> seen; for (auto& r : rates) { sum += r.rate; VK_CHECK(r.rate >= 0, "negative", "rate %g of type %d", r.rate, (int)r.crosssection->GetInteractionType()); VK_CHECK(seen.insert({ (int)r.crosssection->GetInteractionType(), r.comp_hash }).second, "twice", "rate listed twice"); VK_CHECK(r.rate == r.crosssection->CalculatedNdx(E, r.comp_hash), "rate", "rate differs from the one of the process"); }
            for (auto& x : l) sumx += x->CalculatedNdx(E); VK_CLOSE(sum, sumx, 1e-9, 0, "total", "%s sum of partial rates at %g", k.first.c_str(), E); if (sum > 0) VK_CLOSE(in->MeanFreePath(E), 1 / sum, 1e-9, 0, "mfp", "%s mean free path at %g", k.first.c_str(), E); else { VK_CHECK(in->SampleLoss(E, rates, 0.4).type == I::Undefined, "none", "%s interaction without rate at %g", k.first.c_str(), E); continue; }
            std::vector<double> rn; for (int i = 0; i < 12; ++i) rn.push_back((i + 0.5) / 12); double acc = 0; for (auto& r : rates) { acc += r.rate; for (double d : { -1e-9, 1e-9 }) { double x = acc / sum + d; if (x > 0 && x < 1) rn.push_back(x); } } rn.push_back(1e-12); rn.push_back(1 - std::ldexp(1., -53)); std::sort(rn.begin(), rn.end());
            std::map<std::pair<int, size_t>, std::pair<double, double>> span; 
            for (double x : rn) { vk::state(vk::hs(vk::f("%s%d%d%g,%.12g", k.first.c_str(), mi, ci, E, x))); vk::trans(); auto L = in->SampleLoss(E, rates, x); auto key = std::make_pair((int)L.type, L.comp_hash); double rate = 0; for (auto& r : rates) if ((int)r.crosssection->GetInteractionType() == key.first && r.comp_hash == key.second) rate = r.rate;
                VK_CHECK(rate > 0, "chosen", "%s at %g: random number %.17g chooses (%d,%zu), which has no rate", k.first.c_str(), E, x, key.first, key.second); if (!by.count(key.first)) continue;
                auto& s = *by[key.first]; if (s.stoch) { VK_CHECK(L.v_loss == 1, "limits", "%s at %g: a process that takes everything lost the fraction %g", s.id().c_str(), E, L.v_loss); } double lo = 0, hi = 1; if (s.pc) { auto it = comps.find(key.second); VK_CHECK(it != comps.end(), "target", "%s: target %zu is no component of the medium", s.id().c_str(), key.second); if (it == comps.end()) continue; auto kl = s.pc(med, 1)->GetKinematicLimits(s.p, *it->second, E); lo = kl.v_min; hi = kl.v_max; } else if (s.pm) { auto kl = s.pm(med, *cut)->GetKinematicLimits(s.p, med, E); lo = kl.v_min; hi = kl.v_max; }
                if (!s.stoch) lo = std::max(lo, cut->GetCut(E)); 
                if (!s.stoch) VK_CHECK(L.v_loss >= lo * (1 - 1e-6) && L.v_loss <= hi * (1 + 1e-9), "limits", "%s at %g, random number %.17g: loss %.17g outside [%g,%g]", s.id().c_str(), E, x, L.v_loss, lo, hi);
                auto sp = span.insert({ key, { x, x } }).first; sp->second.second = x; }
            for (auto& sp : span) { double rate = 0; for (auto& r : rates) if ((int)r.crosssection->GetInteractionType() == sp.first.first && r.comp_hash == sp.first.second) rate = r.rate; VK_CHECK(sp.second.second - sp.second.first <= rate / sum + 1e-9, "share", "%s at %g: random numbers %.12g to %.12g choose (%d,%zu) with share %.12g", k.first.c_str(), E, sp.second.first, sp.second.second, sp.first.first, sp.first.second, rate / sum);
                 }
            // every share border was approached from both sides: the width is known to 2e-9
            for (auto& r : rates) if (r.rate / sum > 1e-6) { auto it = span.find({ (int)r.crosssection->GetInteractionType(), r.comp_hash }); VK_CHECK(it != span.end(), "never", "%s at %g: type %d with share %g never chosen", k.first.c_str(), E, (int)r.crosssection->GetInteractionType(), r.rate / sum); if (it != span.end()) VK_CLOSE(it->second.second - it->second.first, r.rate / sum, 1e-6, 3e-9, "share", "%s at %g: width of the share of type %d", k.first.c_str(), E, (int)r.crosssection->GetInteractionType()); }
        } });
}
