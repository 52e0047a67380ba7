// vk: flavor=o1 shards=8 limit=800
#include "prop.h"
using namespace prop;
static std::vector<Shape> alphabet() { using namespace geo; return { { SPH, { 0, 0, 0 }, 40, 0, 0 }, { geo::BOX, { 0, 0, 0 }, 20, 20, 20 }, { SPH, { 0, 0, 0 }, 8, 0, 0 }, { SPH, { 3, 0, 0 }, 8, 5, 0 }, { geo::BOX, { 15, 0, 0 }, 10, 10, 10 }, { CYL, { 0, 0, 2 }, 6, 0, 14 }, { CYL, { 0, 4, 0 }, 12, 7, 30 } }; }
static std::string nm(std::vector<SecDef> const& L) { std::string s; for (auto& d : L) s += d.s.name() + vk::f("h%d ", d.hier); return s; }
static void run(std::vector<SecDef> const& L, Propagator& prop, Trace& T, V3 const& P, V3 const& D, double dist)
{
    vk::state(vk::hs(nm(L) + geo::str(P) + geo::str(D))); vk::trans();
    ParticleState st(ParticleType::MuMinus, geo::c3(P), geo::c3(D), 1e6, 0, 0); T.clear();
    const double eps = 2e-2; auto at = [&](double t) { return V3 { P[0] + t * D[0], P[1] + t * D[1], P[2] + t * D[2] }; };
    // the true sequence along the ray from the reference intervals
    std::vector<double> cuts; for (auto& d : L) for (auto& iv : geo::material(d.s, P, D, 0)) for (double t : { (double)iv.a, (double)iv.b }) if (std::isfinite(t) && t > 0 && t < dist) cuts.push_back(t);
    cuts.push_back(0); cuts.push_back(dist); std::sort(cuts.begin(), cuts.end());
    std::vector<std::pair<double, int>> seq; bool vague = false; for (auto& d : L) vague |= geo::material(d.s, P, D, 1e-5).size() != geo::material(d.s, P, D, -1e-5).size(); bool leaves = false; double out = 0;
    for (size_t i = 0; i + 1 < cuts.size(); ++i) { double w = cuts[i + 1] - cuts[i]; if (w < 1e-9) continue; if (w < 4 * eps) { vague = true; } int c = charge(L, at((cuts[i] + cuts[i + 1]) / 2), 1e-6); if (c == -2) { vague = true; continue; } if (c == -1) { leaves = true; out = cuts[i]; break; } if (seq.empty() || seq.back().second != c) seq.push_back({ cuts[i], c }); }
    if (vague) return; // grazes a surface: not decided by the reference
    std::string w = nm(L) + "from " + geo::str(P) + " along " + geo::str(D); 
    Secondaries* S = nullptr; std::unique_ptr<Secondaries> keep; std::string what;
    try { keep = std::make_unique<Secondaries>(prop.Propagate(st, dist, 0., 0)); S = keep.get(); } catch (std::exception& e) { what = e.what(); }
    vk::outcome(S ? "track" : leaves ? out == 0 ? "outside" : "left" : "refused");
    if (leaves) { VK_CHECK(!S, "outside", "%s: no sector after %g cm, yet a track of %u points is returned", w.c_str(), out, S ? S->GetTrackLength() : 0); 
        if (S) return; }
    else VK_CHECK(S, "refused", "%s: %s", w.c_str(), what.c_str());
    // the sectors that were in charge, also when refused half way
    auto& R = T.time; for (size_t i = 0; i < std::max(R.size(), seq.size()); ++i) { int a = i < R.size() ? R[i].sector : -1, b = i < seq.size() ? seq[i].second : -1; if (a != b) { vk::fail("sector", "%s: step %zu is made in sector %d, in charge is %d (from %g cm on)", w.c_str(), i, a, b, i < seq.size() ? seq[i].first : -1.); return; }
        double end = i + 1 < seq.size() ? seq[i + 1].first : leaves ? out : dist, len = end - seq[i].first; VK_CLOSE(R[i].grammage, len * L[a].rho, 1e-9, 3e-3 * L[a].rho, "length", "%s: grammage of step %zu", w.c_str(), i); VK_CHECK(R[i].density == L[a].rho, "density", "%s: density %g in step %zu, the sector has %g", w.c_str(), R[i].density, i, L[a].rho); VK_CLOSE(R[i].Ei - R[i].Ef, L[a].a * R[i].grammage, 1e-6, 1e-6, "physics", "%s: energy loss of step %zu", w.c_str(), i); }
    if (S) { auto tr = S->GetTrack(); VK_CHECK(tr.size() == seq.size() + 1, "steps", "%s: %zu points for %zu steps", w.c_str(), tr.size(), seq.size()); for (size_t i = 1; i < tr.size() && i <= seq.size(); ++i) { double end = i < seq.size() ? seq[i].first : dist; V3 q = v3(tr[i].position), e = at(end); VK_CHECK(d3(q, e) < 3e-3, "border", "%s: step %zu ends at %s, the border is at %s", w.c_str(), i - 1, geo::str(q).c_str(), geo::str(e).c_str()); } }
}
void vk_main()
{
    geo::quiet(); auto A = alphabet(); int n = A.size(); bool big = vk::thorough();
    vk::bound("all layouts of 1 to 3 out of 7 solids (world, box, sphere, hollow sphere, adjacent box, cylinder, tube) with all orders of hierarchy; start points on a lattice, on faces, edges, centres; 16 directions plus those aimed at the structure (thorough); straight tracks of 60 cm");
    std::vector<std::vector<int>> subs; for (int i = 0; i < n; ++i) { subs.push_back({ i }); for (int j = i + 1; j < n; ++j) { subs.push_back({ i, j }); for (int k = j + 1; k < n; ++k) subs.push_back({ i, j, k }); } }
    for (auto& s : subs) { std::string id = "L"; for (int i : s) id += vk::f("%d", i); vk::cs(id, [=] {
        script([] { return 0.1; }); std::vector<int> h(s.size()); for (size_t i = 0; i < h.size(); ++i) h[i] = i;
        do for (int base = 0; base < 2; ++base) { // hierarchies from zero or with gaps
            std::vector<SecDef> L; double a[] = { 1.5, 2.5, 4 }, rho[] = { 1, 0.5, 2.25 }; for (size_t i = 0; i < s.size(); ++i) L.push_back({ A[s[i]], base ? 3 + 5 * h[i] : h[i], a[i], rho[i] });
            if (base && !big) continue;
            Trace T; Propagator prop(MuMinusDef(), sectors(L, { false, false, false, false, false }, &T));
            std::vector<V3> P; std::vector<double> g = big ? std::vector<double> { -17, -9.3, -4.1, 0.4, 5.7, 11.2, 18.9 } : std::vector<double> { -16.3, -5.1, 0.4, 8.2 }; for (double x : g) for (double y : g) for (double z : g) P.push_back({ x, y, z });
            for (auto& d : L) for (auto& p : geo::positions(d.s, false)) P.push_back(p);
            for (auto& p : P) { std::vector<V3> D; for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) for (int k = -1; k <= 1; ++k) if ((i || j || k) && (big || std::abs(i) + std::abs(j) + std::abs(k) != 2)) D.push_back(geo::norm({ (double)i, (double)j, (double)k })); D.push_back(geo::norm({ 0.3, -0.5, 0.9 })); D.push_back(geo::norm({ -0.8, 0.1, 0.2 }));
                if (big) for (auto& d : L) { int c = 0; for (auto& x : geo::directions(d.s, p, false)) if (++c % 5 == 0) D.push_back(x); }
                for (auto& d : D) run(L, prop, T, p, d, 60.37); } }
        while (std::next_permutation(h.begin(), h.end())); }); }
    vk::cs("refusal", [] { script([] { return 0.1; }); Trace T; VK_CHECK(vk::throws([&] { Propagator p { MuMinusDef(), std::vector<Sector>() }; p.Propagate(ParticleState(ParticleType::MuMinus, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 1e3, 0, 0), 10); }), "nosector", "propagation without any sector accepted"); });
}
