// vk: flavor=o1 shards=8 limit=800
#include "prop.h"
using namespace prop;
struct Run { std::string name; std::vector<SecDef> L; Opt o; V3 P, D; double E, dist, minE; unsigned cond; int dev; };
static const double RND[] = { 0.1, 0.5, 0.9 };
static void check(Run const& r, Secondaries const& S, Trace const& T, std::string const& w, ParticleState const& st)
{
    auto tr = S.GetTrack(); auto ty = S.GetTrackTypes(); auto hs = S.GetTargetHashes(); size_t n = tr.size();
    VK_CHECK(ty.size() == n && n >= 1, "record", "%s: %zu states, %zu types", w.c_str(), n, ty.size()); if (ty.size() != n || !n) return;
    VK_CHECK(tr[0] == st && ty[0] == I::ContinuousEnergyLoss, "start", "%s: the record does not start with the initial state", w.c_str());
    VK_CHECK(S.GetInitialState() == tr[0] && S.GetFinalState() == tr[n - 1], "final", "%s: initial or final state is not the one of the record", w.c_str());
    if (n == 1) { int c = charge(r.L, r.P, 1e-4); double m = r.minE; for (int i = 0; i < (int)r.L.size(); ++i) if (c < 0 || c == i) m = std::max(m, r.L[i].low); VK_CHECK(st.energy < m, "noreason", "%s: nothing is propagated although the energy %g is above the limit %g", w.c_str(), st.energy, m); vk::outcome("nothing"); }
    size_t k = 0; bool ended = false; auto E0 = [&](int s) { return std::max(r.minE, r.L[s].low); };
    for (size_t i = 1; i < n; ++i) {
        auto &a = tr[i - 1], &b = tr[i]; std::string x = w + vk::f(" [point %zu]", i); vk::trans();
        VK_CHECK(!ended, "after-end", "%s: recorded after the end", x.c_str());
        VK_CHECK(b.energy <= a.energy * (1 + 1e-12), "energy", "%s: energy grows from %.17g to %.17g", x.c_str(), a.energy, b.energy);
        VK_CHECK(b.propagated_distance >= a.propagated_distance, "distance", "%s: distance decreases from %.17g to %.17g", x.c_str(), a.propagated_distance, b.propagated_distance);
        VK_CHECK(b.time >= a.time, "time", "%s: time decreases from %.17g to %.17g", x.c_str(), a.time, b.time);
        VK_CHECK(b.propagated_distance <= r.dist + PARTICLE_POSITION_RESOLUTION, "beyond", "%s: distance %.17g beyond the limit %.17g", x.c_str(), b.propagated_distance, r.dist);
        VK_CLOSE(b.direction.magnitude(), 1, 1e-9, 0, "unit", "%s: direction", x.c_str()); VK_CHECK(b.type == st.type, "type", "%s: particle type %d", x.c_str(), b.type);
        if (ty[i] == I::ContinuousEnergyLoss) {
            if (k >= T.time.size()) { vk::fail("record", "%s: more continuous steps than time calculations", x.c_str()); return; }
            auto& R = T.time[k]; auto& sd = r.L[R.sector]; double d = b.propagated_distance - a.propagated_distance, slack = 2e-3; V3 pa = v3(a.position), pb = v3(b.position);
            VK_CLOSE(d3(pa, pb), d, 1e-9, 1e-9, "length", "%s: displacement and increase of the propagated distance", x.c_str());
            VK_CHECK(R.Ei == a.energy, "time-energy", "%s: time calculated from energy %.17g, the particle has %.17g", x.c_str(), R.Ei, a.energy);
            VK_CLOSE(b.time - a.time, R.grammage / (sd.rho * SPEED), 1e-6, 1e-20, "time", "%s: time of the step", x.c_str()); VK_CHECK(R.density == sd.rho, "density", "%s: density %g used, the sector has %g", x.c_str(), R.density, sd.rho);
            VK_CLOSE(R.grammage, d * sd.rho, 1e-9, slack * sd.rho, "grammage", "%s: grammage of a step of %g cm", x.c_str(), d);
            VK_CLOSE(R.Ei - R.Ef, sd.a * R.grammage, 1e-6, slack * sd.rho * sd.a, "loss", "%s: continuous loss of the step", x.c_str());
            if (!r.o.cr) VK_CLOSE(b.energy, R.Ef, 1e-12, 0, "loss", "%s: energy after the step", x.c_str()); else VK_CHECK(b.energy >= std::min(a.energy, E0(R.sector)) * (1 - 1e-12), "random", "%s: randomised energy %.17g below %g", x.c_str(), b.energy, E0(R.sector));
            VK_CHECK(b.energy >= std::min(a.energy, E0(R.sector)) * (1 - 1e-12), "below", "%s: continuous loss ends at %.17g below the energy limit %g", x.c_str(), b.energy, E0(R.sector));
            if (!r.o.ms) { V3 q = v3(a.direction); for (int c = 0; c < 3; ++c) q[c] = pa[c] + d * q[c]; VK_CHECK(d3(q, pb) < 1e-6 * (1 + d), "straight", "%s: the step is not along the direction", x.c_str()); VK_CHECK(d3(v3(a.direction), v3(b.direction)) < 1e-12, "straight", "%s: direction changed without scattering", x.c_str()); }
            else { auto dd = multiple_scattering::ScatterInitialDirection(a.direction, R.off); VK_CLOSE(d3(v3(dd.second), v3(b.direction)), 0, 0, 1e-9, "scatter", "%s: direction after the step and the scattered direction", x.c_str()); V3 q = v3(dd.first); for (int c = 0; c < 3; ++c) q[c] = pa[c] + d * q[c]; VK_CLOSE(d3(q, pb), 0, 0, 1e-6 * (1 + d), "scatter", "%s: end of the step and the scattered displacement", x.c_str());
                VK_CHECK(R.ms_Ei == R.Ei && R.ms_Ef == R.Ef, "scatter", "%s: scattering between energies %.17g and %.17g, the step from %.17g to %.17g", x.c_str(), R.ms_Ei, R.ms_Ef, R.Ei, R.Ef); VK_CLOSE(R.ms_g, R.grammage, 1e-9, slack * sd.rho, "scatter", "%s: grammage of the scattering", x.c_str()); }
            for (double f : { 0.02, 0.2, 0.5, 0.8, 0.98 }) { V3 q; for (int c = 0; c < 3; ++c) q[c] = pa[c] + f * (pb[c] - pa[c]); int c = charge(r.L, q, 2e-3); VK_CHECK(c == -2 || c == R.sector, "sector", "%s: step with the physics of sector %d runs through sector %d at %g of its length of %g cm (from %s to %s)", x.c_str(), R.sector, c, f, d, geo::str(pa).c_str(), geo::str(pb).c_str()); }
            // the next scheduled event of this step: the latest questions asked before it
            double dec = 0, inter = 0; bool own = k < T.inter.size() && T.inter[k].E == a.energy; VK_CHECK(own, "asked", "%s: interaction energy was not asked for the energy of the particle", x.c_str()); if (!own) return; inter = T.inter[k].result;
            if (r.o.decay) { if (k >= T.decay.size() || T.decay[k].E != a.energy) { vk::fail("asked", "%s: decay energy was not asked for the energy of the particle", x.c_str()); return; } dec = T.decay[k].result; }
            double low = E0(T.inter[k].sector), next = std::max(std::max(dec, inter), low);
            VK_CHECK(R.Ef >= std::min(next, a.energy) * (1 - 1e-9) - slack * sd.a * sd.rho, "missed", "%s: step to energy %.17g passes the event at %.17g", x.c_str(), R.Ef, next);
            bool event = i + 1 < n && ty[i + 1] != I::ContinuousEnergyLoss; bool limit = b.propagated_distance >= r.dist * (1 - 1e-12) - 1e-9;
            if (event) { VK_CLOSE(R.Ef, next, 1e-9, 0, "early", "%s: event before its energy", x.c_str()); bool isdec = ty[i + 1] == I::Decay; VK_CHECK(isdec ? dec == next : inter == next, "which", "%s: %s although decay is due at %.17g, interaction at %.17g, limit %.17g", x.c_str(), isdec ? "decay" : "interaction", dec, inter, low); VK_CHECK(next > low || isdec || inter == next, "which", "%s", x.c_str()); }
            else if (std::fabs(R.Ef - next) <= 1e-9 * next && !limit && i + 1 == n && next > low * (1 + 1e-12)) vk::fail("lost", "%s: the event at %.17g was reached and not recorded", x.c_str(), next);
            // where the step ended
            int before = R.sector, after = -2; V3 dd = v3(b.direction); for (double off : { 5e-3 }) { V3 q = pb; for (int c = 0; c < 3; ++c) q[c] += off * dd[c]; if (after == -2) after = charge(r.L, q, 1e-4); }
            bool left = !event && after >= 0 && after != before && charge(r.L, pb, 2e-3) == -2 && (int)r.cond < r.L[before].hier && (int)r.cond > r.L[after].hier;
            bool edge = charge(r.L, pb, 2e-3) == -2, maybe = edge && after == -2 && (int)r.cond < r.L[before].hier; double low2 = edge ? after >= 0 ? E0(after) : std::max(r.minE, 400.) : low; bool low_reached = (b.energy <= low * (1 + 1e-9) || b.energy < low2) && !event;
            if (i + 1 == n) { vk::outcome(limit ? "distance" : low_reached ? "energy" : left ? "hierarchy" : "?"); VK_CHECK(limit || low_reached || left || maybe, "noreason", "%s: propagation ends at distance %.17g of %.17g with energy %.17g (limit %g), sector %d then %d, hierarchy condition %u", x.c_str(), b.propagated_distance, r.dist, b.energy, low, before, after, r.cond); }
            else { VK_CHECK(!left || d == 0, "hierarchy", "%s: the boundary that was to end the propagation was passed (step of %g cm to %s direction %s, sector %d then %d)", x.c_str(), d, geo::str(pb).c_str(), geo::str(dd).c_str(), before, after); VK_CHECK(!(limit && !event) || b.propagated_distance == tr[n - 1].propagated_distance, "beyond", "%s: goes on after the distance limit", x.c_str()); }
            ++k;
        } else {
            VK_CHECK(d3(v3(a.position), v3(b.position)) == 0 && b.time == a.time && b.propagated_distance == a.propagated_distance, "point", "%s: an interaction moves the particle", x.c_str());
            VK_CHECK(ty[i - 1] == I::ContinuousEnergyLoss, "alternate", "%s: two interactions without a step between", x.c_str());
            if (ty[i] == I::Decay) { VK_CHECK(b.energy == a.energy && r.o.decay, "decay", "%s: energy changes in the decay", x.c_str()); ended = true; if (i + 1 == n) vk::outcome("decay"); }
            else { int v = -1; for (int c = 0; c < 3; ++c) if (VT[c] == ty[i]) v = c; VK_CHECK(v >= 0, "type", "%s: interaction of type %d", x.c_str(), (int)ty[i]); if (v < 0) return; VK_CLOSE(b.energy, a.energy * (1 - V[v]), 1e-12, 0, "stochastic", "%s: energy after a loss of %g", x.c_str(), V[v]); VK_CHECK(i < hs.size() && hs[i] == 7, "target", "%s: target of the loss", x.c_str());
                if (!r.o.sd || ty[i] != I::Brems) VK_CHECK(d3(v3(a.direction), v3(b.direction)) < 1e-12, "deflect", "%s: deflected without deflection model", x.c_str());
                double low = E0(T.time[k - 1].sector), low2 = E0(T.inter[k - 1].sector); bool stop = b.energy <= std::max(low, low2); if (stop && b.energy <= std::min(low, low2)) ended = true; if (i + 1 == n) { vk::outcome("loss"); VK_CHECK(stop, "noreason", "%s: propagation ends after a loss with energy %.17g above the limit %g", x.c_str(), b.energy, low); } }
        }
    }
    VK_CHECK(k == T.time.size(), "record", "%s: %zu steps calculated, %zu recorded", w.c_str(), T.time.size(), k);
}
static void go(Run const& r)
{
    Trace T; Propagator prop(MuMinusDef(), sectors(r.L, r.o, &T)); bool first = true;
    vk::explore([&](vk::Chooser& ch) {
        T.clear(); int calls = 0; std::string sc; script([&] { if (++calls > 20000) throw Spin(); if (calls > 60) return 0.1; int c = ch.choose(3); if (sc.size() < 200) sc += "012"[c]; return RND[c]; });
        ParticleState st(ParticleType::MuMinus, geo::c3(r.P), geo::c3(r.D), r.E, 3e-9, 0); std::string w;
        try { auto S = prop.Propagate(st, r.dist, r.minE, r.cond); w = r.name + " script " + sc; check(r, S, T, w, st); uint64_t h = vk::hs(r.name); for (auto& p : S.GetTrack()) h = vk::hd(vk::hd(vk::hd(h, p.energy), p.propagated_distance), p.position.GetX()); vk::state(h);
        } catch (std::exception& e) { vk::fail("exception", "%s script %s: %s", r.name.c_str(), sc.c_str(), e.what()); }
        (void)first; first = false; }, r.dev);
}
void vk_main()
{
    geo::quiet(); using namespace geo; bool big = vk::thorough();
    vk::bound("scripted physics; all answer vectors with up to 3 (thorough 4-5) deviations from 'nothing happens' among the first 60 random numbers (each one of three values: decay, interaction, loss, scattering offsets, deflection, randomisation); 7 sector layouts x starts x stop conditions x option sets");
    Shape W { SPH, { 0, 0, 0 }, 1e3, 0, 0 }, B { geo::BOX, { 0, 0, 0 }, 20, 20, 20 }, S { SPH, { 0, 0, 0 }, 8, 0, 0 }, H { SPH, { 0, 0, 0 }, 15, 9, 0 }, A { geo::BOX, { 15, 0, 0 }, 10, 20, 20 }, C { CYL, { 0, 0, 0 }, 6, 0, 30 };
    struct Lay { const char* n; std::vector<SecDef> L; }; std::vector<Lay> lay { { "one", { { W, 0, 2, 1 } } }, { "ball", { { W, 0, 2, 1 }, { S, 1, 5, 0.5 } } }, { "adjacent", { { W, 0, 2, 1 }, { B, 2, 5, 0.5 }, { A, 2, 1, 2 } } }, { "shell", { { W, 0, 2, 1 }, { H, 1, 5, 0.5 } } }, { "nested", { { W, 0, 2, 1 }, { B, 1, 5, 0.5 }, { S, 2, 1, 3 } } }, { "hidden", { { W, 0, 2, 1 }, { B, 2, 5, 0.5 }, { S, 1, 1, 3 } } }, { "cross", { { W, 1, 2, 1 }, { C, 3, 5, 0.5 }, { B, 2, 1, 3 } } }, { "limits", { { W, 0, 2, 1 }, { S, 1, 5, 0.5, 400 } } } };
    struct St { const char* n; V3 P, D; }; std::vector<St> starts { { "in", { 0.5, 0.2, 0.1 }, norm({ 1, 0.1, 0.05 }) }, { "far", { -30, 0.3, 0.2 }, norm({ 1, 0.01, 0.02 }) }, { "faceout", { 10, 1, 2 }, { 1, 0, 0 } }, { "facein", { 10, 1, 2 }, norm({ -1, 0.2, 0 }) }, { "ballout", { 8, 0, 0 }, norm({ 0.15, 1, 0.1 }) }, { "ballin", { 8, 0, 0 }, norm({ -0.15, 1, 0.1 }) } };
    struct Cond { const char* n; double E, dist, minE; unsigned cond; }; std::vector<Cond> cs { { "far", 1000, 1e4, 0, 0 }, { "dist", 1e4, 25, 0, 0 }, { "minE", 1000, 1e4, 700, 0 }, { "hier", 1e4, 40, 0, 1 }, { "low", 300, 1e4, 500, 0 } };
    std::vector<std::pair<const char*, Opt>> op { { "plain", { true, false, false, false, false } }, { "decay", { true, true, false, false, false } }, { "random", { true, true, true, false, false } }, { "scatter", { true, false, false, true, true } }, { "all", { true, true, true, true, true } } };
    for (auto& l : lay) for (auto& s : starts) { if (l.L.size() == 1 && std::string(s.n) != "in" && !big) continue; for (auto& o : op) vk::cs(vk::f("%s.%s.%s", l.n, s.n, o.first), [=] { for (auto& c : cs) { Run r { vk::f("%s/%s/%s/%s", l.n, s.n, o.first, c.n), l.L, o.second, s.P, s.D, c.E, c.dist, c.minE, c.cond, o.second.ms ? (big ? 3 : 2) : big ? 4 : 3 }; go(r); } }); }
}
