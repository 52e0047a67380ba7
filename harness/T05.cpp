// vk: flavor=o1 shards=8 limit=800
#include "prop.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/math/Function.h"
using namespace prop; using geo::Iv; using geo::ld;
static Trace& TR() { static Trace t; if (t.time.size() > 100000) t.clear(); return t; }
static std::vector<Sector> world(int dens, bool cr = false)
{
    auto v = sectors({ { Shape { geo::SPH, { 0, 0, 0 }, 1e4, 0, 0 }, 0, 2, 0.5 } }, { true, false, cr, false, false }, &TR());
    if (dens == 3) return sectors({ { Shape { geo::SPH, { 0, 0, 0 }, 1e4, 0, 0 }, 1, 2, 0.5 }, { Shape { geo::BOX, { 3, 0, 0 }, 10, 10, 10 }, 3, 5, 1 }, { Shape { geo::SPH, { 3, 0, 0 }, 30, 0, 0 }, 0, 1, 3 } }, { true, false, cr, false, false }, &TR());
    CartesianAxis ax(Cartesian3D(1, 0, 0), Cartesian3D(-100, 0, 0));
    if (dens == 1) std::get<2>(v[0]) = std::make_shared<Density_polynomial>(ax, Polynom(std::vector<double> { 0.5, 2e-3 }), 1.);
    if (dens == 2) std::get<2>(v[0]) = std::make_shared<Density_exponential>(ax, 300., 0., 0.5);
    return v;
}
static V3 along(V3 const& p, V3 const& u, double t) { return { p[0] + t * u[0], p[1] + t * u[1], p[2] + t * u[2] }; }
static double depth(Density_distr const& d, V3 const& p, V3 const& u, double l) { double s = 0; int n = 16; for (int i = 0; i < n; ++i) { auto e = [&](double t) { return d.Evaluate(geo::c3(along(p, u, t))); }; double a = l * i / n, b = l * (i + 1) / n; s += (b - a) / 6 * (e(a) + 4 * e((a + b) / 2) + e(b)); } return s; }
struct Pt { V3 p, d; double E, t, l; I type; size_t hash; };
struct Seg { V3 p, u; double len; int i; double g, a; const Density_distr* D; };
struct Track { std::string name; int dens; std::vector<Pt> r; std::vector<Seg> s; };
static Track make(std::string const& seq, int start, int dens, std::vector<Sector> const& W)
{
    Track T; T.name = vk::f("%s start %d density %d", seq.c_str(), start, dens); T.dens = dens; V3 P = start == 1 ? V3 { -12, 0.3, 0.2 } : V3 { -12, 0, 0 }, d = start == 1 ? geo::norm({ 1, 0.02, -0.01 }) : V3 { 1, 0, 0 }; if (start == 2) P = { -2, 0, 0 };
    T.r.push_back({ P, d, 1000, 3e-9, 2.5, I::ContinuousEnergyLoss, 0 });
    for (char c : seq) { Pt q = T.r.back(); q.hash = 0; bool flat = start != 1; auto turn = [&](V3 v, double a) { double co = std::cos(a), si = std::sin(a); return geo::norm({ co * v[0] - si * v[1], si * v[0] + co * v[1], v[2] + (flat ? 0 : 0.1 * a) }); };
        if (c == 'a' || c == 'b' || c == 'c') { double len = c == 'a' ? 10 : 7; V3 u = c == 'a' ? q.d : turn(q.d, c == 'b' ? 0.3 : -0.7); int sec = dens == 3 && in(Shape { geo::BOX, { 3, 0, 0 }, 10, 10, 10 }, along(q.p, u, len / 2), 0) == 1; auto& D = *std::get<2>(W[sec]); double a = sec ? 5 : 2, g = depth(D, q.p, q.d, len); T.s.push_back({ q.p, u, len, (int)T.r.size() - 1, g, a, &D }); q.t += g / (D.Evaluate(geo::c3(q.p)) * SPEED); q.p = along(q.p, u, len); q.d = c == 'a' ? q.d : turn(q.d, c == 'b' ? 0.5 : -1.2); q.E -= a * g; q.l += len; q.type = I::ContinuousEnergyLoss; }
        else if (c == 's' || c == 'd') { q.E *= c == 's' ? 0.8 : 0.7; q.type = c == 's' ? I::Brems : I::Epair; q.hash = c == 's' ? 7 : 0; if (c == 'd') q.d = turn(q.d, 0.9); }
        else q.type = I::Decay;
        T.r.push_back(q); }
    return T;
}
static ParticleState st(Pt const& q) { return ParticleState(ParticleType::MuMinus, geo::c3(q.p), geo::c3(q.d), q.E, q.t, q.l); }
struct VS { double E, t; V3 p; double l; }; // state at length x of segment k
static VS at(Track const& T, Density_distr const&, Seg const& s, double x) { auto& D = *s.D; auto& a = T.r[s.i]; double g = depth(D, a.p, a.d, x); return { a.E - s.a * g, a.t + g / (D.Evaluate(geo::c3(a.p)) * SPEED), along(s.p, s.u, x), a.l + x }; }
static void same(ParticleState const& q, VS const& v, const char* key, std::string const& w, double tol = 1e-6)
{
    VK_CLOSE(q.energy, v.E, 1e-9, tol * 4, key, "%s: energy", w.c_str()); VK_CLOSE(d3(v3(q.position), v.p), 0, 0, tol, key, "%s: distance from the true position %s", w.c_str(), geo::str(v.p).c_str());
    VK_CLOSE(q.propagated_distance, v.l, 0, tol, key, "%s: propagated distance", w.c_str()); VK_CLOSE(q.time, v.t, 1e-9, (tol + 1e-7) / SPEED * 1.5, key, "%s: time", w.c_str()); VK_CHECK(q.type == (int)ParticleType::MuMinus, key, "%s: type %d", w.c_str(), q.type); VK_CLOSE(q.direction.magnitude(), 1, 1e-9, 0, key, "%s: direction", w.c_str());
}
static VS val(Pt const& q) { return { q.E, q.t, q.p, q.l }; }
static bool is(ParticleState const& q, Pt const& p) { return q == st(p); }
static void states(Track const& T, Secondaries const& S, Density_distr const& D)
{
    auto& r = T.r; size_t n = r.size(); auto w = [&](const char* q, double x) { vk::trans(); return vk::f("%s: state for %s %.17g", T.name.c_str(), q, x); };
    for (double q : { 1e4, r[0].E * 1.0000001, r[0].E }) VK_CHECK(is(S.GetStateForEnergy(q), r[0]), "energy-above", "%s: not the initial state", w("energy", q).c_str());
    for (double q : { r[n - 1].E * 0.999, 0. }) VK_CHECK(is(S.GetStateForEnergy(q), r[n - 1]), "energy-below", "%s: not the final state", w("energy", q).c_str());
    for (double q : { -1., 0., r[0].l * 0.999, r[0].l }) VK_CHECK(is(S.GetStateForDistance(q), r[0]), "distance-below", "%s: not the initial state", w("distance", q).c_str());
    for (double q : { r[n - 1].l * 1.001, 1e9 }) VK_CHECK(is(S.GetStateForDistance(q), r[n - 1]), "distance-above", "%s: not the final state", w("distance", q).c_str());
    for (auto& p : r) { auto e = S.GetStateForEnergy(p.E); auto x = w("recorded energy", p.E); bool ok = false; for (auto& o : r) if (o.E == p.E && d3(o.p, v3(e.position)) < 1e-6) { ok = true; VS v = val(o); v.t = e.time; same(e, v, "energy-recorded", x); VK_CLOSE(e.time, o.t, 1e-9, 1e-16, "energy-recorded", "%s: time", x.c_str()); } VK_CHECK(ok, "energy-recorded", "%s: no recorded point but %s", x.c_str(), geo::str(v3(e.position)).c_str());
        auto f = S.GetStateForDistance(p.l); x = w("recorded distance", p.l); ok = false; for (auto& o : r) if (o.l == p.l && std::fabs(o.E - f.energy) < 1e-5) { ok = true; same(f, val(o), "distance-recorded", x); } VK_CHECK(ok, "distance-recorded", "%s: no recorded point but energy %.17g", x.c_str(), f.energy); }
    for (auto& s : T.s) for (double f : { 1e-3, 0.25, 0.5, 0.9, 0.9999 }) { VS v = at(T, D, s, f * s.len); auto e = S.GetStateForEnergy(v.E); same(e, v, "energy", w("energy", v.E), 1e-5); auto g = S.GetStateForDistance(v.l); same(g, v, "distance", w("distance", v.l), 1e-5); }
    for (size_t i = 1; i < n; ++i) if (r[i].type == I::Brems || r[i].type == I::Epair) { double q = r[i].E + 0.4 * (r[i - 1].E - r[i].E); VK_CHECK(is(S.GetStateForEnergy(q), r[i - 1]), "energy-stochastic", "%s: not the state before the loss", w("energy", q).c_str()); }
}
static void lists(Track const& T, Secondaries const& S)
{
    auto& r = T.r; size_t n = r.size(); const char* w = T.name.c_str(); vk::trans();
    auto p = S.GetTrackPositions(); auto d = S.GetTrackDirections(); auto e = S.GetTrackEnergies(); auto t = S.GetTrackTimes(); auto l = S.GetTrackPropagatedDistances(); auto tr = S.GetTrack(); auto ty = S.GetTrackTypes();
    VK_CHECK(p.size() == n && d.size() == n && e.size() == n && t.size() == n && l.size() == n && tr.size() == n && ty.size() == n, "lists", "%s: wrong lengths", w); if (p.size() != n || d.size() != n || e.size() != n || t.size() != n || l.size() != n || tr.size() != n || ty.size() != n) return;
    for (size_t i = 0; i < n; ++i) VK_CHECK(d3(v3(p[i]), r[i].p) == 0 && d3(v3(d[i]), r[i].d) == 0 && e[i] == r[i].E && t[i] == r[i].t && l[i] == r[i].l && is(tr[i], r[i]) && ty[i] == r[i].type, "lists", "%s: entry %zu differs", w, i);
    VK_CHECK(is(S.GetInitialState(), r[0]) && is(S.GetFinalState(), r[n - 1]), "ends", "%s: initial or final state", w);
    double sum = 0; size_t k = 0, c = 0; auto sl = S.GetStochasticLosses(); auto cl = S.GetContinuousLosses(); std::map<I, std::vector<StochasticLoss>> by; auto eq = [](StochasticLoss const& a, StochasticLoss const& b) { return a.type == b.type && a.energy == b.energy && a.parent_particle_energy == b.parent_particle_energy && a.position == b.position && a.direction == b.direction && a.time == b.time && a.propagated_distance == b.propagated_distance && a.target_hash == b.target_hash; };
    for (size_t i = 1; i < n; ++i) { auto &a = r[i - 1], &b = r[i];
        if (b.type == I::ContinuousEnergyLoss) { if (c >= cl.size()) { vk::fail("continuous", "%s: too few continuous losses", w); return; } auto& x = cl[c++]; sum += x.energy; VK_CHECK(x.energy == a.E - b.E && x.parent_particle_energy == a.E && x.start_position == geo::c3(a.p) && x.end_position == geo::c3(b.p) && x.direction_initial == geo::c3(a.d) && x.direction_final == geo::c3(b.d) && x.time_initial == a.t && x.time_final == b.t && x.type == (int)I::ContinuousEnergyLoss, "continuous", "%s: continuous loss %zu differs from the record", w, c - 1); }
        else if (b.type != I::Decay) { if (k >= sl.size()) { vk::fail("stochastic", "%s: too few stochastic losses", w); return; } auto& x = sl[k++]; sum += x.energy; by[b.type].push_back(x); VK_CHECK(x.type == (int)b.type && x.energy == a.E - b.E && x.parent_particle_energy == a.E && x.position == geo::c3(b.p) && x.direction == geo::c3(b.d) && x.time == b.t && x.propagated_distance == b.l && x.target_hash == b.hash, "stochastic", "%s: stochastic loss %zu differs from the record", w, k - 1); } }
    VK_CHECK(k == sl.size() && c == cl.size(), "losses", "%s: %zu stochastic and %zu continuous losses instead of %zu and %zu", w, sl.size(), cl.size(), k, c); VK_CLOSE(sum, r[0].E - r[n - 1].E, 1e-12, 1e-9, "sum", "%s: sum of all losses", w);
    for (auto& it : Type_Interaction_Name_Map) { if (it.first == I::ContinuousEnergyLoss || it.first == I::Decay) continue; auto a = S.GetStochasticLosses(it.first), b = S.GetStochasticLosses(it.second); auto& o = by[it.first]; bool ok = a.size() == o.size() && b.size() == o.size(); for (size_t i = 0; ok && i < o.size(); ++i) ok = eq(a[i], o[i]) && eq(b[i], o[i]); VK_CHECK(ok, "by-type", "%s: losses of type %s", w, it.second.c_str()); }
}
// 1 strictly inside, 0 undecided, -1 strictly outside
static void geometry(Track const& T, Secondaries const& S, Density_distr const& D, Shape const& sh)
{
    auto g = sh.make(); auto& r = T.r; size_t n = r.size(); std::string w = T.name + " " + sh.name(); vk::trans(); const double m = 1e-4; auto end = r[n - 1];
    std::vector<int> side; for (auto& q : r) side.push_back(in(sh, q.p, m));
    // points at the border count when they move into the material
    auto inward = [&](Pt const& q) { for (double o : { 5e-3, 0.05 }) { int k = in(sh, along(q.p, q.d, o), m); if (k) return k; } return 0; };
    struct X { double l; int seg; double x; }; std::vector<X> enter, leave; bool unclear = false; double inside = 0, least = 1e300; VS best {}; const Seg* bs = nullptr; (void)bs;
    for (size_t k = 0; k < T.s.size(); ++k) { auto& s = T.s[k]; auto big = geo::material(sh, s.p, s.u, 1e-6), sml = geo::material(sh, s.p, s.u, -1e-6); if (big.size() != sml.size()) unclear = true;
        for (size_t j = 0; j < std::min(big.size(), sml.size()); ++j) { if (std::fabs((double)(big[j].a - sml[j].a)) > 2e-5 || std::fabs((double)(big[j].b - sml[j].b)) > 2e-5) unclear = true; ld a = (big[j].a + sml[j].a) / 2, b = (big[j].b + sml[j].b) / 2; double l0 = r[s.i].l; if (a > -1e-6 && a < s.len + 1e-6) enter.push_back({ l0 + (double)a, (int)k, (double)a }); if (b > -1e-6 && b < s.len + 1e-6) leave.push_back({ l0 + (double)b, (int)k, (double)b }); ld lo = std::max<ld>(a, 0), hi = std::min<ld>(b, s.len); if (hi > lo) inside += (double)(hi - lo); } }
    // track points on the border are decided by what the track does around them
    bool border = false; for (size_t i = 0; i < n; ++i) if (!side[i]) border = true;
    auto near = [&](double x) { return std::max(x, PARTICLE_POSITION_RESOLUTION * 1.01 + 1e-5); };
    auto cmp = [&](std::shared_ptr<ParticleState> p, X const& x, const char* key) { auto& s = T.s[x.seg]; VS v = at(T, D, s, x.x); VK_CHECK(p != nullptr, key, "%s: none although the track crosses the border at %s", w.c_str(), geo::str(v.p).c_str()); if (!p) return; double tol = near(0); VK_CLOSE(d3(v3(p->position), v.p), 0, 0, tol, key, "%s: distance from the true point %s", w.c_str(), geo::str(v.p).c_str()); VK_CLOSE(p->propagated_distance, v.l, 0, tol, key, "%s: propagated distance", w.c_str()); bool ok = std::fabs(p->energy - v.E) < 4 * tol; for (auto& q : r) if (std::fabs(q.l - v.l) < tol && std::fabs(q.E - p->energy) < 4 * tol) ok = true; VK_CHECK(ok, key, "%s: energy %.17g instead of %.17g", w.c_str(), p->energy, v.E); VK_CLOSE(p->time, v.t, 1e-6, 2 * tol / SPEED, key, "%s: time", w.c_str()); };
    auto en = S.GetEntryPoint(*g), ex = S.GetExitPoint(*g); bool hollow = sh.k != geo::BOX && sh.b > 0, hit = S.HitGeometry(*g); double lost = S.GetELost(*g);
    bool touch = enter.size() || leave.size() || inside > 0; int s0 = side[0] ? side[0] : inward(r[0]), s1 = side[n - 1] ? side[n - 1] : inward(end); vk::outcome(vk::f("start%d end%d cross%zu%zu%s", s0, s1, std::min<size_t>(enter.size(), 2), std::min<size_t>(leave.size(), 2), border ? " border" : ""));
    if (!unclear && s0 && s1) {
        // entry: the first crossing into the material; a track starting at the border moving in has entered there
        if (side[0] == 1) VK_CHECK(!en, "entry", "%s: entry point although the track starts inside", w.c_str());
        else if (side[0] == 0 && s0 == 1) { VK_CHECK(en && is(*en, r[0]), "entry", "%s: track entering at its start", w.c_str()); }
        else if (enter.empty()) VK_CHECK(!en, "entry", "%s: entry point although the track does not enter", w.c_str());
        else if (enter[0].x > 1e-3 || enter[0].seg > 0) cmp(en, enter[0], "entry");
        bool last_leave = !leave.empty();
        if (side[n - 1] == 1) VK_CHECK(!ex, "exit", "%s: exit point although the track ends inside", w.c_str());
        else if (side[n - 1] == 0) { if (s1 == 1 && last_leave == false) VK_CHECK(!ex, "exit", "%s: exit point although the track ends entering", w.c_str()); else if (s1 == -1 && last_leave) cmp(ex, leave.back(), "exit"); }
        else if (leave.empty()) { if (side[0] != 0) VK_CHECK(!ex, "exit", "%s: exit point although the track does not leave", w.c_str()); }
        else cmp(ex, leave.back(), "exit");
        if (inside > 1e-3 || side[n - 1] == 1 || side[0] == 1) VK_CHECK(hit, "hit", "%s: not reported as hit with %g cm inside", w.c_str(), inside);
        else if (!touch && s0 == -1 && s1 == -1) VK_CHECK(!hit, "hit", "%s: reported as hit", w.c_str());
        if (!hollow && enter.size() <= 1 && leave.size() <= 1 && !border && (s0 == -1 || enter.empty())) { double a = r[0].E, b = end.E; if (enter.size()) a = at(T, D, T.s[enter[0].seg], enter[0].x).E; if (leave.size()) b = at(T, D, T.s[leave[0].seg], leave[0].x).E; bool any = s0 == 1 || s1 == 1 || (enter.size() && leave.size()); VK_CLOSE(lost, any ? a - b : 0, 1e-9, 0.02, "lost", "%s: energy lost inside", w.c_str()); }
        if (!touch && s0 == -1) VK_CHECK(lost == 0, "lost", "%s: lost %g inside although never there", w.c_str(), lost);
    }
    // lists restricted to the geometry
    auto tr = S.GetTrack(*g); auto sl = S.GetStochasticLosses(*g); auto cl = S.GetContinuousLosses(*g); size_t ti = 0, si = 0, ci = 0;
    for (size_t i = 0; i < n; ++i) { int k = side[i] ? side[i] : inward(r[i]); if (!k) return; if (!side[i] && unclear) return;
        if (k == 1) { VK_CHECK(ti < tr.size() && is(tr[ti], r[i]), "track-in", "%s: point %zu is missing in the track inside", w.c_str(), i); ++ti; if (i && r[i].type != I::ContinuousEnergyLoss && r[i].type != I::Decay) { VK_CHECK(si < sl.size() && sl[si].energy == r[i - 1].E - r[i].E && sl[si].propagated_distance == r[i].l && sl[si].type == (int)r[i].type && sl[si].target_hash == r[i].hash && sl[si].parent_particle_energy == r[i - 1].E && sl[si].time == r[i].t && sl[si].position == geo::c3(r[i].p) && sl[si].direction == geo::c3(r[i].d), "stochastic-in", "%s: loss at point %zu is missing or different", w.c_str(), i); ++si; } } }
    VK_CHECK(ti == tr.size(), "track-in", "%s: %zu points inside, %zu reported", w.c_str(), ti, tr.size()); VK_CHECK(si == sl.size(), "stochastic-in", "%s: %zu losses inside, %zu reported", w.c_str(), si, sl.size());
    // steps: completely inside or completely outside
    if (!unclear) for (auto& s : T.s) { ld in_ = 0; for (auto& v : geo::material(sh, s.p, s.u, 0)) { ld lo = std::max<ld>(v.a, 0), hi = std::min<ld>(v.b, s.len); if (hi > lo) in_ += hi - lo; } auto &a = r[s.i], &b = r[s.i + 1]; bool found = ci < cl.size() && cl[ci].energy == a.E - b.E && cl[ci].time_initial == a.t && cl[ci].time_final == b.t; bool all = in_ > s.len - 1e-9, none = in_ < 1e-9;
        if (all) VK_CHECK(found, "continuous-in", "%s: the step from %s to %s is inside and missing", w.c_str(), geo::str(a.p).c_str(), geo::str(b.p).c_str()); if (none) VK_CHECK(!found, "continuous-in", "%s: the step from %s to %s is outside and listed", w.c_str(), geo::str(a.p).c_str(), geo::str(b.p).c_str()); if (found) ++ci; }
    // closest approach to the centre
    for (auto& q : r) { double x = d3(q.p, sh.ctr); if (x < least) { least = x; best = val(q); } }
    for (auto& s : T.s) { double t = 0; for (int c = 0; c < 3; ++c) t += (sh.ctr[c] - s.p[c]) * s.u[c]; if (t > 0 && t < s.len) { VS v = at(T, D, s, t); double x = d3(v.p, sh.ctr); if (x < least) { least = x; best = v; } } }
    auto c = S.GetClosestApproachPoint(*g); VK_CHECK(c != nullptr, "closest", "%s: no closest approach", w.c_str()); if (c) { double x = d3(v3(c->position), sh.ctr); VK_CLOSE(x, least, 0, near(0), "closest", "%s: distance at the closest approach (at %s)", w.c_str(), geo::str(v3(c->position)).c_str()); bool on = false; double tol = near(0); for (auto& q : r) if (d3(q.p, v3(c->position)) < 1e-9 && q.E == c->energy && q.t == c->time) on = true; for (auto& s : T.s) { double t = c->propagated_distance - r[s.i].l; if (t < -1e-9 || t > s.len + 1e-9) continue; VS v = at(T, D, s, t); if (d3(v.p, v3(c->position)) < 1e-6 && std::fabs(v.E - c->energy) < 1e-5 && std::fabs(v.t - c->time) < 1e-15 * SPEED / SPEED + 1e-9 * v.t) on = true; } (void)tol; VK_CHECK(on, "closest", "%s: the closest approach is no state of the track", w.c_str()); }
}
static std::shared_ptr<ParticleDef> muon() { auto d = std::make_shared<MuMinusDef>(); return d; }
static Secondaries record(Track const& T, std::vector<Sector> const& W, bool emplace) { Secondaries S(muon(), W); if (emplace) S.reserve(T.r.size()); for (auto& q : T.r) { if (emplace) S.emplace_back(ParticleType::MuMinus, geo::c3(q.p), geo::c3(q.d), q.E, q.t, q.l, q.type, q.hash); else S.push_back(st(q), q.type, q.hash); } return S; }
void vk_main()
{
    geo::quiet(); using namespace geo; int depthmax = vk::thorough() ? 7 : 4; vk::bound(vk::f("all tracks of up to %d steps over straight and two bent continuous steps, two losses and decay; 3 starts; homogeneous, linear and exponential density; 14 geometries; all queries at, between and beyond the recorded points", depthmax));
    std::vector<Shape> sh { { SPH, { 3, 0, 0 }, 5, 0, 0 }, { geo::BOX, { 3, 0, 0 }, 10, 10, 10 }, { CYL, { 3, 0, 0 }, 5, 0, 8 }, { SPH, { 3, 0, 0 }, 5, 2, 0 }, { CYL, { 3, 0, 0 }, 5, 2, 8 }, { SPH, { 0, 0, 0 }, 300, 0, 0 }, { geo::BOX, { -12, 0, 0 }, 8, 8, 8 }, { SPH, { 0, 40, 0 }, 5, 0, 0 }, { geo::BOX, { -40, 0, 0 }, 10, 10, 10 }, { SPH, { 8, 3, 0.5 }, 6, 0, 0 }, { CYL, { -3, 2, 0 }, 4, 0, 8 }, { SPH, { -2, 1, 0 }, 14, 8, 0 }, { geo::BOX, { 14.5, 1, 0 }, 3, 20, 20 }, { SPH, { -3, -6, 1 }, 3, 0, 0 } };
    for (int dens = 0; dens < 4; ++dens) for (int start = 0; start < 3; ++start) for (char f : std::string("abcsdD-")) { if (dens && (f == 'b' || f == 'c')) continue; if (dens == 3 && (f == 'd' || start == 1)) continue;
        vk::cs(vk::f("tracks.%d.%d.%c", dens, start, f), [=] { auto W = world(dens); auto D = std::get<2>(W[0]); std::vector<std::string> todo { f == '-' ? "" : std::string(1, f) };
            while (!todo.empty()) { auto s = todo.back(); todo.pop_back(); Track T = make(s, start, dens, W); if (T.r.back().E > 30) { auto S = record(T, W, s.size() % 2); vk::state(vk::hs(T.name)); lists(T, S); states(T, S, *D); for (auto& x : sh) geometry(T, S, *D, x); }
                if (f != '-' && (int)s.size() < depthmax && s.back() != 'D') for (char c : std::string(dens == 3 ? "asD" : dens ? "asdD" : "abcsdD")) { if ((c == 's' || c == 'd') && (s.back() == 's' || s.back() == 'd')) continue; todo.push_back(s + c); } } }); }
    vk::cs("unknown", [] { auto W = world(0); auto D = std::get<2>(W[0]); auto S = record(make("asa", 0, 0, W), W, false); vk::state(1); for (const char* n : { "", "brems", "nothing", "Bremsstrahlung" }) { bool thrown = false; int k = vk::guarded([&] { try { auto l = S.GetStochasticLosses(std::string(n)); return l.empty() ? 5 : 6; } catch (std::exception&) { return 3; } }); thrown = k == 3; VK_CHECK(thrown, "unknown", "losses of the unknown type '%s': %s instead of an exception", n, k == 5 ? "no losses" : k == 6 ? "some losses" : "a crash"); } });
    vk::cs("decay", [] { auto W = world(0); auto D = std::get<2>(W[0]); for (const char* s : { "", "a", "as", "aD", "asaD", "D" }) { auto T = make(s, 1, 0, W); auto S = record(T, W, false); vk::state(vk::hs(s)); for (double r : { 0.1, 0.5, 0.9 }) { script([r] { return r; }); auto p = S.GetDecayProducts(); bool dec = T.r.back().type == I::Decay; VK_CHECK(p.empty() == !dec, "decay", "%s: %zu decay products", s, p.size()); double E = 0; for (auto& q : p) { E += q.energy; VK_CHECK(q.position == c3(T.r.back().p) && q.time == T.r.back().t, "decay", "%s: product not at the end of the track", s); } if (dec) VK_CLOSE(E, T.r.back().E, 1e-9, 0, "decay", "%s: energy of the products", s); } } });
}
