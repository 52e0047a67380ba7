// vk: sources=decay,particle,math,Logging,methods,Constants,medium flavor=asan shards=8 limit=800
#include "vk.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/decay/StableChannel.h"
#include <sstream>
using namespace PROPOSAL;

struct T { int type; double m; };
static std::vector<T> types()
{
    return { { 11, 0.511 }, { -11, 0.511 }, { 12, 0 }, { -12, 0 }, { 13, 105.66 }, { -13, 105.66 }, { 14, 0 }, { -14, 0 }, { 15, 1776.9 }, { -15, 1776.9 }, { 16, 0 }, { -16, 0 }, { 22, 0 }, { 111, 134.98 }, { 211, 139.57 }, { -211, 139.57 },
        { 311, 495.6 }, { 321, 493.7 }, { -321, 493.7 }, { 1000015, 1e5 }, { -1000015, 1e5 }, { 41, 1e5 }, { 9500, 1e5 }, { -9500, 1e5 } };
}
static void shell(ParticleState& s, double p, double m, std::string const& h)
{
    long double E = sqrtl((long double)p * p + (long double)m * m);
    VK_CLOSE(s.energy, double(E), 1e-14, 0, "mass-shell", "%s p=%.17g", h.c_str(), p);
    VK_CHECK(s.energy >= m, "mass-shell", "%s p=%.17g: energy %.17g below mass", h.c_str(), p, s.energy);
    double tol = p > 0 ? std::min(8e-16 * double(E) * double(E) / p, 4e-8 * double(E)) : 4e-8 * double(E);
    double q = s.GetMomentum();
    VK_CHECK(q >= 0 && fabs(q - p) <= tol + 1e-14 * p, "momentum-round-trip", "%s: set %.17g got %.17g (tolerance %g)", h.c_str(), p, q, tol);
}
// model of a state
struct M { int type = 0; double v[9] = { 0, 0, 0, 0, 0, 0, 0, 0, 0 }; };
static bool has(ParticleState const& s, M const& m)
{
    return s.type == m.type && s.position.GetX() == m.v[0] && s.position.GetY() == m.v[1] && s.position.GetZ() == m.v[2] && s.direction.GetX() == m.v[3] && s.direction.GetY() == m.v[4] && s.direction.GetZ() == m.v[5]
        && s.energy == m.v[6] && s.time == m.v[7] && s.propagated_distance == m.v[8];
}
static bool eq(M const& a, M const& b) { if (a.type != b.type) return false; for (int i = 0; i < 9; ++i) if (a.v[i] != b.v[i]) return false; return true; }
static ParticleState make(M const& m) { return ParticleState(static_cast<ParticleType>(m.type), Cartesian3D(m.v[0], m.v[1], m.v[2]), Cartesian3D(m.v[3], m.v[4], m.v[5]), m.v[6], m.v[7], m.v[8]); }
static void setv(ParticleState& s, int i, double x)
{
    switch (i) {
    case 0: s.position.SetX(x); break; case 1: s.position.SetY(x); break; case 2: s.position.SetZ(x); break;
    case 3: s.direction.SetX(x); break; case 4: s.direction.SetY(x); break; case 5: s.direction.SetZ(x); break;
    case 6: s.energy = x; break; case 7: s.time = x; break; case 8: s.propagated_distance = x; break;
    }
}

void vk_main()
{
    std::vector<double> mom = { 0, 1e-100, 1e-12, 1e-6, 1e-3, 0.1, 0.511, 1, 105.6583745, 1776.86, 1e5, 1e9, 1e14, 1e20 };
    for (int e = -30; e <= 50; ++e) for (double f : { 1., 1.3, 1.9999 }) mom.push_back(f * pow(2, e));
    vk::bound(vk::f("24 particle types x %zu momenta x 3 kinds of state", mom.size()));
    for (auto& t : types())
        vk::cs(vk::f("momentum-%d", t.type), [&] {
            for (double p : mom) for (int k = 0; k < 3; ++k) {
                ParticleState s;
                if (k == 0) s.SetType(static_cast<ParticleType>(t.type));
                if (k == 1) s = ParticleState(static_cast<ParticleType>(t.type), Cartesian3D(1, 2, 3), Cartesian3D(0, 0, 1), 12345, 6, 7);
                if (k == 2) { s = ParticleState(ParticleType::Gamma, Cartesian3D(1, 2, 3), Spherical3D(1, 0.5, 0.7), 9, 6, 7); s.SetMomentum(3); s.type = t.type; }
                double m = s.GetParticleDef().mass; VK_CLOSE(m, t.m, 5e-3, 0, "mass", "%d", t.type);
                VK_CHECK(s.type == t.type && s.GetParticleDef().particle_type == t.type, "type", "%d", t.type);
                ParticleState o(s); s.SetMomentum(p); shell(s, p, m, vk::f("type %d", t.type));
                VK_CHECK(s.position == o.position && s.direction == o.direction && s.time == o.time && s.propagated_distance == o.propagated_distance && s.type == o.type, "momentum-only-energy", "type %d", t.type);
                // and back from an energy
                double E = s.energy; s.SetMomentum(s.GetMomentum()); VK_CLOSE(s.energy, E, 1e-14, 0, "energy-round-trip", "type %d p %g", t.type, p);
                // copies
                double E2 = s.energy; ParticleState c(s); VK_CHECK(c == s && !(c != s), "copy", "type %d", t.type); c.SetMomentum(p * 2 + 1); VK_CHECK(c != s && s.energy == E2, "copy-independent", "%d", t.type); shell(c, p * 2 + 1, m, "copy");
                for (auto& u : types()) { ParticleState w(s); w.type = u.type; w.SetMomentum(p); double mu = w.GetParticleDef().mass; shell(w, p, mu, vk::f("type %d then %d", t.type, u.type)); VK_CHECK((w == s) == (u.type == t.type && w.energy == s.energy), "type-equality", "%d %d", t.type, u.type); }
                vk::state(vk::mix(vk::hd(3, p), t.type * 3 + k));
            }
        });
    vk::cs("custom-type", [&] {
        for (int i = 0; i < 40; ++i) { double m = i ? 1e-3 * pow(2.5, i) : 0; ParticleDef d("c", m, m, 1, 1, HardComponentTables::EmptyTable, DecayTable(), 50000 + i, 0);
            ParticleState s; s.type = 50000 + i; for (double p : mom) { s.SetMomentum(p); shell(s, p, m, "custom"); vk::state(vk::hd(i, p)); } VK_CHECK(s.GetParticleDef() == d, "custom-def", "%d", i); }
        ParticleState s; s.type = 49999; for (int k = 0; k < 3; ++k) { bool th = false; try { if (k == 0) s.SetMomentum(1); if (k == 1) s.GetMomentum(); if (k == 2) s.GetParticleDef(); } catch (std::invalid_argument const&) { th = true; } VK_CHECK(th, "unknown-type", "op %d accepted", k); }
    });
    vk::cs("constructors", [&] {
        ParticleState d; M z; VK_CHECK(has(d, z), "default", "not zero");
        ParticleState n(Cartesian3D(1, 2, 3), Cartesian3D(4, 5, 6), 7, 8, 9); M m; for (int i = 0; i < 9; ++i) m.v[i] = i + 1; VK_CHECK(has(n, m), "constructor", "untyped");
        for (auto& t : types()) { m.type = t.type; VK_CHECK(has(make(m), m), "constructor", "type %d", t.type); ParticleState s(n); s.SetType(static_cast<ParticleType>(t.type)); VK_CHECK(has(s, m) && s == make(m), "set-type", "%d", t.type); }
        // spherical vectors are stored as the same point and direction
        for (double r : { 1., 3. }) for (double a : { -3., 0., 1., 3.14 }) for (double z2 : { 0., 0.3, 1.57, 3.1415 }) { ParticleState s(ParticleType::MuMinus, Spherical3D(r, a, z2), Spherical3D(1, a, z2), 1e3, 0, 0);
            VK_CLOSE(s.position.GetX(), r * cos(a) * sin(z2), 1e-12, 1e-12, "spherical", "x"); VK_CLOSE(s.position.GetY(), r * sin(a) * sin(z2), 1e-12, 1e-12, "spherical", "y"); VK_CLOSE(s.position.GetZ(), r * cos(z2), 1e-12, 1e-12, "spherical", "z"); VK_CLOSE(s.direction.GetZ(), cos(z2), 1e-12, 1e-12, "spherical", "dz"); VK_CLOSE(s.direction.GetX(), cos(a) * sin(z2), 1e-12, 1e-12, "spherical", "dx"); VK_CLOSE(s.direction.GetY(), sin(a) * sin(z2), 1e-12, 1e-12, "spherical", "dy"); vk::state(vk::hd(vk::hd(r, a), z2)); }
        ParticleState s = make(m); std::ostringstream os; os << s; VK_CHECK(os.str().size() > 50, "print", "empty");
    });
    vk::bound("equality: all pairs of 4 base states x all subsets of differing fields (2^10), three kinds of difference");
    std::vector<M> base(4); for (int k = 0; k < 4; ++k) { base[k].type = k == 0 ? 0 : k == 1 ? 13 : k == 2 ? -13 : 22; for (int i = 0; i < 9; ++i) base[k].v[i] = k == 3 ? 0 : k == 2 ? -1e5 * (i + 1) : 0.1 * (i + 1); }
    for (int k = 0; k < 4; ++k) for (int kind = 0; kind < 3; ++kind)
        vk::cs(vk::f("equality-%d-%d", k, kind), [&] {
            for (int mask = 0; mask < 1024; ++mask) {
                M m = base[k];
                for (int i = 0; i < 9; ++i) if (mask >> i & 1) m.v[i] = kind == 0 ? nextafter(m.v[i], 1e9) : kind == 1 ? m.v[i] + 1 : m.v[i] == 0 ? 5 : -m.v[i];
                if (mask >> 9 & 1) m.type = kind == 0 ? m.type + 1 : kind == 1 ? -13 + 26 * (m.type != 13) : m.type == 0 ? 11 : -m.type;
                ParticleState a = make(base[k]), b = make(m); bool e = eq(base[k], m);
                VK_CHECK((a == b) == e && (b == a) == e && (a != b) == !e && (b != a) == !e, "equality", "base %d kind %d mask %x: equal=%d", k, kind, mask, int(a == b));
                ParticleState c(a); c = b; VK_CHECK(c == b && has(c, m) && has(a, base[k]), "assign", "mask %x", mask);
                // build the same state field by field
                ParticleState f(a); for (int i = 0; i < 9; ++i) setv(f, i, m.v[i]); f.type = m.type; VK_CHECK(f == b && has(f, m), "fields", "mask %x", mask);
                vk::state(vk::mix(vk::mix(9, k * 3 + kind), mask));
            }
        });
    {
        int N = vk::thorough() ? 6 : 5; const int NO = 16;
        vk::bound(vk::f("pool histories: all sequences of up to %d of %d operations on two states", N, NO));
        for (int first = 0; first < NO; ++first)
            vk::cs(vk::f("history-%d", first), [&] {
                struct W { ParticleState s[2]; M m[2]; };
                std::vector<int> ops;
                auto step = [&](W& w, int o) {
                    auto& a = w.s[0]; auto& b = w.s[1]; auto &ma = w.m[0], &mb = w.m[1];
                    switch (o) {
                    case 0: a.SetType(ParticleType::MuMinus); ma.type = 13; break; case 1: b.SetType(ParticleType::MuMinus); mb.type = 13; break; case 2: a.SetType(ParticleType::Gamma); ma.type = 22; break;
                    case 3: if (ma.type) { a.SetMomentum(200); VK_CLOSE(a.energy, ma.type == 13 ? hypot(200, 105.6583745) : 200, 1e-9, 0, "history-momentum", "%d", ma.type); ma.v[6] = a.energy; } break;
                    case 4: if (mb.type) { b.SetMomentum(200); VK_CLOSE(b.energy, mb.type == 13 ? hypot(200, 105.6583745) : 200, 1e-9, 0, "history-momentum", "%d", mb.type); mb.v[6] = b.energy; } break;
                    case 5: a = b; ma = mb; break; case 6: b = a; mb = ma; break; case 7: std::swap(a, b); std::swap(ma, mb); break;
                    case 8: { ParticleState c(a); c.energy = 3; c.position.SetX(99); c.direction.SetZ(-7); c.time = -1; (void)c; } break;
                    case 9: a.position = Cartesian3D(1, 2, 3); ma.v[0] = 1; ma.v[1] = 2; ma.v[2] = 3; break; case 10: b.direction = Cartesian3D(0, 0, -1); mb.v[3] = mb.v[4] = 0; mb.v[5] = -1; break;
                    case 11: a.position.SetY(5); ma.v[1] = 5; break; case 12: a.energy = 500; ma.v[6] = 500; break; case 13: b.time += 1; mb.v[7] += 1; break; case 14: a.propagated_distance = 4; ma.v[8] = 4; break;
                    case 15: a.position = b.direction; for (int i = 0; i < 3; ++i) ma.v[i] = mb.v[3 + i]; break;
                    }
                };
                std::function<void(W const&)> rec = [&](W const& w0) {
                    for (int o = 0; o < NO; ++o) {
                        if (ops.empty() && o != first) continue;
                        W w(w0); ops.push_back(o); step(w, o); std::string h; for (int x : ops) h += vk::f(" %d", x);
                        VK_CHECK(has(w.s[0], w.m[0]) && has(w.s[1], w.m[1]), "history", "ops%s", h.c_str());
                        bool e = eq(w.m[0], w.m[1]); VK_CHECK((w.s[0] == w.s[1]) == e && (w.s[0] != w.s[1]) == !e, "history-equality", "ops%s", h.c_str());
                        for (int k = 0; k < 2; ++k) if (w.m[k].type && w.m[k].v[6] > 106) { double m = w.m[k].type == 13 ? 105.6583745 : 0; VK_CLOSE(w.s[k].GetMomentum(), sqrt(w.m[k].v[6] * w.m[k].v[6] - m * m), 1e-9, 1e-9, "history-get", "ops%s", h.c_str()); }
                        uint64_t s = 1; for (int k = 0; k < 2; ++k) { s = vk::mix(s, w.m[k].type); for (double x : w.m[k].v) s = vk::hd(s, x); } vk::state(s);
                        if ((int)ops.size() < N) rec(w);
                        ops.pop_back();
                    }
                };
                rec(W());
            });
    }
}
