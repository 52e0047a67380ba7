// vk: sources=medium,Constants,methods,Logging,math flavor=asan shards=8 limit=800
#include "vk.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include <algorithm>
#include <memory>
#include <sstream>
#include <sys/wait.h>
using namespace PROPOSAL;

static const double kMP = 938.27208, kMN = 939.56541, kNA = 6.02214e23, kRE = 2.8179403e-13, kAL = 1 / 137.035999;
// ---- independent facts --------------------------------------------------------------
struct CF { const char* name; double Z, A; Component (*make)(double); Component (*def)(); double natoms; };
template <class T> static Component mkc(double n) { return T(n); }
template <class T> static Component mkd() { return T(); }
#define CFL(c, sym, Z, A, n) { sym, Z, A, mkc<Components::c>, mkd<Components::c>, n }
static std::vector<CF> const& comps()
{
    static std::vector<CF> c = { CFL(Hydrogen, "H", 1, 1.008, 2), CFL(Carbon, "C", 6, 12.01, 1), CFL(Nitrogen, "N", 7, 14.007, 1), CFL(Oxygen, "O", 8, 15.999, 1), CFL(Sodium, "Na", 11, 22.99, 1),
        CFL(Magnesium, "Mg", 12, 24.305, 1), CFL(Sulfur, "S", 16, 32.06, 1), CFL(Chlorine, "Cl", 17, 35.45, 1), CFL(Argon, "Ar", 18, 39.948, 1), CFL(Potassium, "K", 19, 39.098, 1),
        CFL(Calcium, "Ca", 20, 40.078, 1), CFL(Iron, "Fe", 26, 55.845, 1), CFL(Copper, "Cu", 29, 63.546, 1), CFL(Lead, "Pb", 82, 207.2, 1), CFL(Uranium, "U", 92, 238.029, 1),
        CFL(StandardRock, "StandardRock", 11, 22, 1), CFL(FrejusRock, "FrejusRock", 10.12, 20.34, 1) };
    return c;
}
struct MF { const char* key; const char* name; std::shared_ptr<Medium> (*make)(); Medium_Type type; double rho, za, I, X0rad; std::vector<std::pair<double, double>> frac; };
template <class T> static std::shared_ptr<Medium> mkm() { return std::make_shared<T>(); }
// density g/cm3, <Z/A>, excitation energy eV, radiation length g/cm2 (PDG tables), atoms (Z, relative number)
static std::vector<MF> const& media()
{
    static std::vector<std::pair<double, double>> h2o = { { 1, 2 }, { 8, 1 } };
    static std::vector<MF> m = {
        { "water", "water", mkm<PDG2020::Water>, WATER, 1.0, 0.5551, 79.7, 36.08, h2o }, { "waterpdg2001", "water", mkm<PDG2001::Water>, WATERPDG2001, 1.0, 0.5551, 75, 36.08, h2o },
        { "waterpdg2020", "water", mkm<PDG2020::Water>, WATERPDG2020, 1.0, 0.5551, 79.7, 36.08, h2o }, { "ice", "ice", mkm<PDG2020::Ice>, ICE, 0.918, 0.5551, 79.7, 36.08, h2o },
        { "icepdg2001", "ice", mkm<PDG2001::Ice>, ICEPDG2001, 0.917, 0.5551, 75, 36.08, h2o }, { "icepdg2020", "ice", mkm<PDG2020::Ice>, ICEPDG2020, 0.918, 0.5551, 79.7, 36.08, h2o },
        { "salt", "salt", mkm<Salt>, SALT, 2.323, 0.4790, 175.3, 21.91, { { 11, 1 }, { 17, 1 } } }, { "standardrock", "standardrock", mkm<StandardRock>, STANDARDROCK, 2.65, 0.5, 136.4, 26.54, { { 11, 1 } } },
        { "frejusrock", "frejusrock", mkm<FrejusRock>, FREJUSROCK, 2.74, 0.4976, 149, 0, { { 10.12, 1 } } }, { "iron", "iron", mkm<Iron>, IRON, 7.874, 0.4656, 286, 13.84, { { 26, 1 } } },
        { "hydrogen", "hydrogen", mkm<Hydrogen>, HYDROGEN, 0.0708, 0.9921, 21.8, 63.04, { { 1, 2 } } }, { "lead", "lead", mkm<Lead>, LEAD, 11.35, 0.3957, 823, 6.37, { { 82, 1 } } },
        { "copper", "copper", mkm<Copper>, COPPER, 8.96, 0.4564, 322, 12.86, { { 29, 1 } } }, { "uranium", "uranium", mkm<Uranium>, URANIUM, 18.95, 0.3865, 890, 6.0, { { 92, 1 } } },
        { "air", "air", mkm<Air>, AIR, 1.205e-3, 0.4992, 85.7, 36.62, { { 7, 2 * 78.1 }, { 8, 2 * 21 }, { 18, 0.93 } } }, { "paraffin", "paraffin", mkm<Paraffin>, PARAFFIN, 0.93, 0.5727, 55.9, 44.85, { { 6, 25 }, { 1, 52 } } },
        { "antareswater", "antareswater", mkm<AntaresWater>, ANTARESWATER, 1.04, 0.5515, 75, 35.0, { { 1, 2 }, { 8, 1.0088 }, { 11, 0.0094 }, { 19, 2.1e-4 }, { 12, 0.00109 }, { 20, 2.1e-4 }, { 17, 0.011 }, { 16, 0.0058 } } },
        { "cascadiabasinwater", "cascadiabasinwater", mkm<CascadiaBasinWater>, CASCADIABASINWATER, 1.04, 0.5528, 75, 35.3, { { 1, 2 }, { 8, 1.002 }, { 11, 8.7e-3 }, { 12, 9.8e-4 }, { 20, 1.9e-4 }, { 19, 1.9e-4 }, { 17, 0.01015 }, { 16, 5.2e-4 } } },
        { "liquidargon", "liquidargon", mkm<LiquidArgon>, LIQUIDARGON, 1.396, 0.4506, 188, 19.55, { { 18, 1 } } },
    };
    return m;
}
static double x0inv(double Z, double A)
{
    double a2 = kAL * kAL * Z * Z, f = a2 * (1 / (1 + a2) + 0.20206 - 0.0369 * a2 + 0.0083 * a2 * a2 - 0.002 * a2 * a2 * a2), L = log(184.15 / cbrt(Z)), Ld = log(1194 / cbrt(Z * Z));
    if (Z == 1) { L = 5.31; Ld = 6.144; } if (Z == 2) { L = 4.79; Ld = 5.621; } if (Z == 3) { L = 4.74; Ld = 5.805; } if (Z == 4) { L = 4.71; Ld = 5.924; }
    return 4 * kAL * kRE * kRE * kNA / A * (Z * Z * (L - f) + Z * Ld);
}
static double logconst(int Z) // Kelner, Kokoulin, Petrukhin: radiation logarithm
{
    static const std::map<int, double> m = { { 1, 202.4 }, { 2, 151.9 }, { 3, 159.9 }, { 4, 172.3 }, { 5, 177.9 }, { 6, 178.3 }, { 7, 176.6 }, { 8, 173.4 }, { 9, 170 }, { 10, 165.8 }, { 11, 165.8 }, { 12, 167.1 }, { 13, 169.1 }, { 14, 170.8 }, { 15, 172.2 },
        { 16, 173.4 }, { 17, 174.3 }, { 18, 174.8 }, { 19, 175.1 }, { 20, 175.6 }, { 21, 176.2 }, { 22, 176.8 }, { 26, 175.8 }, { 29, 173.1 }, { 32, 173 }, { 35, 173.5 }, { 42, 175.9 }, { 50, 177.4 }, { 53, 178.6 }, { 74, 177.6 }, { 82, 178 }, { 92, 179.8 } };
    auto i = m.find(Z); return i == m.end() ? 182.7 : i->second;
}
static double woodsaxon(double Z, double A)
{
    if (Z == 1) return 0;
    // 1 - 4 pi rho0 / A * integral_r0^inf r^2 / (1 + exp((r - r0)/a)) dr by long double Simpson
    long double a = 0.54L, r0 = 1.12L * cbrtl(A) - 0.86L / cbrtl(A), s = 0; int n = 20000; long double h = 40 * a / n;
    for (int i = 0; i <= n; ++i) { long double r = r0 + i * h, g = r * r / (1 + expl((r - r0) / a)); s += g * (i == 0 || i == n ? 1 : i % 2 ? 4 : 2); }
    return double(1 - 4 * M_PIl * 0.17L * s * h / 3 / A);
}
static void judge(Component const& c, const char* nm, double Z, double A, double n, std::string const& h)
{
    VK_CHECK(c.GetName() == nm && c.GetNucCharge() == Z && c.GetAtomicNum() == A && c.GetAtomInMolecule() == n, "component-values", "%s", h.c_str());
    VK_CLOSE(c.GetAverageNucleonWeight(), (Z * kMP + (A - Z) * kMN) / A, 1e-7, 0, "nucleon-weight", "%s", h.c_str());
    VK_CLOSE(c.GetWoodSaxon(), woodsaxon(Z, A), 1e-6, 1e-7, "wood-saxon", "%s Z=%g A=%g", h.c_str(), Z, A);
    VK_CLOSE(c.GetLogConstant(), logconst(int(std::round(Z))), 1e-12, 0, "log-constant", "%s Z=%g", h.c_str(), Z);
    VK_CLOSE(c.GetBPrime(), std::round(Z) == 1 ? 446 : 1429, 1e-12, 0, "b-prime", "%s Z=%g", h.c_str(), Z);
}
// the derived quantities of a medium from its components
static void judge(Medium const& m, std::string const& h)
{
    auto cs = m.GetComponents(); double sz = 0, sa = 0, sw = 0, ix = 0;
    VK_CHECK((int)cs.size() == m.GetNumComponents(), "num-components", "%s", h.c_str());
    bool integer = true;
    for (auto& c : cs) { double n = c.GetAtomInMolecule(), A = c.GetAtomicNum(), Z = c.GetNucCharge(); sz += n * Z; sa += n * A; sw += n * A * c.GetAverageNucleonWeight(); ix += n * A * x0inv(Z, A); if (Z != std::floor(Z)) integer = false; }
    VK_CLOSE(m.GetSumCharge(), sz, 1e-12, 0, "sum-charge", "%s", h.c_str());
    VK_CLOSE(m.GetSumNucleons(), sa, 1e-12, 0, "sum-nucleons", "%s", h.c_str());
    VK_CLOSE(m.GetZA(), sz / sa, 1e-12, 0, "za", "%s", h.c_str());
    VK_CLOSE(m.GetMolDensity(), m.GetMassDensity() * kNA / sa, 1e-6, 0, "mol-density", "%s", h.c_str());
    VK_CLOSE(m.GetMM(), sw / sa, 1e-12, 0, "mm", "%s", h.c_str());
    VK_CLOSE(m.GetRadiationLength(), sa / ix, integer ? 1e-5 : 0.05, 0, "radiation-length", "%s", h.c_str());
    VK_CLOSE(calculate_proton_massnumber_fraction(cs), sz / sa, 1e-12, 0, "proton-fraction", "%s", h.c_str());
}
static bool same(Component const& a, Component const& b) { return a.GetName() == b.GetName() && a.GetNucCharge() == b.GetNucCharge() && a.GetAtomicNum() == b.GetAtomicNum() && a.GetAtomInMolecule() == b.GetAtomInMolecule(); }
static bool same(Medium const& a, Medium const& b)
{
    if (!(a.GetName() == b.GetName() && a.GetI() == b.GetI() && a.GetC() == b.GetC() && a.GetA() == b.GetA() && a.GetM() == b.GetM() && a.GetX0() == b.GetX0() && a.GetX1() == b.GetX1() && a.GetD0() == b.GetD0() && a.GetMassDensity() == b.GetMassDensity() && a.GetNumComponents() == b.GetNumComponents())) return false;
    auto x = a.GetComponents(), y = b.GetComponents(); for (size_t i = 0; i < x.size(); ++i) if (!same(x[i], y[i])) return false;
    return true;
}
template <class T> static void agree(T const& a, T const& b, std::string const& h)
{
    bool s = same(a, b);
    VK_CHECK((a == b) == s && (b == a) == s && (a != b) == !s, "equality", "%s: equal=%d, parameters agree=%d", h.c_str(), int(a == b), int(s));
    VK_CHECK((a.GetHash() == b.GetHash()) == s, "hash", "%s: hashes %s, parameters agree=%d", h.c_str(), a.GetHash() == b.GetHash() ? "agree" : "differ", int(s));
}
static std::string cap(std::string s, int how)
{
    for (size_t i = 0; i < s.size(); ++i) {
        bool up = how == 1 || (how == 2 && i == 0) || (how == 3 && i % 2) || (how == 4 && i + 1 == s.size());
        if (up) s[i] = toupper(s[i]);
    }
    return s;
}
// user media as plain data
struct U { std::string name; double p[8]; std::vector<std::array<double, 3>> c; std::vector<std::string> cn; };
static Medium build(U const& u) { std::vector<Component> cs; for (size_t i = 0; i < u.c.size(); ++i) cs.emplace_back(u.cn[i], u.c[i][0], u.c[i][1], u.c[i][2]); return Medium(u.name, u.p[0], u.p[1], u.p[2], u.p[3], u.p[4], u.p[5], u.p[6], u.p[7], cs); }
static std::vector<std::pair<std::string, U>> variants(U const& u)
{
    std::vector<std::pair<std::string, U>> v; v.push_back({ "same", u });
    const char* pn[] = { "I", "C", "a", "m", "X0", "X1", "d0", "rho" };
    for (int i = 0; i < 8; ++i) { U x = u; x.p[i] = nextafter(x.p[i], 1e9); v.push_back({ std::string(pn[i]) + "-ulp", x }); x.p[i] = u.p[i] * 1.5 + 0.1; v.push_back({ pn[i], x }); x.p[i] = -u.p[i] - 1; if (i != 7 && i != 0) v.push_back({ std::string(pn[i]) + "-neg", x }); }
    for (int i = 0; i < 8; ++i) for (int j = 0; j < i; ++j) if (u.p[i] != u.p[j] && i != 7 && j != 7) { U x = u; std::swap(x.p[i], x.p[j]); v.push_back({ std::string("swap-") + pn[i] + pn[j], x }); }
    { U x = u; x.name += "b"; v.push_back({ "name", x }); x.name = u.name; x.name[0] ^= 32; v.push_back({ "name-case", x }); }
    for (size_t k = 0; k < u.c.size(); ++k) {
        for (int q = 0; q < 3; ++q) { U x = u; x.c[k][q] = nextafter(x.c[k][q], 1e9); v.push_back({ vk::f("comp%zu-%d-ulp", k, q), x }); x.c[k][q] = u.c[k][q] + 2; v.push_back({ vk::f("comp%zu-%d", k, q), x }); }
        U x = u; x.cn[k] += "x"; v.push_back({ vk::f("comp%zu-name", k), x });
        x = u; x.c.erase(x.c.begin() + k); x.cn.erase(x.cn.begin() + k); if (x.c.size()) v.push_back({ vk::f("without-%zu", k), x });
        x = u; x.c.push_back(x.c[k]); x.cn.push_back(x.cn[k]); v.push_back({ vk::f("twice-%zu", k), x });
        for (size_t j = 0; j < k; ++j) { x = u; std::swap(x.c[j], x.c[k]); std::swap(x.cn[j], x.cn[k]); v.push_back({ vk::f("exchange-%zu%zu", k, j), x }); }
    }
    return v;
}
// ---- registry histories --------------------------------------------------------------
static void history(std::vector<int> const& ops, std::string const& h)
{
    std::vector<std::shared_ptr<Medium>> m; std::vector<std::shared_ptr<Component>> c;
    U u { "u", { 10, 1, 2, 3, 4, 5, 6, 7 }, { { 1, 1, 2 }, { 8, 16, 1 } }, { "H", "O" } }, w = u; w.name = "w";
    auto lm = [&](size_t hash, Medium const* want) {
        try { auto x = Medium::GetMediumForHash(hash); if (want) { VK_CHECK(same(x, *want) && x == *want && x.GetHash() == hash, "medium-lookup", "%s: %s for %s", h.c_str(), x.GetName().c_str(), want->GetName().c_str()); judge(x, h); } else VK_CHECK(false, "unknown-hash", "%s: found", h.c_str()); }
        catch (std::invalid_argument const& e) { VK_CHECK(!want, "medium-lookup", "%s: %s not found", h.c_str(), want ? want->GetName().c_str() : ""); }
    };
    auto lc = [&](size_t hash, Component const* want) {
        try { auto x = Component::GetComponentForHash(hash); if (want) VK_CHECK(same(x, *want) && x == *want && x.GetHash() == hash, "component-lookup", "%s: %s for %s", h.c_str(), x.GetName().c_str(), want->GetName().c_str()); else VK_CHECK(false, "unknown-hash", "%s: found", h.c_str()); }
        catch (std::invalid_argument const& e) { VK_CHECK(!want, "component-lookup", "%s: %s not found", h.c_str(), want ? want->GetName().c_str() : ""); }
    };
    for (int o : ops) switch (o) {
        case 0: m.push_back(std::make_shared<PDG2020::Water>()); break;
        case 1: m.push_back(std::make_shared<PDG2001::Water>()); break;
        case 2: m.push_back(CreateMedium("Ice")); break;
        case 3: m.push_back(std::make_shared<Medium>(build(u))); break;
        case 4: m.push_back(std::make_shared<Medium>(build(w))); break;
        case 5: c.push_back(std::make_shared<Component>(Components::Oxygen())); break;
        case 6: c.push_back(std::make_shared<Component>("O", 8, 15.9994, 3)); break;
        case 7: c.push_back(std::make_shared<Component>("X", 8, 15.9994, 1)); break;
        case 8: if (m.size()) { Medium x(*m.front()); m.push_back(std::make_shared<Medium>(x)); *m.front() = *m.back(); } break;
        case 9: if (m.size() > 1) { auto t = std::make_shared<Medium>(*m.back()); *t = *m.front(); m.push_back(t); } break;
        case 10: lm(12345, nullptr); lc(54321, nullptr); break;
        case 11: if (m.size()) lm(m.front()->GetHash(), m.front().get()); if (c.size()) lc(c.front()->GetHash(), c.front().get()); break;
        }
    for (auto& x : m) { lm(x->GetHash(), x.get()); for (auto& k : x->GetComponents()) lc(k.GetHash(), &k); judge(*x, h); }
    for (auto& x : c) lc(x->GetHash(), x.get());
    for (auto& x : m) for (auto& y : m) agree(*x, *y, h);
    for (auto& x : c) for (auto& y : c) agree(*x, *y, h);
    lm(99, nullptr); lc(99, nullptr);
    uint64_t s = 3; for (auto& x : m) s = vk::mix(s, x->GetHash()); for (auto& x : c) s = vk::mix(s, x->GetHash() + 1);
    vk::state(s);
}

void vk_main()
{
    vk::bound("17 components: values, derived values, all pairs; 19 media names x 6 capitalisations x class and type");
    for (size_t i = 0; i < comps().size(); ++i)
        vk::cs(vk::f("component-%s", comps()[i].name), [&] {
            auto& f = comps()[i]; auto d = f.def();
            VK_CLOSE(d.GetNucCharge(), f.Z, 1e-9, 0, "component-charge", "%s", f.name); VK_CLOSE(d.GetAtomicNum(), f.A, 2e-3, 0, "component-mass", "%s", f.name);
            VK_CHECK(d.GetAtomInMolecule() == f.natoms && d.GetName() == f.name, "component-values", "%s", f.name);
            for (double n : { 1., 2., 0.5, 1e-4, 156.2 }) {
                auto c = f.make(n); judge(c, f.name, d.GetNucCharge(), d.GetAtomicNum(), n, f.name); Component k(c); agree(c, k, "copy"); agree(c, d, "default");
                Component as("q", 3, 7, 1); as = c; agree(as, c, "assigned"); VK_CHECK(same(as, c), "assign", "%s", f.name);
                VK_CHECK(Component::GetComponentForHash(c.GetHash()) == c, "component-lookup", "%s", f.name);
                std::ostringstream os; os << c; VK_CHECK(os.str().find(f.name) != std::string::npos, "print", "%s", f.name);
                for (auto& g : comps()) for (double n2 : { 1., 2. }) agree(c, g.make(n2), "pair");
                vk::state(c.GetHash());
            }
        });
    vk::cs("component-grid", [&] {
        std::vector<Component> all;
        for (int Z = 1; Z <= 100; ++Z) for (double dz : { 0., 0.12, 0.49, -0.4 }) { double z = Z + dz, A = Z == 1 ? 1.00794 : 2.3 * Z; if (z == 1 && dz) continue; if (z < 1) continue; Component c("e", z, A, 1 + Z % 3); judge(c, "e", z, A, 1 + Z % 3, "grid"); VK_CHECK(Component::GetComponentForHash(c.GetHash()) == c, "component-lookup", "grid"); vk::state(c.GetHash()); all.push_back(c); }
        std::vector<std::array<double, 3>> base = { { 8, 16, 1 }, { 1, 1, 2 }, { 26, 55.8, 1 } };
        for (auto& b : base) { Component c("e", b[0], b[1], b[2]); for (int q = 0; q < 3; ++q) for (double d : { 1e-12, 1e-3, 2. }) { auto x = b; x[q] += d; agree(c, Component("e", x[0], x[1], x[2]), vk::f("grid q%d d%g", q, d)); } agree(c, Component("E", b[0], b[1], b[2]), "name"); agree(c, Component("", b[0], b[1], b[2]), "no name"); agree(c, Component("e", b[0], b[1], b[2]), "same"); }
        for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); j += 7) agree(all[i], all[j], "grid pairs");
    });
    for (size_t i = 0; i < media().size(); ++i)
        vk::cs(vk::f("medium-%s", media()[i].key), [&] {
            auto& f = media()[i]; auto m = f.make();
            VK_CHECK(m->GetName() == f.name, "medium-name", "%s is called %s", f.key, m->GetName().c_str());
            VK_CHECK(Medium_Name[f.type] == f.key, "type-name", "%s", f.key);
            for (int k = 0; k < 5; ++k) { auto n = cap(f.key, k); auto x = CreateMedium(n); VK_CHECK(x && same(*x, *m) && *x == *m && x->GetHash() == m->GetHash(), "by-name", "%s gives %s", n.c_str(), x->GetName().c_str()); judge(*x, n); vk::state(vk::hs(n)); }
            // every capitalisation of the first seven letters
            for (int mask = 0; mask < 128; ++mask) { std::string n = f.key; for (int b = 0; b < 7 && b < (int)n.size(); ++b) if (mask >> b & 1) n[b] = toupper(n[b]); VK_CHECK(*CreateMedium(n) == *m, "by-name", "%s", n.c_str()); }
            auto t = CreateMedium(f.type); VK_CHECK(same(*t, *m) && *t == *m, "by-type", "%s", f.key);
            judge(*m, f.key);
            VK_CLOSE(m->GetMassDensity(), f.rho, 1e-2, 0, "handbook-density", "%s", f.key); VK_CLOSE(m->GetZA(), f.za, 2e-3, 0, "handbook-za", "%s", f.key); VK_CLOSE(m->GetI(), f.I, 5e-3, 0, "handbook-I", "%s", f.key);
            if (f.X0rad) VK_CLOSE(m->GetRadiationLength(), f.X0rad, f.type == STANDARDROCK ? 0.03 : 0.02, 0, "handbook-radiation-length", "%s", f.key);
            std::map<double, double> want, got; double sw = 0, sg = 0; for (auto& p : f.frac) { want[p.first] += p.second; sw += p.second; } for (auto& c : m->GetComponents()) { got[c.GetNucCharge()] += c.GetAtomInMolecule(); sg += c.GetAtomInMolecule(); }
            VK_CHECK(want.size() == got.size(), "composition", "%s has %zu elements", f.key, got.size());
            for (auto& p : want) VK_CLOSE(got[p.first] / sg, p.second / sw, 0.07, 0, "composition", "%s Z=%g", f.key, p.first);
            for (auto& c : m->GetComponents()) { bool known = false; for (auto& k : comps()) if (c.GetName() == k.name) { known = true; judge(c, k.name, k.def().GetNucCharge(), k.def().GetAtomicNum(), c.GetAtomInMolecule(), f.key); } VK_CHECK(known, "composition", "%s: %s", f.key, c.GetName().c_str()); VK_CHECK(Component::GetComponentForHash(c.GetHash()) == c, "component-lookup", "%s", f.key); }
            VK_CHECK(Medium::GetMediumForHash(m->GetHash()) == *m && same(Medium::GetMediumForHash(m->GetHash()), *m), "medium-lookup", "%s", f.key);
            Medium c(*m); agree(c, *m, "copy"); Medium d(*media()[(i + 5) % media().size()].make()); d = *m; agree(d, *m, "assigned"); VK_CHECK(same(d, *m) && same(c, *m), "copy", "%s", f.key); judge(d, "assigned");
            for (auto& g : media()) agree(*m, *g.make(), "pair"); agree<Medium>(*m, CalciumCarbonate(), "pair");
            std::ostringstream os; os << *m; VK_CHECK(os.str().find(f.name) != std::string::npos, "print", "%s", f.key);
            // names that are not media
            std::vector<std::string> bad = { std::string(f.key) + " ", std::string(" ") + f.key, std::string(f.key) + "1", std::string(f.key, strlen(f.key) - 1), std::string(f.key + 1), std::string(f.key) + std::string(1, '\0'), std::string(f.key) + f.key };
            for (auto& n : bad) { bool isn = false; for (auto& g : media()) isn |= n == g.key; bool th = false; try { CreateMedium(n); } catch (std::invalid_argument const&) { th = true; } VK_CHECK(th == !isn, "unknown-name", "'%s' accepted=%d", n.c_str(), !th); }
        });
    vk::cs("medium-misc", [&] {
        for (auto n : { "", "calcium", "standard rock", "unobtainium", "w", "water2001", "Helium", "0", "liquid argon" }) { bool th = false; try { CreateMedium(n); } catch (std::invalid_argument const&) { th = true; } VK_CHECK(th, "unknown-name", "'%s' accepted", n); }
        for (int t : { -1, 19, 1000 }) { bool th = false; try { CreateMedium(static_cast<Medium_Type>(t)); } catch (std::invalid_argument const&) { th = true; } VK_CHECK(th, "unknown-type", "%d accepted", t); }
        CalciumCarbonate cc; judge(cc, "calciumcarbonate"); VK_CLOSE(cc.GetSumCharge(), 20 + 6 + 24, 1e-12, 0, "composition", "CaCO3"); VK_CHECK(Medium::GetMediumForHash(cc.GetHash()) == cc, "medium-lookup", "CaCO3");
    });
    vk::bound("3 user media x all single-parameter changes (ulp, value, sign, exchange, component removed/doubled/exchanged): all pairs");
    std::vector<U> us = { { "u", { 75, -3.5, 0.09, 3.4, 0.24, 2.8, 0, 1 }, { { 1, 1.008, 2 }, { 8, 16, 1 } }, { "H", "O" } },
        { "single", { 286, -4.2, 0.14, 2.9, -0.0012, 3.1, 0.12, 7.8 }, { { 26, 55.8, 1 } }, { "Fe" } },
        { "mix", { 136, -3.7, 0.08, 3.4, 0.05, 3.05, 0.3, 2.65 }, { { 20, 40, 1 }, { 6, 12, 1 }, { 8, 16, 3 } }, { "Ca", "C", "O" } } };
    for (size_t k = 0; k < us.size(); ++k) {
        auto v = std::make_shared<std::vector<std::pair<std::string, U>>>(variants(us[k]));
        for (size_t i = 0; i < v->size(); ++i)
            vk::cs(vk::f("variant-%zu-%s", k, (*v)[i].first.c_str()), [&, i] {
                auto a = build((*v)[i].second); judge(a, (*v)[i].first); VK_CHECK(Medium::GetMediumForHash(a.GetHash()) == a && same(Medium::GetMediumForHash(a.GetHash()), a), "medium-lookup", "%s", (*v)[i].first.c_str());
                for (auto& w : *v) { auto b = build(w.second); agree(a, b, (*v)[i].first + " / " + w.first); VK_CHECK(same(Medium::GetMediumForHash(b.GetHash()), b) && same(Medium::GetMediumForHash(a.GetHash()), a), "medium-lookup", "after %s", w.first.c_str()); }
                vk::state(a.GetHash());
            });
    }
    {
        int N = vk::thorough() ? 5 : 4; const int NO = 12;
        vk::bound(vk::f("registry histories: all sequences of up to %d of %d operations, each in a fresh process", N, NO));
        for (int first = 0; first < NO; ++first) for (int sec = 0; sec < NO; ++sec)
            vk::cs(vk::f("history-%d-%d", first, sec), [&] {
                std::vector<int> ops = { first, sec };
                auto run = [&] {
                    std::string h = "ops"; for (int o : ops) h += vk::f(" %d", o);
                    int pfd[2]; if (pipe(pfd)) throw vk::Skip();
                    pid_t c = fork();
                    if (!c) {
                        close(pfd[0]); std::string out; auto& cx = vk::ctx(); cx.states.clear();
                        try { history(ops, h); for (auto s : cx.states) out = std::to_string(s); } catch (std::exception const& e) { out = std::string("!") + e.what(); } catch (...) { out = "!violation"; }
                        if (write(pfd[1], out.c_str(), out.size()) < 0) {} _exit(0);
                    }
                    close(pfd[1]); std::string out; char buf[4096]; ssize_t n; while ((n = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, n); close(pfd[0]);
                    int st = 0; waitpid(c, &st, 0); vk::trans(20);
                    if (out.empty() || !WIFEXITED(st) || WEXITSTATUS(st)) vk::fail("crash", "%s: child died (status %d)", h.c_str(), st);
                    if (out[0] == '!') vk::fail("history", "%s: %s", h.c_str(), out.c_str());
                    vk::state(strtoull(out.c_str(), nullptr, 10));
                };
                std::function<void()> rec = [&] { run(); if ((int)ops.size() < N) for (int o = 0; o < NO; ++o) { ops.push_back(o); rec(); ops.pop_back(); } };
                if (sec == 0) { ops.pop_back(); run(); ops.push_back(sec); }
                rec();
            });
    }
}
