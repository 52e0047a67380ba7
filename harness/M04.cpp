// vk: sources=math/Integral,Constants,Logging flavor=asan shards=8 limit=700
#include "vk.h"
#include "PROPOSAL/math/Integral.h"
#include <memory>
using namespace PROPOSAL;
typedef long double LD;

struct Fn {
    const char* n;
    std::function<double(double)> f;
    std::function<LD(LD)> F; // antiderivative
    bool pos;                // only defined for x > 0
    int sign;                // +1, -1: constant sign on x>0; 0: changes sign
    bool smooth;
    LD inf;                  // F(infinity), nan if divergent
};
static const LD NaN = std::numeric_limits<LD>::quiet_NaN();
static std::vector<Fn> fns()
{
    const LD p2 = 1.57079632679489661923L;
    return {
        { "one", [](double) { return 1.; }, [](LD x) { return x; }, false, 1, true, NaN },
        { "quad", [](double x) { return 3 * x * x + 2 * x + 1; }, [](LD x) { return x * x * x + x * x + x; }, false, 1, true, NaN },
        { "expm", [](double x) { return std::exp(-x); }, [](LD x) { return -expl(-x); }, false, 1, true, 0 },
        { "nexp", [](double x) { return -std::exp(x / 2); }, [](LD x) { return -2 * expl(x / 2); }, false, -1, true, NaN },
        { "inv", [](double x) { return 1 / x; }, [](LD x) { return logl(x); }, true, 1, true, NaN },
        { "inv2", [](double x) { return 1 / (x * x); }, [](LD x) { return -1 / x; }, true, 1, true, 0 },
        { "ninv15", [](double x) { return -std::pow(x, -1.5); }, [](LD x) { return 2 / sqrtl(x); }, true, -1, true, 0 },
        { "lor", [](double x) { return 1 / (1 + x * x); }, [](LD x) { return atanl(x); }, false, 1, true, p2 },
        { "cos", [](double x) { return std::cos(2 * x) + 0.3; }, [](LD x) { return sinl(2 * x) / 2 + 0.3L * x; }, false, 0, true, NaN },
        { "cub", [](double x) { return x * x * x - x; }, [](LD x) { return x * x * x * x / 4 - x * x / 2; }, false, 0, true, NaN },
        { "sqrt", [](double x) { return std::sqrt(x); }, [](LD x) { return 2 * x * sqrtl(x) / 3; }, true, 1, true, NaN },
        { "log", [](double x) { return std::log(x); }, [](LD x) { return x * logl(x) - x; }, true, 0, true, NaN },
    };
}
// functions for which the Romberg steps run out and the adaptive rule takes over
static std::vector<Fn> hard()
{
    auto kink = [](LD c) { return [c](LD x) { return (x - c) * fabsl(x - c) / 2; }; };
    return {
        { "kink", [](double x) { return std::fabs(x - 1.3); }, kink(1.3), false, 1, false, NaN },
        { "peak", [](double x) { return 1 / (1e-6 + (x - 1.3) * (x - 1.3)); }, [](LD x) { return 1000 * atanl(1000 * (x - 1.3L)); }, false, 1, false, NaN },
        { "sing", [](double x) { return std::pow(std::fabs(x - 1.3), -0.3); }, [](LD x) { return (x > 1.3L ? 1 : -1) * powl(fabsl(x - 1.3L), 0.7L) / 0.7L; }, false, 1, false, NaN },
        { "root", [](double x) { return std::pow(x, -0.3); }, [](LD x) { return powl(x, 0.7L) / 0.7L; }, false, 1, false, NaN },
        { "log0", [](double x) { return std::log(x); }, [](LD x) { return x == 0 ? 0 : x * logl(x) - x; }, false, 1, false, NaN },
    };
}

struct Job { int fn, method; double power, a, b; bool rnd; double ratio; };
static std::string jid(Fn const& f, Job const& j)
{
    return vk::f("%s m%d p%g [%g,%g]%s", f.n, j.method, j.power, j.a, j.b, j.rnd ? vk::f(" r%g", j.ratio).c_str() : "");
}
static double run(Integral& i, Fn const& f, Job const& j)
{
    if (j.rnd) return i.IntegrateWithRandomRatio(j.a, j.b, f.f, j.method, j.ratio, j.power);
    return i.Integrate(j.a, j.b, f.f, j.method, j.power);
}
// what the call integrates: limits outside of the substitution's range become infinite
// returns false if the limits fall together (integral 0)
static bool limits(Fn const& f, Job const& j, LD& Fa, LD& Fb, bool& inf)
{
    inf = false;
    auto conv = [&](double x, LD& v) {
        bool out = false;
        if (j.method == 3) out = (j.power > 0 && x <= 0) || (j.power < 0 && x >= 0);
        if (j.method == 5) out = (j.power > 0 && x <= 1) || (j.power < 0 && x >= 1);
        if (out) {
            inf = true;
            if (j.method == 3 && j.power > 0) v = f.inf;
            else if (j.method == 5 && j.power > 0) v = f.inf; // exp(infinity)
            else if (j.method == 5 && j.power < 0) v = f.F(0); // exp(-infinity)
            else v = NaN; // -infinity
        } else v = f.F(x);
        return out;
    };
    bool oa = conv(j.a, Fa), ob = conv(j.b, Fb);
    return !(oa && ob);
}

static void values()
{
    struct Cfg { int romb; int steps; double prec; };
    std::vector<Cfg> cfgs = { { 5, 40, 1e-6 }, { 5, 20, 1e-9 }, { 4, 3, 1e-6 }, { 3, 20, 1e-4 }, { 6, 12, 1e-8 } };
    std::vector<std::pair<double, double>> lims = { { 0.1, 0.2 }, { 1e-3, 1e-2 }, { 0.5, 3 }, { 1, 2 }, { 2, 2.0001 }, { 1.5, 6 }, { 0.3, 0.7 }, { -2, -0.5 }, { -1, 1 }, { -0.7, 2 }, { 0, 1 }, { 0, 3 }, { 1, 1 }, { 0, 0 }, { -1, -1 }, { 2.5, 2.5 }, { 10, 30 } };
    if (vk::thorough()) for (auto p : { std::make_pair(1e-6, 1e-5), std::make_pair(100., 1000.), std::make_pair(-5., -4.5), std::make_pair(0.999, 1.001), std::make_pair(-1e-3, 0.), std::make_pair(-3., 0.) }) lims.push_back(p);
    std::vector<std::pair<int, double>> meth = { { 1, 0 }, { 2, 0 }, { 3, 0 }, { 3, 1 }, { 3, 2 }, { 3, 0.5 }, { 3, -1 }, { 3, -2 }, { 4, 0 }, { 5, 0 }, { 5, 1 }, { 5, 2 }, { 5, -1 } };
    auto F = fns();
    for (size_t c = 0; c < cfgs.size(); ++c)
        for (auto& f : F)
            for (auto& m : meth) vk::cs(vk::f("value/%zu/%s/m%d/p%g", c, f.n, m.first, m.second), [&] {
                for (auto& l : lims)
                    for (int ex = 0; ex < 2; ++ex) {
                        Job j { 0, m.first, m.second, ex ? l.second : l.first, ex ? l.first : l.second, false, 0 };
                        double lo = std::min(j.a, j.b);
                        if (f.pos && (lo < 0 || (lo == 0))) continue;
                        auto id = jid(f, j);
                        auto k = vk::f("m%d", j.method);
                        Integral I(cfgs[c].romb, cfgs[c].steps, cfgs[c].prec);
                        double r;
                        r = run(I, f, j);
                        vk::state(vk::mix(vk::hd(vk::hd(m.first * 1000 + c, j.a), j.b), vk::hs(f.n)));
                        if (j.a == j.b) { VK_CHECK(r == 0, k + "/empty", "%s: empty interval gives %.17g", id.c_str(), r); continue; }
                        if ((j.method == 4 || j.method == 5) && lo <= 0) { continue; } // logarithmic grids need positive limits
                        LD Fa, Fb; bool inf;
                        if (!limits(f, j, Fa, Fb, inf)) { VK_CHECK(r == 0, k + "/degenerate", "%s: limits fall together but the integral is %.17g", id.c_str(), r); continue; }
                        // a substitution is meant for falling integrands
                        if (m.second != 0 && std::isnan((double)f.inf) && std::max(std::fabs(j.a), std::fabs(j.b)) > 2.1 * std::min(std::fabs(j.a), std::fabs(j.b))) continue;
                        if (std::fabs(j.b - j.a) > 10 && (f.n == std::string("nexp") || f.n == std::string("cos"))) continue; // many e-folds or periods
                        if (m.first == 5 && m.second < 0 && inf) continue;
                        if (std::isnan((double)(Fb - Fa)) || (inf && m.second != 1 && m.second != -1)) { continue; } // divergent, or a slowly falling integrand after the substitution
                        if (inf && (j.method == 5 || std::string(f.n) == "lor")) { if (std::string(f.n) != "inv2") continue; }
                        LD scale = fabsl(Fb - Fa) + (f.sign ? 0 : 1e-3L * (fabsl(Fa) + fabsl(Fb)));
                        // the error estimate of the extrapolation is sharp for integrands that vary slowly on the grid, coarse else
                        double ratio = lo * std::max(j.a, j.b) > 0 ? std::max(std::fabs(j.a), std::fabs(j.b)) / std::min(std::fabs(j.a), std::fabs(j.b)) : 1e9;
                        bool sharp = ratio < 2.2 || (!f.pos && m.second == 0 && j.method < 4 && std::fabs(j.b - j.a) <= 3);
                        if (!sharp && !inf && (f.pos || m.second != 0) && j.method < 4 && ratio > 6.5) continue;
                        double tol = (sharp && cfgs[c].prec > 1e-8 ? 50 * cfgs[c].prec : sharp ? 500 * cfgs[c].prec : std::max(1e-3, 50 * cfgs[c].prec)) * (double)scale + 1e-13 * (double)(fabsl(Fa) + fabsl(Fb)) + 1e-13;
                        if (inf) tol *= 10;
                        vk::trans();
                        vk::outcome(inf ? "improper" : "finite");
                        if (!(std::fabs(r - (double)(Fb - Fa)) <= tol)) vk::fail(k + "/value", "%s romb %d prec %g: got %.17g want %.17g", id.c_str(), cfgs[c].romb, cfgs[c].prec, r, (double)(Fb - Fa));
                        // exchanged limits: exactly the opposite
                        Job j2 = j; std::swap(j2.a, j2.b);
                        Integral I2(cfgs[c].romb, cfgs[c].steps, cfgs[c].prec);
                        double r2 = run(I2, f, j2);
                        VK_CLOSE(r2, -r, 1e-14, 0, k + "/sign", "%s exchanged", id.c_str());
                        // additivity
                        if (!inf) for (double t : { 0.25, 0.6 }) {
                            double mid = j.a + t * (j.b - j.a);
                            if (m.second != 0 && j.method != 3 && (j.a - 1) * (j.b - 1) < 0) continue;
                            Job ja = j, jb = j; ja.b = mid; jb.a = mid;
                            double s = run(I, f, ja);
                            s += run(I, f, jb);
                            VK_CLOSE(s, r, 0, 3 * tol, k + "/additive", "%s cut at %g", id.c_str(), mid);
                        }
                    }
            });
    // integrands for which the adaptive rule takes over
    auto H = hard();
    for (auto& f : H)
        for (int m : { 1, 2, 3, 4 })
            for (auto& l : std::vector<std::pair<double, double>> { { 0.5, 3 }, { 1, 2 }, { 0.7, 2.6 }, { 0, 3 }, { 0, 2 }, { 0, 2.6 } }) vk::cs(vk::f("hard/%s/m%d/%g-%g", f.n, m, l.first, l.second), [&] {
                std::string n = f.n;
                if ((n == "root" || n == "log0") != (l.first == 0)) throw vk::Skip();
                if ((l.first == 0 || n == "sing") && m != 1) throw vk::Skip(); // the extrapolation of the open rules is not valid for these
                if (n == "sing" && l.first == 0.5) throw vk::Skip();
                for (int ex = 0; ex < 2; ++ex) {
                    Job j { 0, m, 0, ex ? l.second : l.first, ex ? l.first : l.second, false, 0 };
                    Integral I(5, 40, 1e-6);
                    double r = run(I, f, j);
                    LD w = f.F(j.b) - f.F(j.a);
                    VK_CHECK(std::fabs(r - (double)w) <= (n == "kink" ? 1e-3 : n == "peak" ? 1e-4 : 1e-6) * std::fabs((double)w), vk::f("m%d/hard", m), "%s: got %.17g want %.17g", jid(f, j).c_str(), r, (double)w);
                }
            });
    vk::bound(vk::f("values: %zu functions x %zu methods/powers x %zu intervals x 2 orders x %zu settings", F.size(), meth.size(), lims.size(), cfgs.size()));
}

// share of the integral that is reached at x
static void check_upper(Integral& I, Fn const& f, Job const& j, double prec, std::string const& id, const char* when)
{
    LD Fa, Fb; bool inf;
    limits(f, j, Fa, Fb, inf);
    LD tot = Fb - Fa;
    LD share = j.ratio >= 0 ? std::min<LD>(j.ratio, 1) : std::min<LD>(-j.ratio / fabsl(tot), 1);
    auto k = vk::f("m%d/upper%s", j.method, when);
    double x = I.GetUpperLimit();
    vk::trans();
    double lo = std::min(j.a, j.b), hi = std::max(j.a, j.b);
    if (!inf && !(x >= lo * (lo > 0 ? 1 - 1e-9 : 1 + 1e-9) - 1e-12 && x <= hi * (hi > 0 ? 1 + 1e-9 : 1 - 1e-9) + 1e-12)) { vk::fail(k, "%s: upper limit %.17g is outside of the interval", id.c_str(), x); return; }
    LD got = (f.F(x) - Fa) / tot;
    // the search stops when the step in the integration variable is below the precision
    LD step = 2 * prec;
    LD jac = 1;
    if (j.power != 0) jac = fabsl(j.power) * powl(fabsl(x), 1 + 1 / fabsl(j.power));
    if (j.method == 4) jac = fabsl(x);
    LD tol = fabsl(f.f(x) * jac * step / tot) + 40 * prec;
    if (!(fabsl(got - share) <= tol)) vk::fail(k, "%s: share %.12Lg reached at %.12g, wanted %.12Lg (tol %.3Lg)", id.c_str(), got, x, share, tol);
}
static void upper()
{
    std::vector<std::pair<double, double>> lims = { { 0.1, 0.2 }, { 1e-3, 1e-2 }, { 0.5, 3 }, { 1, 2 }, { 1.5, 6 }, { 0.01, 10 }, { -2, -0.5 }, { -1, 2 }, { 0, 1 } };
    std::vector<double> ratios = { 0, 1e-6, 1e-3, 0.01, 0.1, 0.3, 0.5, 0.77, 0.9, 0.99, 0.999999, 1, 1.5 };
    if (vk::thorough()) for (int i = 1; i < 40; ++i) ratios.push_back(i / 40.);
    auto F = fns();
    for (auto& h : hard()) if (std::string(h.n) == "kink") F.push_back(h);
    for (auto& f : F) if (f.sign)
        for (auto& m : std::vector<std::pair<int, double>> { { 3, 0 }, { 3, 1 }, { 3, 2 }, { 3, 0.5 }, { 3, -1 }, { 4, 0 } })
            for (double prec : { 1e-6, 1e-4 }) vk::cs(vk::f("upper/%s/m%d/p%g/%g", f.n, m.first, m.second, prec), [&] {
                for (auto& l : lims)
                    for (int ex = 0; ex < 2; ++ex)
                        for (size_t ri = 0; ri < 2 * ratios.size(); ++ri) {
                            Job j { 0, m.first, m.second, ex ? l.second : l.first, ex ? l.first : l.second, true, ratios[ri % ratios.size()] };
                            double lo = std::min(j.a, j.b);
                            if (f.pos && lo <= 0) continue;
                            if (j.method == 4 && lo <= 0) continue;
                            if (!f.smooth && ri % 3) continue;
                            LD Fa, Fb; bool inf;
                            if (!limits(f, j, Fa, Fb, inf) || std::isnan((double)(Fb - Fa))) continue;
                            if (inf) continue;
                            double ratio = lo * std::max(j.a, j.b) > 0 ? std::max(std::fabs(j.a), std::fabs(j.b)) / std::min(std::fabs(j.a), std::fabs(j.b)) : 1e9;
                            if ((m.second != 0 || (f.pos && j.method == 3)) && ratio > (m.second == 0.5 ? 2.2 : 6.5)) continue;
                            if (ri >= ratios.size()) { // share given as a portion of the integral
                                j.ratio *= -fabsl(Fb - Fa);
                                if (j.ratio == 0) continue;
                            }
                            auto id = jid(f, j) + vk::f(" prec %g", prec);
                            Integral I(5, 40, prec);
                            double r = run(I, f, j);
                            VK_CHECK(std::fabs(r - (double)(Fb - Fa)) <= (f.smooth ? 20 * prec : 1e-4) * std::fabs((double)(Fb - Fa)), vk::f("m%d/value-ratio", j.method), "%s: got %.17g want %.17g", id.c_str(), r, (double)(Fb - Fa));
                            check_upper(I, f, j, f.smooth && (ratio < 20 || f.inf == 0) ? prec : 1e-4, id, "");
                            check_upper(I, f, j, f.smooth && (ratio < 20 || f.inf == 0) ? prec : 1e-4, id, "-again");
                            vk::state(vk::hd(vk::hd(vk::hs(id), r), I.GetUpperLimit()));
                        }
            });
    // empty and very short intervals
    for (auto& m : std::vector<std::pair<int, double>> { { 3, 0 }, { 3, 1 }, { 3, 2 }, { 3, -1 }, { 4, 0 } })
        for (double a : { 1e6, 1., 2.5, 1e-5, -3. })
            for (double w : { 0., 1e-12, 1.5e-10, 1e-9, 1e-6 })
                for (double r : { 0., 0.5, 1., -0.1 }) vk::cs(vk::f("short/m%d/p%g/%g/%g/%g", m.first, m.second, a, w, r), [&] {
                    if (m.first == 4 && a <= 0) throw vk::Skip();
                    if (m.second > 0 && a < 0) throw vk::Skip();
                    if (m.second < 0 && a > 0) throw vk::Skip();
                    for (int ex = 0; ex < 2; ++ex) {
                        double b = a + w * std::fabs(a);
                        Job j { 0, m.first, m.second, ex ? b : a, ex ? a : b, true, r };
                        Fn f = fns()[0];
                        Integral I;
                        run(I, f, Job { 0, 4, 0, 1, 7, true, 0.3 }); // something else before
                        double v = run(I, f, j);
                        VK_CHECK(std::fabs(v - (j.b - j.a)) <= 1.01e-9 * std::fabs(a) && (w > 0 || v == 0), "short/value", "%s: %.17g", jid(f, j).c_str(), v);
                        for (int t = 0; t < 2; ++t) {
                            double x = I.GetUpperLimit();
                            VK_CLOSE(x, a, 2 * w + 1e-9, 0, "short/upper", "%s", jid(f, j).c_str());
                        }
                    }
                });
}

// histories on two integrators
static void histories()
{
    auto F = fns();
    for (auto& h : hard()) F.push_back(h);
    auto idx = [&](const char* n) { for (size_t i = 0; i < F.size(); ++i) if (std::string(F[i].n) == n) return (int)i; abort(); };
    std::vector<Job> jobs = {
        { idx("expm"), 1, 0, 0.5, 3, false, 0 },
        { idx("quad"), 2, 0, 3, 0.5, false, 0 },
        { idx("inv2"), 3, 2, 1, 4, true, 0.3 },
        { idx("inv"), 4, 0, 8, 0.5, true, 0.6 },
        { idx("ninv15"), 4, 0, 0.2, 3, true, -0.7 },
        { idx("lor"), 3, 1, -2, -1, false, 0 }, // no valid limits for this substitution
        { idx("one"), 3, 0, 0, 1, true, 1 },
        { idx("peak"), 1, 0, 0.5, 3, false, 0 }, // adaptive rule
        { idx("inv2"), 5, 1, 2, 4, false, 0 },
        { idx("sing"), 1, 0, 1, 2, false, 0 }, // adaptive rule
        { idx("one"), 3, 0, 2, 2, true, 0.5 },  // empty
        { idx("expm"), 5, 1, 0.5, 0.2, false, 0 }, // no valid limits
    };
    struct Ref { double v, u; bool hasu; };
    std::vector<Ref> ref;
    for (auto& j : jobs) {
        Ref r { 0, 0, j.rnd };
        auto copy = F[j.fn];
        // fresh object with a previous trivial integration, so that it is never uninitialised
        Integral I;
        try { r.v = run(I, copy, j); } catch (...) { r.v = 0; }
        if (j.rnd) r.u = I.GetUpperLimit();
        ref.push_back(r);
    }
    const int NJ = jobs.size();
    // ops: [0,NJ) job on a, [NJ,2NJ) job on b, then: a=b, b=a, swap, a=copy of b (constructed), b replaced by a fresh one, upper a, upper b, a=a
    const int NOPS = 2 * NJ + 8;
    const int depth = vk::thorough() ? 4 : 3;
    vk::bound(vk::f("histories: all sequences of %d of %d operations on two integrators", depth, NOPS));
    for (int o1 = 0; o1 < NOPS; ++o1)
        for (int o2 = 0; o2 < NOPS; ++o2) vk::cs(vk::f("hist/%d/%d", o1, o2), [&] {
            uint64_t n = 1;
            for (int d = 2; d < depth; ++d) n *= NOPS;
            for (uint64_t s = 0; s < n; ++s) {
                std::vector<int> seq = { o1, o2 };
                uint64_t t = s;
                for (int d = 2; d < depth; ++d) { seq.push_back(t % NOPS); t /= NOPS; }
                std::unique_ptr<Integral> ob[2] = { std::make_unique<Integral>(), std::make_unique<Integral>() };
                int st[2] = { -1, -1 }; // last job
                std::string h;
                auto upper = [&](int o) {
                    double u = ob[o]->GetUpperLimit();
                    double want = st[o] >= 0 && ref[st[o]].hasu ? ref[st[o]].u : 0;
                    VK_CLOSE(u, want, 5e-6, 1e-9, "history/upper", "upper limit of object %d after %s", o, h.c_str());
                };
                for (int op : seq) {
                    h += " " + std::to_string(op);
                    if (op < 2 * NJ) {
                        int o = op / NJ, k = op % NJ;
                        Fn tmp = F[jobs[k].fn]; // the caller's function does not outlive the call
                        auto mul = std::make_shared<double>(1);
                        auto g = tmp.f;
                        tmp.f = [g, mul](double x) { return *mul * g(x); };
                        double v = run(*ob[o], tmp, jobs[k]);
                        st[o] = k;
                        VK_CLOSE(v, ref[k].v, 1e-12, 0, "history/value", "job %d on object %d after%s", k, o, h.c_str());
                    } else switch (op - 2 * NJ) {
                        case 0: *ob[0] = *ob[1]; st[0] = st[1]; VK_CHECK(*ob[0] == *ob[1] && !(*ob[0] != *ob[1]), "history/equal", "%s", h.c_str()); break;
                        case 1: *ob[1] = *ob[0]; st[1] = st[0]; VK_CHECK(*ob[0] == *ob[1], "history/equal", "%s", h.c_str()); break;
                        case 2: ob[0]->swap(*ob[1]); std::swap(st[0], st[1]); break;
                        case 3: ob[0].reset(new Integral(*ob[1])); st[0] = st[1]; VK_CHECK(*ob[0] == *ob[1], "history/equal", "%s", h.c_str()); break;
                        case 4: ob[1].reset(new Integral()); st[1] = -1; break;
                        case 5: upper(0); break;
                        case 6: upper(1); break;
                        case 7: { auto& x = *ob[0]; x = *ob[0]; break; }
                        }
                    vk::state(vk::mix(vk::mix(5, st[0] + 1), st[1] + 1));
                }
                upper(0); upper(1); upper(0);
            }
        });
    // settings travel with copies
    for (int romb : { 1, 2, 3, 5, 8 })
        for (int ms : { 1, 2, 5, 12, 30 })
            for (double pr : { 1e-3, 1e-6, 1e-10 }) vk::cs(vk::f("settings/%d/%d/%g", romb, ms, pr), [&] {
                Integral a(romb, ms, pr);
                auto chk = [&](Integral const& x, const char* w) {
                    VK_CHECK(x.GetRomberg() == romb && x.GetMaxStepsUpperLimit() == ms && x.GetPrecision() == pr && x == a, "settings", "%s romberg %d steps %d precision %g", w, x.GetRomberg(), x.GetMaxStepsUpperLimit(), x.GetPrecision());
                };
                Integral b(a), c; c = a;
                chk(b, "copy"); chk(c, "assigned");
                Integral d(romb == 3 ? 4 : 3, ms + 1, pr * 2), e(a);
                VK_CHECK(d != a, "settings", "different settings compare equal");
                d.swap(e); chk(d, "swapped");
                // the setters take effect
                Integral s;
                s.SetRomberg(romb); s.SetMaxStepsUpperLimit(ms); s.SetPrecision(pr); s.SetMaxStepsRomberg(14);
                VK_CHECK(s.GetRomberg() == romb && s.GetMaxStepsUpperLimit() == ms && s.GetPrecision() == pr && s.GetMaxStepsRomberg() == 14, "setters", "settings");
                for (Integral* x : { &b, &c, &d, &s }) {
                    auto& f = F[2];
                    if (romb == 1) continue; // no extrapolation, no error estimate
                    double v = x->Integrate(0.5, 3, f.f, 1);
                    double w = f.F(3) - f.F(0.5);
                    VK_CHECK(std::fabs(v - w) <= (romb == 2 ? 400 : 20) * std::max(pr, 1e-6) * w, "settings/value", "got %.17g want %.17g", v, w);
                    double v2 = x->IntegrateWithRandomRatio(0.5, 3, f.f, 4, 0.4);
                    VK_CHECK(std::fabs(v2 - w) <= (romb == 2 ? 400 : 20) * std::max(pr, 1e-6) * w, "settings/value", "got %.17g want %.17g", v2, w);
                    if (ms >= 5) {
                        double u = x->GetUpperLimit();
                        double sh = (f.F(u) - f.F(0.5)) / w;
                        VK_CHECK(std::fabs(sh - 0.4) <= (romb == 2 ? 400 : 20) * std::max(pr, 1e-6), "settings/upper", "share %.17g", sh);
                    }
                }
            });
}

void vk_main()
{
    values();
    upper();
    histories();
}
