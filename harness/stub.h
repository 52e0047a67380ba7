// Analytic cross sections behind the public CrossSectionBase interface: every integral over them has an independent value.
#pragma once
#include "vk.h"
#include "xs.h"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/EnergyCutSettings.h"
namespace stub {
using namespace PROPOSAL; using fn = std::function<double(double)>;
struct Target { size_t hash; fn rate; };
struct X : CrossSectionBase {
    InteractionType type; fn dedx, de2dx; std::vector<Target> targets; double low; std::shared_ptr<const EnergyCutSettings> cut; size_t h; std::string nm;
    mutable std::vector<std::tuple<size_t, double, double>> asked; // CalculateStochasticLoss arguments
    X(InteractionType t, fn a, fn b, std::vector<Target> tg, double l, std::shared_ptr<const EnergyCutSettings> c = nullptr) : type(t), dedx(a), de2dx(b), targets(tg), low(l), cut(c), h((size_t)t * 7919 + tg.size()), nm("stub") {}
    double CalculatedEdx(double E) override { return dedx ? dedx(E) : 0; }
    double CalculatedE2dx(double E) override { return de2dx ? de2dx(E) : 0; }
    double CalculatedNdx(double E) override { double s = 0; for (auto& t : targets) s += t.rate(E); return s; }
    double CalculatedNdx(double E, size_t hh) override { for (auto& t : targets) if (t.hash == hh) return t.rate(E); throw std::logic_error("unknown target"); }
    double CalculateCumulativeCrosssection(double E, size_t hh, double v) override { return v * CalculatedNdx(E, hh); }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double E) override { std::vector<std::pair<size_t, double>> v; for (auto& t : targets) v.push_back({ t.hash, t.rate(E) }); return v; }
    double CalculateStochasticLoss(size_t hh, double E, double r) override { asked.push_back(std::make_tuple(hh, E, r)); return r / CalculatedNdx(E, hh); }
    double GetLowerEnergyLim() const override { return low; }
    size_t GetHash() const noexcept override { return h; }
    InteractionType GetInteractionType() const noexcept override { return type; }
    std::string GetParametrizationName() const noexcept override { return nm; }
    std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return cut; }
};
using list = std::vector<std::shared_ptr<CrossSectionBase>>;
inline double logint(fn f, double lo, double hi, double rel = 1e-9) { if (!(hi > lo)) return 0; auto q = xs::quad([&](double t) { double e = std::min(std::max(std::exp(t), lo), hi); return e * f(e); }, std::log(lo), std::log(hi), rel, 400); return q.val; }
// for integrands with an inverse square-root singularity at E=m: substitute E=m*cosh(u)
inline double coshint(fn f, double m, double lo, double hi, double rel = 1e-9) { if (!(hi > lo)) return 0; double a = std::acosh(std::max(1., lo / m)), b = std::acosh(hi / m); auto q = xs::quad([&](double u) { return m * std::sinh(u) * f(m * std::cosh(u)); }, a, b, rel, 400); return q.val; }
}
