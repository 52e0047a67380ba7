// Asymmetry of directly produced pairs, written from the publications (not from the library).
#pragma once
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <algorithm>
#include <cmath>
#include <functional>
namespace pairs {
using namespace PROPOSAL;
// asymmetry of pairs, from the publications: Kelner, Kokoulin, Petrukhin (1971, 1997) and (2000)
inline double kkp(ParticleDef const& p, double Z, double B, double E, double v, double rho)
{
    double M = p.mass, r2 = rho * rho, xi = std::pow(M * v / 2 / ME, 2) * (1 - r2) / (1 - v), b = v * v / 2 / (1 - v), z3 = std::cbrt(Z), q = 2 * ME * std::sqrt(std::exp(1.)) * B / z3 / (E * v * (1 - r2));
    double ye = (5 - r2 + 4 * b * (1 + r2)) / (2 * (1 + 3 * b) * std::log(3 + 1 / xi) - r2 - 2 * b * (2 - r2)), ym = (4 + r2 + 3 * b * (1 + r2)) / ((1 + r2) * (1.5 + 2 * b) * std::log(3 + xi) + 1 - 1.5 * r2), ze = (1 + xi) * (1 + ye), zm = (1 + xi) * (1 + ym);
    double le = std::log(B / z3 * std::sqrt(ze) / (1 + q * ze)) - 0.5 * std::log1p(std::pow(1.5 * ME / M * z3, 2) * ze), lm = std::log(2. / 3 * M / ME * B / z3 / z3 / (1 + q * zm));
    double pe = ((2 + r2) * (1 + b) + xi * (3 + r2)) * std::log1p(1 / xi) + (1 - r2 - b) / (1 + xi) - (3 + r2); if (xi > 1e5) pe = (1.5 - r2 / 2 + b * (1 + r2)) / xi;
    double pm = ((1 + r2) * (1 + 1.5 * b) - (1 + 2 * b) * (1 - r2) / xi) * std::log1p(xi) + xi * (1 - r2 - b) / (1 + xi) + (1 + 2 * b) * (1 - r2);
    return std::max(0., le) * pe + std::pow(ME / M, 2) * std::max(0., lm) * pm;
}
inline double direct(double m, double M, double v, double rho) // pairs of particles of mass m
{
    double xi = std::pow(M * v / 2 / m, 2) / (1 - v) * (1 - rho * rho), b = v * v / 2 / (1 - v), r2 = rho * rho;
    return ((2 + r2) * (1 + b) + xi * (3 + r2)) * std::log1p(1 / xi) + ((1 + r2) * (1 + 1.5 * b) - (1 + 2 * b) * (1 - r2) / xi) * std::log1p(xi) - 1 - 3 * r2 + b * (1 - 2 * r2);
}
inline double pairlog(double m, double E, double v, double rho, double xi, double xim, double BZ, double top) // log(1 + U(rho) - U(rho_max))
{
    double rm = 1 - 2 * m / (v * E), Y = 12 * std::sqrt(m / E), k = 2 * std::sqrt(std::exp(1.)) * m * m * BZ * (1 + Y) / (ME * E * v); auto U = [&](double x, double r2) { return top / (1 + k * (1 + x) / (1 - r2)); };
    double X = 1 + U(xi, rho * rho) - U(xim, rm * rm); return X > 1 ? std::log(X) : 0;
}
struct Asym { double max, norm; std::function<double(double)> f; }; // largest asymmetry, factor of the cross section per gram, distribution
inline Asym epair_kkp(ParticleDef const& p, Component const& c, double E, double v)
{
    double Z = c.GetNucCharge(), B = c.GetLogConstant(), M = p.mass, g = E / M, z3 = std::cbrt(Z), g1 = Z == 1 ? 4.4e-5 : 1.95e-5, g2 = Z == 1 ? 4.8e-5 : 5.3e-5, up = 0.073 * std::log(g / (1 + g1 * z3 * z3 * g)) - 0.26, dn = 0.058 * std::log(g / (1 + g2 * z3 * g)) - 0.14, zeta = up > 0 && dn > 0 ? up / dn : 0;
    return { std::sqrt(std::max(0., 1 - 4 * ME / (E * v))) * (1 - 6 * M * M / (E * E * (1 - v))), NA / c.GetAtomicNum() * 4 / (3 * PI) * Z * (Z + zeta) * std::pow(ALPHA * RE * p.charge, 2) * (1 - v) / v, [=](double t) { return kkp(p, Z, B, E, v, t); } };
}
inline Asym epair_electron(ParticleDef const& p, Component const& c, double E, double v)
{
    double B = c.GetLogConstant() / std::cbrt(c.GetNucCharge()), q = 1 - 2 * ME / (v * E);
    return { std::sqrt(std::max(0., 1 - 4 * ME / (E * v))) * (1 - 6 * p.mass * p.mass / (E * E * (1 - v))), NA / c.GetAtomicNum() * 4 / (3 * PI) * std::pow(ALPHA * RE * p.charge * c.GetNucCharge(), 2) * (1 - v) / v, [=](double t) { double xi = v * v / 4 * (1 - t * t) / (1 - v), xim = v * v * (1 - q * q) / 4 / (1 - v); return direct(ME, ME, v, t) * pairlog(ME, E, v, t, xi, xim, B, B); } };
}
inline Asym mupair_kkp(ParticleDef const& p, Component const& c, double E, double v)
{
    double B = 183 / std::cbrt(c.GetNucCharge()), q = 1 - 2 * MMU / (v * E), M = p.mass, A = c.GetAtomicNum();
    return { q, NA / A * 4 / (3 * PI) * std::pow(ALPHA * RE * ME / MMU * p.charge * c.GetNucCharge(), 2) * (1 - v) / v, [=](double t) { double xi = std::pow(M * v / 2 / MMU, 2) * (1 - t * t) / (1 - v), xim = v * v * (1 - q * q) / 4 / (1 - v); return direct(MMU, M, v, t) * pairlog(MMU, E, v, t, xi, xim, B, 0.65 * std::pow(A, -0.27) * B * MMU / ME); } };
}
} // namespace pairs
