#pragma once
#include "CubicInterpolation/BicubicSplines.h"
#include "CubicInterpolation/CubicSplines.h"
#include "CubicInterpolation/Interpolant.h"
#include <array>
#include <cmath>
#include <limits>
#include <stdexcept>
namespace cubic_splines {
template <typename X> struct ParameterGuess;
template <> struct ParameterGuess<double> {
    double x = NAN;
    double lower = NAN, upper = NAN;
};
template <> struct ParameterGuess<std::array<double, 2>> {
    std::array<double, 2> x { { NAN, NAN } };
    unsigned n = 0;
};
namespace detail {
    template <typename F> double bisect(F&& f, double a, double b)
    {
        double fa = f(a), fb = f(b);
        if (fa == 0) return a;
        if (fb == 0) return b;
        if (!(fa * fb < 0)) throw std::runtime_error("find_parameter: no root bracketed");
        for (int i = 0; i < 200; ++i) {
            double m = 0.5 * (a + b);
            if (m == a || m == b) break;
            double fm = f(m);
            if (fm == 0) return m;
            if (fa * fm < 0) { b = m; fb = fm; } else { a = m; fa = fm; }
        }
        return 0.5 * (a + b);
    }
}
template <typename S>
double find_parameter(Interpolant<S> const& in, double val, ParameterGuess<double> const& g)
{
    return detail::bisect([&](double x) { return in.evaluate(x) - val; }, g.lower, g.upper);
}
template <typename S>
double find_parameter(Interpolant<S> const& in, double val, ParameterGuess<std::array<double, 2>> const& g)
{
    auto const& ax = *in.GetDefinition().GetAxis().at(g.n);
    auto x = g.x;
    return detail::bisect([&](double t) { x[g.n] = t; return in.evaluate(x) - val; }, ax.GetLow(), ax.GetHigh());
}
}
