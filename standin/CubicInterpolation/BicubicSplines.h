#pragma once
#include "CubicInterpolation/Axis.h"
#include <array>
#include <functional>
namespace cubic_splines {
// Two-dimensional tables are not built: the stand-in evaluates the function.
template <typename T> class BicubicSplines {
public:
    struct Definition {
        std::function<T(T, T)> f;
        std::unique_ptr<Axis<T>> f_trafo;
        std::array<std::unique_ptr<Axis<T>>, 2> axis;
        bool approx_derivates = false;
        std::array<std::unique_ptr<Axis<T>>, 2> const& GetAxis() const { return axis; }
    };
    BicubicSplines() = default;
    explicit BicubicSplines(Definition const&) {}
    T evaluate(Definition const& def, std::array<T, 2> const& x) const
    {
        return def.f(x[0], x[1]);
    }
};
}
