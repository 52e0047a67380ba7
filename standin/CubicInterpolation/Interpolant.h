#pragma once
#include <string>
#include <utility>
namespace cubic_splines {
template <typename S> class Interpolant {
    typename S::Definition def;
    S spline;
public:
    Interpolant(typename S::Definition&& d, std::string = "", std::string = "")
        : def(std::move(d)), spline(def) {}
    Interpolant(Interpolant&&) = default;
    Interpolant& operator=(Interpolant&&) = default;
    template <typename X> auto evaluate(X const& x) const
    {
        return spline.evaluate(def, x);
    }
    typename S::Definition const& GetDefinition() const { return def; }
};
}
