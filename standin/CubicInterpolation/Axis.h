// Stand-in for the CubicInterpolation package (not installed here): only the
// API that PROPOSAL uses, implemented plainly.  Not PROPOSAL code.
#pragma once
#include <cmath>
#include <cstddef>
#include <memory>
namespace cubic_splines {
template <typename T> class Axis {
protected:
    T low, high, stepsize;
public:
    Axis(T l, T h, T s) : low(l), high(h), stepsize(s) {}
    virtual ~Axis() = default;
    virtual T transform(T) const = 0;
    virtual T back_transform(T) const = 0;
    T GetLow() const { return low; }
    T GetHigh() const { return high; }
    T GetStepsize() const { return stepsize; }
    std::size_t required_nodes() const
    {
        return static_cast<std::size_t>(std::round(transform(high))) + 1;
    }
};
template <typename T> class ExpAxis : public Axis<T> {
public:
    ExpAxis(T l, T h, T s = 1) : Axis<T>(l, h, s) {}
    ExpAxis(T l, T h, std::size_t n)
        : Axis<T>(l, h, std::log(h / l) / (n - 1)) {}
    T transform(T x) const override { return std::log(x / this->low) / this->stepsize; }
    T back_transform(T t) const override { return this->low * std::exp(t * this->stepsize); }
};
template <typename T> class ExpM1Axis : public Axis<T> {
public:
    ExpM1Axis(T l, T h, T s = 1) : Axis<T>(l, h, s) {}
    T transform(T x) const override { return std::log1p(x / this->low) / this->stepsize; }
    T back_transform(T t) const override { return this->low * std::expm1(t * this->stepsize); }
};
template <typename T> class LinAxis : public Axis<T> {
public:
    LinAxis(T l, T h, T s = 1) : Axis<T>(l, h, s) {}
    LinAxis(T l, T h, std::size_t n) : Axis<T>(l, h, (h - l) / (n - 1)) {}
    T transform(T x) const override { return (x - this->low) / this->stepsize; }
    T back_transform(T t) const override { return this->low + t * this->stepsize; }
};
}
