#pragma once
#include "CubicInterpolation/Axis.h"
#include <algorithm>
#include <functional>
#include <vector>
namespace cubic_splines {
// Natural cubic spline on the nodes of the axis (in axis index space), values
// transformed by f_trafo.  The function is only called while constructing.
template <typename T> class CubicSplines {
public:
    struct Definition {
        std::function<T(T)> f;
        std::unique_ptr<Axis<T>> f_trafo;
        std::unique_ptr<Axis<T>> axis;
        bool approx_derivates = false;
        Axis<T> const& GetAxis() const { return *axis; }
    };
private:
    std::vector<T> y, m; // values, second derivatives
public:
    CubicSplines() = default;
    explicit CubicSplines(Definition const& def)
    {
        auto n = def.axis->required_nodes();
        y.resize(n);
        for (std::size_t i = 0; i < n; ++i) {
            auto x = def.axis->back_transform(static_cast<T>(i));
            if (i + 1 == n) x = def.axis->GetHigh();
            y[i] = def.f(x);
            if (def.f_trafo) y[i] = def.f_trafo->transform(y[i]);
        }
        m.assign(n, 0);
        if (n > 2) {
            std::vector<T> c(n, 0), d(n, 0);
            for (std::size_t i = 1; i + 1 < n; ++i) {
                T r = 6 * (y[i + 1] - 2 * y[i] + y[i - 1]);
                T w = 4 - c[i - 1];
                c[i] = 1 / w;
                d[i] = (r - d[i - 1]) / w;
            }
            for (std::size_t i = n - 2; i >= 1; --i)
                m[i] = d[i] - c[i] * m[i + 1];
        }
    }
    T evaluate(Definition const& def, T x) const
    {
        T t = def.axis->transform(x);
        auto n = y.size();
        long i = static_cast<long>(std::floor(t));
        i = std::max(0L, std::min(i, static_cast<long>(n) - 2));
        T b = t - i, a = 1 - b;
        T v = a * y[i] + b * y[i + 1]
            + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) / 6;
        if (def.f_trafo) v = def.f_trafo->back_transform(v);
        return v;
    }
};
}
