// Reference polynomials and splines in long double.
#pragma once
#include "vk.h"
#include <cmath>
#include <vector>
namespace pr {
typedef long double LD;
typedef std::vector<LD> LP;

inline LD ev(LP const& c, LD x) { LD r = 0; for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }
inline LD sc(LP const& c, LD x) { LD r = 0; for (size_t i = c.size(); i-- > 0;) r = r * fabsl(x) + fabsl(c[i]); return r; }
inline LP der(LP const& c) { LP r; for (size_t i = 1; i < c.size(); ++i) r.push_back(c[i] * i); if (r.empty()) r.push_back(0); return r; }
inline LP anti(LP const& c, LD k) { LP r { k }; for (size_t i = 0; i < c.size(); ++i) r.push_back(c[i] / (i + 1)); return r; }
inline LP shf(LP c, LD x)
{
    LP r(c.size(), 0); // binomial theorem
    for (size_t n = 0; n < c.size(); ++n) {
        LD b = 1;
        for (size_t k = n + 1; k-- > 0;) { // term x^(n-k) y^k * C(n,k)
            r[k] += c[n] * b * powl(x, n - k);
            b = b * k / (n - k + 1);
        }
    }
    return r;
}
struct SM { std::vector<double> x; std::vector<LP> p; }; // p[i] in powers of (t - x[i])
inline LP at(LP const& local, LD x0) { return shf(local, -x0); }
inline SM linear(std::vector<double> const& x, std::vector<double> const& y)
{
    SM m; m.x = x;
    for (size_t i = 0; i + 1 < x.size(); ++i) m.p.push_back({ LD(y[i]), (LD(y[i + 1]) - y[i]) / (LD(x[i + 1]) - x[i]) });
    return m;
}
inline SM cubic(std::vector<double> const& x, std::vector<double> const& y)
{
    // natural cubic spline: second derivatives from the dense linear system
    size_t n = x.size();
    std::vector<LP> a(n, LP(n + 1, 0));
    a[0][0] = a[n - 1][n - 1] = 1;
    for (size_t i = 1; i + 1 < n; ++i) {
        LD h0 = LD(x[i]) - x[i - 1], h1 = LD(x[i + 1]) - x[i];
        a[i][i - 1] = h0; a[i][i] = 2 * (h0 + h1); a[i][i + 1] = h1;
        a[i][n] = 6 * ((LD(y[i + 1]) - y[i]) / h1 - (LD(y[i]) - y[i - 1]) / h0);
    }
    for (size_t c = 0; c < n; ++c) {
        size_t best = c;
        for (size_t r = c; r < n; ++r) if (fabsl(a[r][c]) > fabsl(a[best][c])) best = r;
        std::swap(a[c], a[best]);
        for (size_t r = 0; r < n; ++r) if (r != c) { LD q = a[r][c] / a[c][c]; for (size_t k = c; k <= n; ++k) a[r][k] -= q * a[c][k]; }
    }
    SM m; m.x = x;
    for (size_t i = 0; i + 1 < n; ++i) {
        LD h = LD(x[i + 1]) - x[i], M0 = a[i][n] / a[i][i], M1 = a[i + 1][n] / a[i + 1][i + 1];
        m.p.push_back({ LD(y[i]), (LD(y[i + 1]) - y[i]) / h - h * (2 * M0 + M1) / 6, M0 / 2, (M1 - M0) / (6 * h) });
    }
    return m;
}
inline SM sder(SM m) { for (auto& q : m.p) q = der(q); return m; }
inline SM santi(SM m, LD c)
{
    for (size_t i = 0; i < m.p.size(); ++i) { m.p[i] = anti(m.p[i], c); c = ev(m.p[i], LD(m.x[i + 1]) - m.x[i]); }
    return m;
}
inline LD sval(SM const& m, LD t)
{
    size_t i = 0;
    while (i + 1 < m.p.size() && t > m.x[i + 1]) ++i;
    return ev(m.p[i], t - m.x[i]);
}
} // namespace pr
