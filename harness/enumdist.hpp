// Discrete distributions and exact moments of quadratic polynomials by
// enumeration of the product distribution.
#pragma once
#include "prog.hpp"
namespace en {
typedef long double LD;
struct Dist { std::vector<LD> z, w; };   // standardized points, weights

inline Dist standardize(std::vector<LD> x, std::vector<LD> w) {
    LD W = 0, m = 0, v = 0;
    for (auto q : w) W += q;
    for (auto &q : w) q /= W;
    for (size_t i = 0; i < x.size(); ++i) m += w[i] * x[i];
    for (auto &q : x) q -= m;
    for (size_t i = 0; i < x.size(); ++i) v += w[i] * x[i] * x[i];
    const LD s = std::sqrt(v);
    for (auto &q : x) q /= s;
    // once more, to remove rounding
    m = v = 0;
    for (size_t i = 0; i < x.size(); ++i) m += w[i] * x[i];
    for (auto &q : x) q -= m;
    for (size_t i = 0; i < x.size(); ++i) v += w[i] * x[i] * x[i];
    for (auto &q : x) q /= std::sqrt(v);
    return Dist { x, w };
}
// a random distribution with npt points, or one of the special ones
inline Dist random_dist(h::Rng &r, int maxpt) {
    const int k = r.below(12);
    if (k == 0) return standardize({ -1, 1 }, { 1, 1 });
    if (k == 1) { const LD p = r.uni(0.05L, 0.95L); return standardize({ 0, 1 }, { 1 - p, p }); }
    if (k == 2 && maxpt >= 5) { // same moments up to the ninth as a normal
        const LD a = std::sqrt(5 - std::sqrt(10.0L)), b = std::sqrt(5 + std::sqrt(10.0L));
        const LD wa = (7 + 2 * std::sqrt(10.0L)) / 60, wb = (7 - 2 * std::sqrt(10.0L)) / 60;
        return standardize({ 0, a, -a, b, -b }, { 8.0L / 15, wa, wa, wb, wb });
    }
    if (k == 3) return standardize({ -std::sqrt(3.0L), 0, std::sqrt(3.0L) }, { 1, 4, 1 });
    const int n = r.range(2, maxpt);
    for (;;) {
        std::vector<LD> x, w;
        for (int i = 0; i < n; ++i) { x.push_back(r.normal()); w.push_back(r.uni(0.1, 1)); }
        LD mn = x[0], mx = x[0];
        for (auto q : x) { mn = std::min(mn, q); mx = std::max(mx, q); }
        if (mx - mn > 0.5) return standardize(x, w);
    }
}
inline LD moment(const Dist &d, int k) {
    LD s = 0;
    for (size_t i = 0; i < d.z.size(); ++i) s += d.w[i] * std::pow(d.z[i], LD(k));
    return s;
}
inline prog::MomSet momset(const Dist &d) {
    prog::MomSet m;
    for (int k = 3; k <= 8; ++k) m.m[size_t(k - 3)] = double(moment(d, k));
    return m;
}

// P(z) = g.z + z'Hz/2
struct Poly {
    std::vector<LD> g, H;
    LD at(const std::vector<LD> &z, const std::vector<int> &act) const {
        LD s = 0;
        const size_t N = g.size();
        for (int i : act) {
            LD q = 0;
            const LD *h_ = &H[size_t(i) * N];
            for (int j : act) q += h_[j] * z[size_t(j)];
            s += z[size_t(i)] * (g[size_t(i)] + q / 2);
        }
        return s;
    }
};
template<class T> Poly poly(const sh::Sh<T> &s) {
    Poly p;
    for (auto &x : s.g) p.g.push_back(LD(x));
    for (auto &x : s.H) p.H.push_back(LD(x));
    return p;
}
template<class T> Poly polyabs(const sh::Sh<T> &s) {
    Poly p;
    for (auto &x : s.ga) p.g.push_back(LD(x));
    for (auto &x : s.Ha) p.H.push_back(LD(x));
    return p;
}

struct Moments {
    size_t R;
    std::vector<LD> m1, m2, m3, m4;   // of each polynomial: mean, central
    std::vector<LD> r2, r3, r4;       // raw
    std::vector<LD> c2;               // R x R covariances
    std::vector<LD> rc2;              // R x R raw products
};

// dist[i]: distribution of variable i; abs: use |z|
inline Moments enumerate(const std::vector<Poly> &P, const std::vector<const Dist *> &dist, bool abs_) {
    const size_t R = P.size(), N = dist.size();
    std::vector<int> act;
    size_t combos = 1;
    for (size_t i = 0; i < N; ++i) if (dist[i]) { act.push_back(int(i)); combos *= dist[i]->z.size(); }
    std::vector<LD> val(R * combos), W(combos);
    std::vector<LD> z(N, 0);
    for (size_t k = 0; k < combos; ++k) {
        size_t q = k;
        LD w = 1;
        for (int i : act) {
            const Dist &d = *dist[size_t(i)];
            const size_t j = q % d.z.size();
            q /= d.z.size();
            z[size_t(i)] = abs_ ? std::fabs(d.z[j]) : d.z[j];
            w *= d.w[j];
        }
        W[k] = w;
        for (size_t r = 0; r < R; ++r) val[r * combos + k] = P[r].at(z, act);
    }
    Moments m;
    m.R = R;
    m.m1.assign(R, 0); m.m2 = m.m3 = m.m4 = m.r2 = m.r3 = m.r4 = m.m1;
    m.c2.assign(R * R, 0); m.rc2 = m.c2;
    for (size_t r = 0; r < R; ++r) {
        const LD *v = &val[r * combos];
        LD s = 0;
        for (size_t k = 0; k < combos; ++k) s += W[k] * v[k];
        m.m1[r] = s;
        for (size_t k = 0; k < combos; ++k) {
            const LD x = v[k] - s, y = v[k];
            m.m2[r] += W[k] * x * x; m.m3[r] += W[k] * x * x * x; m.m4[r] += W[k] * x * x * x * x;
            m.r2[r] += W[k] * y * y; m.r3[r] += W[k] * y * y * y; m.r4[r] += W[k] * y * y * y * y;
        }
    }
    for (size_t a = 0; a < R; ++a) for (size_t b = 0; b < R; ++b) {
        const LD *u = &val[a * combos], *v = &val[b * combos];
        LD s = 0, t = 0;
        for (size_t k = 0; k < combos; ++k) { s += W[k] * (u[k] - m.m1[a]) * (v[k] - m.m1[b]); t += W[k] * u[k] * v[k]; }
        m.c2[a * R + b] = s; m.rc2[a * R + b] = t;
    }
    return m;
}
} // namespace en
