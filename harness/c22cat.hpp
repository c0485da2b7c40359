// the catalogue of calls, for one type; the including file has included the
// headers of the library in some order
#pragma once
#include <sstream>
#include <array>
#include <iterator>
#include <list>
#include "c22.hpp"
namespace c22 {
template<class U> struct Is2 { static const bool v = false; };
template<class U> double eps() { return double(std::numeric_limits<typename U::real_type>::epsilon()); }
#define LN(e, sc) N(ctx + #e, double(e), sc)
#define LT(e) T(ctx + #e, (e) ? "true" : "false")

template<class U> void see1(const std::string &w, const U &x, const std::vector<U> &base) {
    typedef typename U::real_type R;
    const R s = x.s();
    N(w + ".n", double(x.n()), 1); N(w + ".s", double(s), 1);
    N(w + ".nom", double(nom(x)), 1); N(w + ".sdev", double(sdev(x)), 1);
    N(w + ".var", double(var(x)), 1);
    T(w + ".isindep", x.isindep() ? "true" : "false");
    T(w + ".indepid", x.indepid() == 0 ? "constant" : x.indepid() == uncertainties::invalid_id ? "dependent" : "independent");
    for (size_t i = 0; i < base.size(); ++i) {
        N(w + ".cov", double(cov(x, base[i])), 1);
        if (s > R(1e-3)) N(w + ".corr", double(corr(x, base[i])), 1);
        if (x.indepid() == 0) continue;
        N(w + ".grad", double(x.grad(base[i])), 1);
        T(w + ".same", x.indepid() == base[i].indepid() ? "true" : "false");
    }
}
template<class U> void see2(const std::string &w, const U &x, const std::vector<U> &base) {
    typedef typename U::real_type R;
    for (int k = 1; k <= 4; ++k) N(w + ".m", double(x.m(k)), 1);
    N(w + ".first", double(x.first_order_n()), 1);
    if (x.s() > R(1e-2)) { N(w + ".skew", double(x.skew()), 1); N(w + ".kurt", double(x.kurt()), 1); }
    if (x.indepid() != 0) for (auto &a : base) for (auto &b : base) N(w + ".hess", double(x.hess(a, b)), 1);
}
// everything that exists for first and second order
template<class U> struct Cat {
    typedef typename U::real_type R;
    std::vector<U> base;
    std::function<void(const std::string &, const U &)> seen;
    void see(const std::string &w, const U &x) {
        see1(ctx + w, x, base);
        if (seen) seen(ctx + w, x);
        T(ctx + w + ".text", uncertainties::format(x));
        T(ctx + w + ".text2", x.format(2.0f, "+-"));
    }
#define SEE(e) see(#e, e);
    void run() {
        using namespace uncertainties;
        const U x = base[0], y = base[1], z = base[2], one(R(1)), none;
        const R r(1.5);
        SEE(x) SEE(y) SEE(z) SEE(one) SEE(none) SEE(U(R(-2.25)))
        SEE(+x) SEE(-x) SEE(x + y) SEE(x - y) SEE(x * y) SEE(x / y) SEE(x - x) SEE(x * x) SEE(x / x)
        SEE(x + r) SEE(r + x) SEE(x - r) SEE(r - x) SEE(x * r) SEE(r * x) SEE(x / r) SEE(r / x) SEE(x + one) SEE(one * z)
        SEE((x + y) * (z - x) / (y * z))
        SEE(abs(x)) SEE(abs(z)) SEE(fmod(x, y)) SEE(remainder(x, y)) SEE(fmax(x, y)) SEE(fmin(x, y)) SEE(fmax(z, x)) SEE(fmin(z, x))
        SEE(fmod(x, U(r))) SEE(fmod(U(r), x)) SEE(fmax(U(r), x)) SEE(fmin(x, U(r)))
        SEE(exp(x)) SEE(exp2(x)) SEE(expm1(x)) SEE(log(x)) SEE(log10(x)) SEE(log2(x)) SEE(log1p(x))
        SEE(pow(x, y)) SEE(pow(x, U(r))) SEE(pow(U(r), x)) SEE(pow(x, U(R(2)))) SEE(sqrt(x)) SEE(cbrt(x)) SEE(cbrt(z)) SEE(hypot(x, y))
        SEE(sin(x)) SEE(cos(x)) SEE(tan(x)) SEE(asin(y)) SEE(acos(y)) SEE(atan(x)) SEE(atan2(x, y)) SEE(atan2(z, x))
        SEE(sinh(x)) SEE(cosh(x)) SEE(tanh(x)) SEE(asinh(x)) SEE(acosh(x)) SEE(atanh(y)) SEE(erf(x)) SEE(erfc(x))
        SEE(sin(x) * cos(x) + exp(y * z) - pow(x + y, z))
        LT(isfinite(x)); LT(isnormal(x)); LT(isfinite(x / U(R(0)))); LT(isnormal(none));
        // copies, moves, assignments
        { U a(x), b; b = a; U c(std::move(a)); a = y; std::swap(a, b); see("copy a", a); see("copy b", b); see("copy c", c); std::vector<U> v(3, b); v.push_back(c); see("copy v", v[1] + v[3]); }
        // text
        for (float d : { 1.5f, 2.0f, 3.0f, 2.5f }) {
            T(ctx + "format", format(x, d)); T(ctx + "format sep", format(z, d, " +- ")); T(ctx + "member", y.format(d, " ")); T(ctx + "member1", y.format(d));
        }
        { std::ostringstream o; o << x << ", " << z * U(R(1000)) << ", " << one; T(ctx + "stream", o.str()); }
        X(ctx + "format 0.5", [&] { format(x, 0.5f); });
        X(ctx + "grad of dependent", [&] { x.grad(x * y); });
        X(ctx + "negative sigma", [&] { U bad = make(R(1), R(-1)); (void)bad; });
        // matrices
        const std::vector<U> v { x * y, y - z, z / x };
        const std::list<U> l(v.begin(), v.end());
        std::vector<R> m(9), q = cov_matrix<std::vector<R>>(v), p = corr_matrix<std::vector<R>>(v);
        for (auto &k : q) LN(k, 1);
        for (auto &k : p) LN(k, 1);
        cov_matrix(l.begin(), l.end(), m.begin()); for (auto &k : m) LN(k, 1);
        corr_matrix(v.begin(), v.end(), m.begin()); for (auto &k : m) LN(k, 1);
        const std::vector<R> sg { R(1), R(2), R(3) };
        for (auto k : corr2cov<std::vector<R>>(sg, p)) LN(k, 1);
        X(ctx + "corr2cov sizes", [&] { corr2cov<std::vector<R>>(sg, std::vector<R>(8)); });
        for (auto k : nom_vector<std::vector<R>>(v)) LN(k, 1);
        // precision
        { const U t = sin(x); LN((t.n() - std::sin(x.n())) / eps<U>(), 1e9); }
        LN(default_step<R>(), 1); LN(default_step<R>(2), 1);
        more();
    }
    std::function<U(R, R)> make;
    void more() {}
};
} // namespace c22
