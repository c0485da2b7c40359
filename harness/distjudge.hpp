// Judges all the moments of a fresh second-order variable, given its exact
// standardized moments: up to the fourth directly, up to the eighth through
// the moments of quadratic functions of it.
#pragma once
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include "h.hpp"
#include "mf.hpp"
#include <set>
namespace unc = uncertainties;
typedef quad Q;
struct Dst { std::string name; Q mu, s; std::vector<Q> z; }; // standardized moments 0..8

// E of products of polynomials in z
static std::vector<Q> mul(const std::vector<Q> &a, const std::vector<Q> &b) {
    std::vector<Q> c(a.size() + b.size() - 1, 0);
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j];
    return c;
}
static Q E(const std::vector<Q> &p, const std::vector<Q> &z, bool ab = false) {
    Q s = 0;
    for (size_t i = 0; i < p.size(); ++i) { const Q t = p[i] * z[i]; s += ab && t < 0 ? -t : t; }
    return s;
}

static std::set<long long> g_ids;
template<class U> static void judge(h::Ctx &c, const U &x, const Dst &d, const std::string &what) {
    typedef typename U::real_type R;
    const double eps = double(std::numeric_limits<R>::epsilon());
    auto rel = [&](const char *k, R got, Q want, Q scale, double m) {
        c.eval();
        Q err = Q(got) - want; if (err < 0) err = -err;
        if (!(err <= Q(m * eps) * scale + Q(1e-4930Q)))
            c.viol(d.name + ":" + k, what + " " + k + " got " + h::num(double(got)) + " want " + h::num(double(want)) + " error in eps of the scale " + h::num(double(err / scale) / eps));
    };
    const Q amu = d.mu < 0 ? -d.mu : d.mu;
    Q s2 = d.s * d.s;
    // the width of an interval far from 0 inherits the rounding of the ends
    const double kw = 8;
    rel("mean", x.first_order_n(), d.mu, amu + d.s, kw);
    rel("n", x.n(), d.mu, amu + d.s, kw);
    c.check(x.m(1) == 0, d.name + ":m1", [&] { return what + " m(1) " + h::num(double(x.m(1))); });
    c.check(x.isindep() && x.indepid() > 0 && g_ids.insert(x.indepid()).second, d.name + ":identity", [&] { return what + " id " + std::to_string(x.indepid()); });
    const double L = 60;
    rel("s", x.s(), d.s, d.s, L);
    rel("m2", x.m(2), s2, s2, L);
    // odd moments: scale is the bound on E|z|^3
    Q z3 = sqrtq(d.z[4]);
    rel("m3", x.m(3), d.z[3] * s2 * d.s, z3 * s2 * d.s, L * 2);
    rel("m4", x.m(4), d.z[4] * s2 * s2, d.z[4] * s2 * s2, L * 3);
    if (d.s > 0) {
        rel("skew", x.skew(), d.z[3], z3, L * 4);
        rel("kurt", x.kurt(), d.z[4], d.z[4], L * 5);
        c.check(std::fabs(double(x.grad(x)) - 1) < 4 * eps && std::fabs(double(x.hess(x, x))) < 1e-30, d.name + ":derivative", [&] { return what; });
    }
    // a x + b x^2, centred on first_order_n: exact moments involve up to z^8
    for (int t = 0; t < 3; ++t) {
        const R a = t == 0 ? R(0) : t == 1 ? R(1) : R(-0.5), b = t == 2 ? R(0.25) : R(1);
        // (x - mu)^2 without cancellation: coefficients set by unary
        const U y = unary(x, R(0), a, R(2) * b);
        std::vector<Q> p { 0, Q(a) * d.s, Q(b) * s2 };
        const Q m1 = E(p, d.z);
        rel("m1-of-quadratic", y.m(1), m1, Q(b) * s2, L);
        std::vector<Q> q = p; q[0] = -m1;
        std::vector<Q> qa = p; qa[0] = m1; for (auto &v : qa) if (v < 0) v = -v;
        std::vector<Q> za(9); for (int i = 0; i <= 8; ++i) za[size_t(i)] = i % 2 ? sqrtq(d.z[size_t(i - 1)] * d.z[size_t(i + 1)]) : d.z[size_t(i)];
        const std::vector<Q> q2 = mul(q, q), qa2 = mul(qa, qa), q3 = mul(q2, q), qa3 = mul(qa2, qa), q4 = mul(q2, q2), qa4 = mul(qa2, qa2);
        rel("m2-of-quadratic", y.m(2), E(q2, d.z), E(qa2, za), 2 * L);
        rel("m3-of-quadratic", y.m(3), E(q3, d.z), E(qa3, za), 6 * L);
        rel("m4-of-quadratic", y.m(4), E(q4, d.z), E(qa4, za), 20 * L);
        rel("cov-with-quadratic", cov(x, y), E(mul(std::vector<Q>{ 0, d.s }, q), d.z), E(mul(std::vector<Q>{ 0, d.s }, qa), za), 2 * L);
    }
    const U sq = x * x;
    c.check(std::fabs(double(Q(sq.first_order_n()) - d.mu * d.mu)) <= 20 * eps * double((amu + d.s) * (amu + d.s)), d.name + ":square", [&] { return what; });
}
template<class F> static bool throws_ia(F f) {
    try { f(); } catch (const std::invalid_argument &) { return true; } catch (...) { return false; }
    return false;
}
