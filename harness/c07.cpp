// C07: ureals() against the requested means and covariance matrix.
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/impl.hpp>
#include "h.hpp"
#include <deque>
#include <array>
namespace unc = uncertainties;
typedef long double LD;

static LD mineig(std::vector<LD> A, size_t n) { // Jacobi, smallest eigenvalue
    for (int sweep = 0; sweep < 60; ++sweep) {
        LD off = 0;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) off += A[i * n + j] * A[i * n + j];
        if (off < 1e-40L) break;
        for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q < n; ++q) {
            if (A[p * n + q] == 0) continue;
            const LD th = (A[q * n + q] - A[p * n + p]) / (2 * A[p * n + q]);
            const LD t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (size_t k = 0; k < n; ++k) { const LD x = A[k * n + p], y = A[k * n + q]; A[k * n + p] = c * x - s * y; A[k * n + q] = s * x + c * y; }
            for (size_t k = 0; k < n; ++k) { const LD x = A[p * n + k], y = A[q * n + k]; A[p * n + k] = c * x - s * y; A[q * n + k] = s * x + c * y; }
        }
    }
    LD m = A[0];
    for (size_t i = 1; i < n; ++i) if (A[i * n + i] < m) m = A[i * n + i];
    return m;
}
// symmetric matrix with the given eigenvalues
static std::vector<LD> spectral(h::Rng &r, const std::vector<LD> &w) {
    const size_t n = w.size();
    std::vector<std::vector<LD>> q;
    for (size_t i = 0; i < n; ++i) {
        for (;;) {
            std::vector<LD> v(n);
            for (auto &x : v) x = r.normal();
            for (int rep = 0; rep < 2; ++rep) for (auto &u : q) { LD d = 0; for (size_t k = 0; k < n; ++k) d += u[k] * v[k]; for (size_t k = 0; k < n; ++k) v[k] -= d * u[k]; }
            LD s = 0; for (auto x : v) s += x * x;
            if (s < 1e-4L) continue;
            for (auto &x : v) x /= std::sqrt(s);
            q.push_back(v);
            break;
        }
    }
    std::vector<LD> V(n * n, 0);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) {
        LD s = 0; for (size_t k = 0; k < n; ++k) s += w[k] * q[k][i] * q[k][j];
        V[i * n + j] = V[j * n + i] = s;
    }
    return V;
}
enum Out { OK, IA, RE, OTHER };
static const char *const oname[] = { "no exception", "std::invalid_argument", "std::runtime_error", "another exception" };

template<class OV, class VA, class VB> static Out call(const VA &mu, const VB &cv, OV &out) {
    try { out = unc::ureals<OV>(mu, cv); } catch (const std::invalid_argument &) { return IA; } catch (const std::runtime_error &) { return RE; } catch (...) { return OTHER; }
    return OK;
}
template<class OV, class VA> static Out call2(const VA &mu, const std::vector<typename OV::value_type::real_type> &cv, OV &out, int cont) {
    typedef typename OV::value_type::real_type R;
    if (cont == 1) return call(mu, std::deque<R>(cv.begin(), cv.end()), out);
    if (cont == 2 && cv.size() == 9) { std::array<R, 9> a; std::copy(cv.begin(), cv.end(), a.begin()); return call(mu, a, out); }
    return call(mu, cv, out);
}
template<class OV> static void one(h::Ctx &c, const char *tn, size_t big = 0) {
    typedef typename OV::value_type U;
    typedef typename U::real_type R;
    h::Rng &r = c.rng;
    const double eps = double(std::numeric_limits<R>::epsilon());
    const bool fl = sizeof(R) == 4;
    const size_t n = big ? big : size_t(r.chance(0.02) ? r.range(13, 40) : r.range(1, 9));
    const int kind = r.below(8); // 0-4 definite, 5 semidefinite, 6 indefinite, 7 wrong size
    std::vector<LD> w(n);
    const double cond = r.chance(0.3) ? 0 : r.uni(0, fl ? 4 : 10);
    for (auto &x : w) x = std::pow(10.0L, -LD(r.uni(0, cond)));
    if (kind == 5) for (size_t k = 0; k < n; ++k) if (r.chance(0.4)) w[k] = 0;
    if (kind == 6) { w[size_t(r.below(int(n)))] = -LD(r.uni(0.05, 1)); }
    std::vector<LD> V;
    const int shape = r.below(6);
    if (shape == 0) { // diagonal
        V.assign(n * n, 0); for (size_t i = 0; i < n; ++i) V[i * n + i] = w[i];
    } else if (shape == 1 && kind <= 5) { // integer factor: exactly representable, possibly rank deficient
        const size_t k = kind == 5 ? size_t(r.range(1, int(n))) : n;
        std::vector<LD> A(n * k);
        for (auto &x : A) x = r.range(-3, 3);
        if (kind < 5) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (j > i) A[i * k + j] = 0; else if (i == j) A[i * k + j] = r.range(1, 4);
        V.assign(n * n, 0);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t q = 0; q < k; ++q) V[i * n + j] += A[i * k + q] * A[j * k + q];
    } else V = spectral(r, w);
    // scales
    if (r.chance(0.5)) {
        std::vector<LD> s(n);
        for (auto &x : s) x = r.chance(0.5) ? std::ldexp(1.0L, r.range(fl ? -8 : -20, fl ? 8 : 20)) : 1;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) V[i * n + j] *= s[i] * s[j];
    }
    bool anyzero = false;
    for (size_t i = 0; i < n; ++i) if (V[i * n + i] == 0) anyzero = true;
    if (!anyzero && r.chance(0.25)) { // the whole range of the type
        const int K = r.range(fl ? -40 : -300, fl ? 40 : 300), W = r.chance(0.4) ? 0 : fl ? 8 : 120;
        std::vector<LD> s(n);
        for (auto &x : s) x = std::ldexp(1.0L, K + r.range(-W, W));
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) V[i * n + j] *= s[i] * s[j];
        c.count("wide scales");
    }
    // permutation, to exercise every pivoting order
    std::vector<size_t> perm(n); for (size_t i = 0; i < n; ++i) perm[i] = i;
    r.shuffle(perm);
    std::vector<R> cv(n * n), mu(n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) cv[i * n + j] = cv[j * n + i] = R(V[perm[i] * n + perm[j]]);
    for (auto &m : mu) m = R(r.chance(0.3) ? double(r.range(-3, 3)) : r.normal() * 100);
    // what was actually passed, normalized
    std::vector<LD> C(n * n);
    bool zerodiag = false;
    for (size_t i = 0; i < n; ++i) if (!(cv[i * n + i] > 0)) zerodiag = true;
    for (size_t i = 0; i < n * n; ++i) { const LD a = std::fabs(LD(cv[(i / n) * (n + 1)])), b = std::fabs(LD(cv[(i % n) * (n + 1)])); C[i] = a > 0 && b > 0 ? LD(cv[i]) / std::sqrt(a) / std::sqrt(b) : LD(cv[i]); }
    const LD me = mineig(C, n);
    std::ostringstream o; o.precision(17); o << tn << " n=" << n << " mu=";
    for (auto m : mu) o << double(m) << ",";
    o << " cov=";
    for (size_t i = 0; i < (n <= 6 ? cv.size() : 0); ++i) o << double(cv[i]) << ",";
    o << " min normalized eigenvalue " << double(me);
    const std::string d = o.str();
    h::where(d);
    c.distinct(h::hash_str(d));
    c.sample(d);
    OV out;
    const int cont = r.below(4);
    if (kind == 7) {
        std::vector<R> bad = cv;
        const int how = r.below(5);
        if (how == 0) bad.push_back(0); else if (how == 1) bad.pop_back(); else if (how == 2) bad.clear(); else if (how == 3) bad.resize(n); else bad.resize(n * (n + 1));
        if (bad.size() == n * n) bad.push_back(1);
        const Out k = call2<OV>(mu, bad, out, cont);
        c.check(k == IA, "size-mismatch", [&] { return d + " buffer size " + std::to_string(bad.size()) + ": " + oname[k]; });
        std::vector<R> none;
        const Out k0 = call<OV>(none, cv, out);
        c.check(k0 == IA, "size-mismatch", [&] { return "no means, buffer size " + std::to_string(cv.size()) + ": " + oname[k0]; });
        c.count("mismatched sizes", 2);
        return;
    }
    const U before(1, 1);
    std::vector<R> given = cv;
    const bool garbage = r.chance(0.3); // only one triangle is read
    if (garbage) for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) given[i + n * j] = r.chance(0.5) ? std::numeric_limits<R>::quiet_NaN() : R(r.normal() * 1000);
    const std::vector<R> mu0 = mu;
    const Out k = r.chance(0.5) ? call2<OV>(mu, given, out, cont) : call2<OV>(std::deque<R>(mu.begin(), mu.end()), given, out, cont);
    const U after(1, 1);
    // definite by a margin larger than rounding / clearly indefinite / between
    const bool pd = !zerodiag && me > 40 * n * n * eps, neg = me < -0.01L && !zerodiag;
    bool negdiag = false;
    for (size_t i = 0; i < n; ++i) { LD mx = 0; for (size_t j = 0; j < n; ++j) mx = std::max(mx, std::fabs(LD(cv[j * n + j]))); if (LD(cv[i * n + i]) < -0.01L * mx) negdiag = true; }
    if (pd) { c.count("definite"); c.check(k == OK, "definite-rejected", [&] { return d + ": " + oname[k]; }); }
    else if (neg || negdiag) { c.count("indefinite"); c.check(k == RE, "indefinite-accepted", [&] { return d + ": " + oname[k]; }); return; }
    else { c.count(k == OK ? "semidefinite, accepted" : "semidefinite, rejected"); c.check(k == OK || k == RE, "wrong-exception", [&] { return d + ": " + oname[k]; }); }
    if (k != OK) return;
    if (me < -100.0 * double(n * n) * eps) return; // between rounding and clearly negative: not judged
    c.check(out.size() == n, "size", [&] { return d; });
    if (out.size() != n) return;
    for (size_t i = 0; i < n; ++i) {
        c.check(out[i].n() == mu0[i], "mean", [&] { return d + " mean " + std::to_string(i) + " is " + h::num(double(out[i].n())); });
        c.check(cov(out[i], before) == 0 && cov(out[i], after) == 0, "not-fresh", [&] { return d; });
        for (size_t j = 0; j <= i; ++j) {
            const LD want = LD(cv[i * n + j]), got = LD(cov(out[i], out[j]));
            const double sc = std::sqrt(std::fabs(double(cv[i * n + i]))) * std::sqrt(std::fabs(double(cv[j * n + j])));
            c.check(std::fabs(got - want) <= 60 * double(n) * eps * sc + (zerodiag ? 1e3 * eps : 0), "covariance", [&] { return d + " element " + std::to_string(i) + "," + std::to_string(j) + " got " + h::num(double(got)) + " want " + h::num(double(want)); });
        }
        const LD sv = std::sqrt(LD(cv[i * n + i]));
        if (!zerodiag) c.check(std::fabs(LD(out[i].s()) - sv) <= 60 * double(n) * eps * sv, "sdev", [&] { return d + " s " + std::to_string(i); });
    }
    if (n == 1) c.check(out[0].isindep() && (cv[0] == 0 || out[0].indepid() != unc::invalid_id), "more-variables-than-needed", [&] { return d; });
    c.count("dimension " + std::to_string(n > 9 ? 10 : n) + (n > 9 ? "+" : ""));
    // a second call is independent of the first
    OV again;
    if (call<OV>(mu, cv, again) == OK) for (size_t i = 0; i < n; ++i) c.check(cov(again[i], out[size_t(r.below(int(n)))]) == 0, "not-fresh", [&] { return d + ": two calls are correlated"; });
}
void run_case(h::Ctx &c) {
    switch (c.rng.below(4)) {
    case 0: case 1: one<std::vector<unc::udouble>>(c, "double"); break;
    case 2: one<std::vector<unc::ufloat>>(c, "float"); break;
    case 3: one<std::vector<unc::UReal<long double>>>(c, "long double"); break;
    }
}
void run_once(h::Ctx &c) {
    // large matrices, also around powers of two
    static const size_t dims[] = { 31, 32, 33, 63, 64, 65, 100 };
    for (size_t n : dims) {
        one<std::vector<unc::udouble>>(c, "double", n);
        if (n <= 65) one<std::vector<unc::ufloat>>(c, "float", n);
        one<std::vector<unc::UReal<long double>>>(c, "long double", n);
    }
    const std::vector<double> none;
    const auto e = unc::ureals<std::vector<unc::udouble>>(none, none);
    c.check(e.empty(), "empty", [] { return std::string("empty input"); });
    const auto a = unc::ureals<std::vector<unc::udouble>>(std::vector<double>{ 1, 2 }, std::vector<double>{ 1, 0.5, 0.5, 2 });
    c.check(a.size() == 2 && a[0].n() == 1 && a[1].n() == 2, "mean", [] { return std::string(); });
    const std::vector<double> cv = unc::cov_matrix<std::vector<double>>(a);
    c.check(std::fabs(cv[0] - 1) < 1e-15 && std::fabs(cv[1] - 0.5) < 1e-15 && std::fabs(cv[3] - 2) < 1e-15, "covariance", [] { return std::string(); });
    // containers other than vector as output
    const auto q = unc::ureals<std::deque<unc::udouble>>(std::vector<double>{ 1, 2 }, std::vector<double>{ 1, 0.5, 0.5, 2 });
    c.check(q.size() == 2 && std::fabs(cov(q[0], q[1]) - 0.5) < 1e-15, "covariance", [] { return std::string(); });
    // every pivoting order of 5 diagonal elements
    std::vector<int> p { 0, 1, 2, 3, 4 };
    do {
        std::vector<double> m(5), v(25, 0.25);
        for (size_t i = 0; i < 5; ++i) { m[i] = p[i] + 10; v[i * 6] = 1 + p[i]; }
        const auto x = unc::ureals<std::vector<unc::udouble>>(m, v);
        for (size_t i = 0; i < 5; ++i) {
            c.check(x[i].n() == m[i], "mean", [&] { return "pivoting order"; });
            for (size_t j = 0; j < 5; ++j) c.check(std::fabs(cov(x[i], x[j]) - v[i * 5 + j]) < 1e-14, "covariance", [&] { return "pivoting order"; });
        }
        c.count("pivoting orders");
    } while (std::next_permutation(p.begin(), p.end()));
}
