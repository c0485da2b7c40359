// C13: moments of the named distributions against exact quad precision ones.
#include <uncertainties/distr.hpp>
#include "distjudge.hpp"
#include <uncertainties/impl.hpp>

// central moments from cumulants (an independent route: no binomials of raw moments)
static std::vector<Q> from_cumulants(const std::vector<Q> &k) { // k[n], n = 0..8, k[1] ignored
    static const int B[9][9] = { {1}, {1,1}, {1,2,1}, {1,3,3,1}, {1,4,6,4,1}, {1,5,10,10,5,1}, {1,6,15,20,15,6,1}, {1,7,21,35,35,21,7,1}, {1,8,28,56,70,56,28,8,1} };
    std::vector<Q> m(9, 0);
    m[0] = 1;
    for (int n = 2; n <= 8; ++n) for (int i = 2; i <= n; ++i) m[size_t(n)] += Q(B[n - 1][i - 1]) * k[size_t(i)] * m[size_t(n - i)];
    return m;
}
static Dst d_normal(Q mu, Q s) { return { "normal", mu, s, { 1, 0, 1, 0, 3, 0, 15, 0, 105 } }; }
static Dst d_chisq(int k) {
    std::vector<Q> c(9, 0);
    Q f = 1; // 2^{n-1} (n-1)!
    for (int n = 1; n <= 8; ++n) { if (n > 1) f *= 2 * (n - 1); c[size_t(n)] = f * k; }
    std::vector<Q> m = from_cumulants(c);
    const Q s = sqrtq(Q(2 * (long long)k));
    Q sn = 1;
    for (int n = 0; n <= 8; ++n) { m[size_t(n)] /= sn; sn *= s; }
    m[1] = 0;
    return { "chisquare", Q(k), s, m };
}
static Dst d_unif(Q a, Q b) {
    std::vector<Q> m(9, 0);
    const Q w = sqrtq(Q(3));
    Q p = 1;
    for (int n = 0; n <= 8; ++n) { m[size_t(n)] = n % 2 ? Q(0) : p / (n + 1); p *= w; }
    return { "uniform", (a + b) / 2, (b - a) / sqrtq(Q(12)), m };
}
template<class U> static void one(h::Ctx &c, const char *tn) {
    typedef typename U::real_type R;
    h::Rng &r = c.rng;
    const bool fl = sizeof(R) == 4;
    const double e1 = fl ? 4.3 : 34;
    auto num = [&]() -> R { const int k = r.below(4); return R(k == 0 ? double(r.range(-5, 5)) : k == 1 ? r.normal() : (r.chance(0.5) ? -1 : 1) * r.logu(-e1, e1)); };
    auto wid = [&]() -> R { const int k = r.below(4); return R(k == 0 ? double(r.range(1, 5)) : k == 1 ? r.uni(0.01, 3) : r.logu(-e1, e1)); };
    const int which = r.below(3);
    std::ostringstream o; o.precision(20); o << tn << " ";
    std::vector<U> xs;
    if (which == 0) {
        const R mu = num(), s = wid();
        o << "normal(" << mu << "," << s << ")"; h::where(o.str());
        judge(c, unc::distr::normal<U>(mu, s), d_normal(mu, s), o.str());
        c.check(throws_ia([&] { unc::distr::normal<U>(mu, -s); }), "normal:negative-width", [&] { return o.str(); });
        const U z = unc::distr::normal<U>(mu, 0);
        c.check(z.s() == 0 && var(z) == 0 && z.n() == mu && z.m(3) == 0 && z.m(4) == 0, "normal:zero-width", [&] { return o.str(); });
    } else if (which == 1) {
        const int k = r.chance(0.5) ? r.range(1, 30) : int(std::min(r.logu(0, fl ? 8 : 9.34), 2147483647.));
        o << "chisquare(" << k << ")"; h::where(o.str());
        judge(c, unc::distr::chisquare<U>(k), d_chisq(k), o.str());
        c.check(throws_ia([&] { unc::distr::chisquare<U>(-k); }), "chisquare:negative", [&] { return o.str(); });
    } else {
        R a = num(), w = wid();
        const R b = a + w;
        if (!(b > a) || double(b - a) < 64 * double(std::numeric_limits<R>::epsilon()) * double(std::fabs(a) + std::fabs(b))) { c.count("interval too narrow"); return; }
        o << "uniform(" << a << "," << b << ")"; h::where(o.str());
        judge(c, unc::distr::uniform<U>(a, b), d_unif(a, b), o.str());
        c.check(throws_ia([&] { unc::distr::uniform<U>(b, a); }), "uniform:reversed", [&] { return o.str(); });
        const U z = unc::distr::uniform<U>(a, a);
        c.check(z.s() == 0 && var(z) == 0 && double(std::fabs(z.n() - a)) <= 4 * double(std::numeric_limits<R>::epsilon()) * double(std::fabs(a)), "uniform:zero-width", [&] { return o.str(); });
    }
    c.count(std::string(tn) + (which == 0 ? " normal" : which == 1 ? " chisquare" : " uniform"));
    c.distinct(h::hash_str(o.str()));
    c.sample(o.str());
}
template<class U> static void fixed(h::Ctx &c, const char *tn) {
    for (int k = 1; k <= 60; ++k) { h::where(std::string(tn) + " chisquare " + std::to_string(k)); judge(c, unc::distr::chisquare<U>(k), d_chisq(k), std::string(tn) + " chisquare " + std::to_string(k)); }
    if (sizeof(typename U::real_type) > 4) for (int k : { 999999999, 1000000000, 1000000001, 2000000000, 2147483646, 2147483647 }) judge(c, unc::distr::chisquare<U>(k), d_chisq(k), std::string(tn) + " chisquare " + std::to_string(k));
    const U z = unc::distr::chisquare<U>(0);
    c.check(z.s() == 0 && z.n() == 0 && z.isindep() && z.indepid() == 0, "chisquare:zero", [&] { return std::string(tn); });
    // different distributions are independent
    const U a = unc::distr::normal<U>(1, 2), b = unc::distr::chisquare<U>(3), d = unc::distr::uniform<U>(-1, 1), e = unc::distr::normal<U>(1, 2);
    c.check(cov(a, b) == 0 && cov(a, d) == 0 && cov(b, d) == 0 && cov(a, e) == 0 && a.indepid() != e.indepid(), "independent", [&] { return std::string(tn); });
}
#define ALLT(M) M(unc::UReal2E<double>) M(unc::UReal2M<double>) M(unc::UReal2E<float>) M(unc::UReal2M<float>) M(unc::UReal2E<long double>) M(unc::UReal2M<long double>)
void run_case(h::Ctx &c) {
    switch (c.rng.below(6)) {
    case 0: one<unc::UReal2E<double>>(c, "2e double"); break;
    case 1: one<unc::UReal2M<double>>(c, "2m double"); break;
    case 2: one<unc::UReal2E<float>>(c, "2e float"); break;
    case 3: one<unc::UReal2M<float>>(c, "2m float"); break;
    case 4: one<unc::UReal2E<long double>>(c, "2e long double"); break;
    case 5: one<unc::UReal2M<long double>>(c, "2m long double"); break;
    }
}
void run_once(h::Ctx &c) {
#define FX(T) try { fixed<T>(c, #T); } catch (const std::exception &e) { c.viol("unexpected-exception", std::string(h::g_where) + ": " + e.what()); }
    ALLT(FX)
}
