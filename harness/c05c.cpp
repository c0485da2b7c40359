// C05: identities are kept by copies, conversions and functions of one variable
#define H_NO_MAIN
#include "lib.hpp"
static const std::array<double, 6> nrm {{ 0, 3, 0, 15, 0, 105 }};
extern std::unordered_set<long long> seen;

template<class U> void keeps(h::Ctx &c, const U &x, unc::Id id) {
    auto ck = [&](const char *w, bool indep, unc::Id got) {
        c.check(indep && got == id, std::string("identity-not-kept:") + w, [&] { return std::to_string(got) + " instead of " + std::to_string(id); });
    };
#define CK(w, e) { const auto yy = e; ck(w, yy.isindep(), yy.indepid()); }
    CK("copy", x)
    { U y; y = x; CK("assignment", y) U z(std::move(y)); CK("move", z) y = std::move(z); CK("move assignment", y) }
    { U a(x), b(typename U::real_type(1)); using std::swap; swap(a, b); CK("swap", b) c.check(a.indepid() == 0, "swap-constant", [] { return std::string(); }); }
    CK("minus", -x)
    CK("plus", +x)
    CK("function", sin(x))
    CK("product by number", x * typename U::real_type(3))
    CK("sum with number", typename U::real_type(3) + x)
    CK("with itself", x * x + x)
}
void conversions(h::Ctx &c) {
    h::Rng &r = c.rng;
    const unc::udouble x(r.normal(), r.logu(-2, 2));
    keeps(c, x, x.indepid());
    seen.insert(x.indepid());
    auto ck = [&](const char *w, bool indep, unc::Id got, unc::Id id) {
        c.check(indep && got == id, std::string("identity-not-kept:") + w, [&] { return std::to_string(got) + " instead of " + std::to_string(id); });
    };
#define CV(w, T, e, of) { const T yy = T(e); ck(w, yy.isindep(), yy.indepid(), (of).indepid()); }
    CV("to float", unc::ufloat, x, x)
    CV("to long double", unc::UReal<long double>, x, x)
    CV("to float and back", unc::udouble, unc::ufloat(x), x)
    const unc::udouble y = exp(x * 2.0);
    keeps(c, y, x.indepid());
    CV("function to float", unc::ufloat, y, x)
    { unc::udouble z = x; z += x; z *= 2.0; CV("in place", unc::udouble, z, x) CV("in place, converted", unc::ufloat, z, x) }
    { const unc::udouble z = change_nom(x, 7.0); CV("change_nom", unc::udouble, z, x) }
    const unc::udouble2e e(r.normal(), r.logu(-2, 2), nrm);
    seen.insert(e.indepid());
    keeps(c, e, e.indepid());
    keeps(c, unc::udouble2m(e), e.indepid());
    CV("mode", unc::udouble2m, e, e)
    CV("mode and back", unc::udouble2e, unc::udouble2m(e), e)
    CV("second order to float", unc::ufloat2e, e, e)
    CV("second order to float, other mode", unc::ufloat2m, e, e)
    CV("second order to long double", unc::UReal2E<long double>, e * e, e)
    // no identity
    auto none = [&](const char *w, bool indep, unc::Id got, double s) {
        c.check(indep && got == 0 && s == 0, std::string("constant-with-identity:") + w, [&] { return std::to_string(got) + " s " + h::num(s); });
    };
#define NO(w, e) { const auto kk = e; none(w, kk.isindep(), kk.indepid(), double(kk.s())); \
        c.check(cov(kk, decltype(kk)(x0)) == 0 && cov(decltype(kk)(x0), kk) == 0, std::string("constant-correlated:") + w, [] { return std::string(); }); }
    {
        const unc::udouble x0 = x;
        NO("default", unc::udouble())
        NO("number", unc::udouble(3.0))
        NO("sum of numbers", unc::udouble(3.0) + unc::udouble(2))
        NO("function of number", sin(unc::udouble(3.0)))
        NO("product of numbers", unc::udouble(3.0) * 2.0)
        { unc::udouble k(3.0); k += 2.0; k *= unc::udouble(5); k /= k; NO("in place on numbers", k) }
        NO("converted number", unc::udouble(unc::ufloat(3.f)))
        { unc::udouble a(1.0), b(std::move(a)); NO("moved number", b) }
    }
    {
        const unc::udouble2e x0 = e;
        NO("default 2", unc::udouble2e())
        NO("number 2", unc::udouble2e(3.0))
        NO("sum of numbers 2", unc::udouble2e(3.0) + unc::udouble2e(2))
        NO("function of number 2", exp(unc::udouble2e(3.0)))
        NO("chisquare 0", unc::distr::chisquare<unc::udouble2e>(0))
    }
    // adding a number changes neither dependencies nor uncertainty
    const unc::udouble w = x + unc::udouble(5.0) * 3.0;
    c.check(w.isindep() && w.indepid() == x.indepid() && std::fabs(w.s() - x.s()) <= 1e-15 * x.s(), "number-contributes", [] { return std::string(); });
    c.count("conversions");
}

