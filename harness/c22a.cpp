// first order; no Eigen needed
#ifdef C22_REV
#include <uncertainties/functions.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/ureal.hpp>
#else
#include <uncertainties/ureal.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/stat.hpp>
#endif
#include "c22cat.hpp"
namespace c22 {
template<class R> static void run1() {
    using namespace uncertainties;
    typedef UReal<R> U;
    Cat<U> k;
    k.make = [](R n, R s) { return U(n, s); };
    k.base = { U(R(1.25), R(0.1)), U(R(0.5), R(0.3)), U(R(-0.75), R(0.2)) };
    k.run();
    const U x = k.base[0], y = k.base[1];
    k.see("change_nom", change_nom(x, R(3)));
    k.see("change_nom2", change_nom(x * y, R(3)));
    k.see("unary", unary(x, R(2), R(-1))); k.see("binary", binary(x, y, R(2), R(-1), R(0.5)));
    { U a = x; a += y; k.see("+=", a); a -= x; k.see("-=", a); a *= x; k.see("*=", a); a /= a; k.see("/=", a); a += R(2); k.see("+= number", a); a *= R(2); k.see("*= number", a); }
    { U a = x; a.binary_assign(y, R(2), R(-1), R(0.5)); k.see("binary_assign", a); a.binary_assign(a, R(2), R(-1), R(0.5)); k.see("binary_assign self", a); }
    { const std::vector<U> v { x, y, x * y }; const std::vector<R> d { R(1), R(2), R(-1) }; k.see("nary", nary(v.begin(), v.end(), R(7), d.begin())); }
    const Unary<R> f = [](const R &t) { return t * t * t; }, df = [](const R &t) { return 3 * t * t; };
    const Binary<R> g = [](const R &s, const R &t) { return s * t * t; }, gx = [](const R &, const R &t) { return t * t; }, gy = [](const R &s, const R &t) { return 2 * s * t; };
    const UUnary<R> u1 = uunary<R>(f, df), u2 = uunary<R>(f, R(0.0078125)), u3 = uunary<R>(f);
    const UBinary<R> b1 = ubinary<R>(g, gx, gy), b2 = ubinary<R>(g, R(0.0078125)), b3 = ubinary<R>(g);
    k.see("uunary", u1(x * y)); k.see("uunary step", u2(x)); k.see("ubinary", b1(x, y)); k.see("ubinary step", b2(x, x));
    // numerical derivatives with the default step depend on rounding
    N(ctx + "default step", double(u3(x).grad(x)), 1e6); N(ctx + "default step 2", double(b3(x, y).grad(y)), 1e6);
    // conversions
    { UReal<long double> w = x; UReal<double> d = w; UReal<float> q = d; N(ctx + "conv", double(w.n() + w.s()), 1); N(ctx + "conv d", d.n() + d.s(), 1); N(ctx + "conv f", double(q.n() + q.s()), 1); T(ctx + "conv id", d.indepid() == x.indepid() ? "same" : "different"); }
    { UReal<long double> w = x * y; UReal<double> d = w; N(ctx + "conv2", d.n() + d.s(), 1); }
    // plain numbers
    LN(nom(R(2.5)), 1); LN(sdev(R(2.5)), 1); T(ctx + "plain", format(R(2.5))); T(ctx + "plain int", format(25)); LN(nom(7), 1); LN(sdev(7), 1);
    static const double ns[] = { 1, -1, 0, 12345.678, 1e-7, 99.96, -0.0999, 1e20, 3.3e-30, 5 };
    static const double ss[] = { 0.1, 0, 1, 0.0995, 1.96, 123, 7e-9, 9.99e10, 2e-31, 0.5 };
    for (double n : ns) for (double s : ss) for (float d : { 1.5f, 2.0f, 3.0f })
        T(ctx + "format " + std::to_string(n) + "," + std::to_string(s) + "," + std::to_string(d), U(R(n), R(s)).format(d));
}
void first() { ctx = "double:"; run1<double>(); }
void firstf() { ctx = "float:"; run1<float>(); }
}
