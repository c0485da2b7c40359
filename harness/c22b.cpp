// second order
#ifdef C22_REV
#include <uncertainties/ureals.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/ureal2.hpp>
#else
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/ureals.hpp>
#endif
#include "c22cat.hpp"
namespace c22 {
template<uncertainties::Prop P> static void run2() {
    using namespace uncertainties;
    typedef double R;
    typedef UReal2<R, P> U;
    Cat<U> k;
    const std::array<R, 6> gs {{ 0, 3, 0, 15, 0, 105 }}, sk {{ 1, 4, 10, 41, 150, 700 }};
    k.make = [&](R n, R s) { return U(n, s, gs); };
    k.seen = [&](const std::string &w, const U &x) { see2(w, x, k.base); };
    k.base = { U(1.25, 0.1, gs), U(0.5, 0.3, gs), U(-0.75, 0.2, gs) };
    k.run();
    const U x = k.base[0], y = k.base[1];
    T(ctx + "mode", U::prop_mode == Prop::est ? "est" : "mean");
    k.see("skewed", U(2, 0.5, sk, R(-1)) * x);
    k.see("central", U(2, std::array<R, 7>{{ 0.25, 0, 0.1875, 0, 0.234375, 0, 0.41 }}) * U(R(2)));
    k.see("unary", unary(x, R(2), R(-1), R(0.25))); k.see("binary", binary(x, y, R(2), R(-1), R(0.5), R(1), R(2), R(3)));
    { U a = x; binary_assign(a, y, R(2), R(-1), R(0.5), R(1), R(2), R(3)); k.see("binary_assign", a); binary_assign(a, a, R(2), R(-1), R(0.5), R(1), R(2), R(3)); k.see("binary_assign self", a); }
    const Unary<R> f = [](const R &t) { return t * t * t; }, df = [](const R &t) { return 3 * t * t; }, ddf = [](const R &t) { return 6 * t; };
    const Binary<R> g = [](const R &s, const R &t) { return s * t * t; }, gx = [](const R &, const R &t) { return t * t; }, gy = [](const R &s, const R &t) { return 2 * s * t; },
        gxx = [](const R &, const R &) { return 0.0; }, gyy = [](const R &s, const R &) { return 2 * s; }, gxy = [](const R &, const R &t) { return 2 * t; };
    k.see("uunary2", uunary2<R, P>(f, df, ddf)(x * y));
    k.see("uunary2 df", uunary2<R, P>(f, df, R(0.0078125))(x));
    k.see("uunary2 step", uunary2<R, P>(f, R(0.0078125))(x));
    k.see("ubinary2", ubinary2<R, P>(g, gx, gy, gxx, gyy, gxy)(x, y));
    k.see("ubinary2 df", ubinary2<R, P>(g, gx, gy, R(0.0078125))(x, y));
    k.see("ubinary2 step", ubinary2<R, P>(g, R(0.0078125))(x, x));
    N(ctx + "default step", uunary2<R, P>(f)(x).grad(x), 1e6); N(ctx + "default step", uunary2<R, P>(f, df)(x).grad(x), 1e6);
    N(ctx + "default step", ubinary2<R, P>(g)(x, y).grad(x), 1e6); N(ctx + "default step", ubinary2<R, P>(g, gx, gy)(x, y).grad(y), 1e6);
    // distributions
    k.see("normal", distr::normal<U>(1, 0.5)); k.see("uniform", distr::uniform<U>(-1, 2)); k.see("normal 0", distr::normal<U>(3, 0));
    for (int i : { 0, 1, 3, 30 }) k.see("chisquare", distr::chisquare<U>(i));
    X(ctx + "normal", [&] { distr::normal<U>(1, -0.5); }); X(ctx + "uniform", [&] { distr::uniform<U>(2, 1); }); X(ctx + "chisquare", [&] { distr::chisquare<U>(-1); });
    X(ctx + "impossible moments", [&] { U bad(1, 1, std::array<R, 6>{{ 0, 0, 0, 0, 0, 0 }}); });
    // conversions
    { UReal2<long double, P> w = x * y; UReal2<R, P> d(w); N(ctx + "conv", d.n() + d.s(), 1); k.see("conv", d * x); }
    { const UReal2E<R> e(x * y); const UReal2M<R> m(x * y); N(ctx + "as est", e.n(), 1); N(ctx + "as mean", m.n(), 1); }
    static const double ns[] = { 1, -1, 0, 12345.678, 1e-7, 99.96 }, ss[] = { 0.1, 1, 0.0995, 1.96, 123, 7e-9 };
    for (double n : ns) for (double s : ss) T(ctx + "format " + std::to_string(n) + "," + std::to_string(s), U(n, s, gs).format(2.0f));
}
void second_e() { ctx = "est:"; run2<uncertainties::Prop::est>(); }
void second_m() { ctx = "mean:"; run2<uncertainties::Prop::mean>(); }
}
