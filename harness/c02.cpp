// C02 / C09: every mathematical function, at many points, against numerical
// differentiation in quad precision. -DORDER=1 or 2.
#include "lib.hpp"
#include <uncertainties/impl.hpp>
#include "fd.hpp"
#ifndef ORDER
#define ORDER 1
#endif
using namespace sh;
using prog::lib1; using prog::lib2;

template<class Real> struct Name;
template<> struct Name<float> { static const char *s() { return "float"; } };
template<> struct Name<double> { static const char *s() { return "double"; } };
template<> struct Name<long double> { static const char *s() { return "long double"; } };

template<class Real> static double eps() { return double(std::numeric_limits<Real>::epsilon()); }

static std::string q2s(quad x) { char b[80]; quadmath_snprintf(b, sizeof b, "%.25Qg", x); return b; }

template<class Real> struct Cmp {
    h::Ctx &c;
    std::string what, at;
    template<class V> void operator()(const char *obs, V got, quad want, double tol) {
        c.eval();
        const double d = std::fabs(double(quad(got) - want));
        if (!(d <= tol) )
            c.viol(std::string(obs) + ":" + what, std::string(obs) + " of " + what + at + " got " + q2s(quad(got)) + " want " + q2s(want) + " tol " + h::num(tol));
    }
};

#if ORDER == 1
template<class Real> using UT = unc::UReal<Real>;
template<class U, class Real> U mk(Real n, Real s) { return U(n, s); }
template<class Real> const Real &n1(const unc::UReal<Real> &x) { return x.n(); }
#else
template<class U, class Real> U mk(Real n, Real s) { return U(n, s, std::array<Real, 6>{{ 0, 3, 0, 15, 0, 105 }}); }
template<class Real, unc::Prop P> const Real &n1(const unc::UReal2<Real, P> &x) { return x.first_order_n(); }
#endif

static const double K0 = 16, K1 = 4e3, K2 = 4e4;

// what the library must be able to represent: the square of d * s
template<class Real> bool fits(quad d, double s) {
    const quad q = fabsq(d) * s * 4;
    return q < sqrtq(std::min<long double>(std::numeric_limits<Real>::max(), 1e300L)) / 4
        && (q == 0 || q > 8 * sqrtq(std::max<long double>(std::numeric_limits<Real>::min(), 1e-300L)));
}

// Where the variances are no numbers of the type: only the values and the
// derivatives that are, with arguments of standard deviation 1.
template<class Real> bool normal(quad d) {
    const long double q = std::fabs((long double)(d));
    return q < std::numeric_limits<Real>::max() / 64 && q > std::numeric_limits<Real>::min() * 64;
}
template<class U> void extreme1(h::Ctx &c, int op, typename U::real_type x0, const fd::R1 &r) {
    using Real = typename U::real_type;
    const double e = eps<Real>();
    auto A = [](quad z) { return fabsq(z); };
    const quad ax = A(quad(x0)), L = fd::dist1(op, double(x0)), M = std::max<quad>(ax, std::min<quad>(1, L));
    const quad t0 = K0 * e * (A(r.f) + ax * A(r.d)), t1 = K1 * e * (A(r.d) + ax * A(r.dd)) + 4 * K0 * e * A(r.f) / M, t2 = K2 * e * (A(r.dd) + ax * A(r.ddd)) + 40 * K0 * e * (A(r.d) / M + A(r.f) / M / M);
    const U x = mk<U>(x0, Real(1)), y = lib1<U>(op, x);
    h::where(op1_name[op]);
    auto cmp = [&](const char *obs, Real got, quad want, quad tol) {
        c.eval();
        if (!(A(quad(got) - want) <= tol)) c.viol(std::string("extreme-") + obs + ":" + op1_name[op], std::string(obs) + " of " + op1_name[op] + "(" + q2s(x0) + ") " + Name<Real>::s() + " got " + q2s(quad(got)) + " want " + q2s(want) + " tol " + q2s(tol));
    };
    if (normal<Real>(r.f)) cmp("value", n1(y), r.f, t0);
    if (normal<Real>(r.d)) { cmp("derivative", U(y).grad(x), r.d, t1); c.count(std::string("extreme op ") + op1_name[op]); }
#if ORDER == 2
    if (normal<Real>(r.dd) && normal<Real>(r.d)) { cmp("second derivative", U(y).hess(x, x), r.dd, t2); c.count(std::string("extreme second derivative ") + op1_name[op]); }
#else
    (void)t2;
#endif
    c.distinct(h::mix(uint64_t(op) + 1000, h::mix(h::bits(double(x0)), sizeof(Real))));
}
template<class U> void extreme2(h::Ctx &c, int op, typename U::real_type x0, typename U::real_type y0, const fd::R2 &r, bool yc_only) {
    using Real = typename U::real_type;
    const double e = eps<Real>();
    auto A = [](quad z) { return fabsq(z); };
    const quad ax = A(quad(x0)), ay = A(quad(y0));
    quad Lx = std::max<quad>(ax, 1e-3), Ly = std::max<quad>(ay, 1e-3), amp = 1;
    if (op == FMOD || op == REMAINDER || op == FMAX || op == FMIN || op == DIV) Lx = Ly = std::max(ax, ay);
    if (op == HYPOT || op == ATAN2) Lx = Ly = sqrtq(ax * ax + ay * ay);
    if (op == POW) {
        const quad l = A(logq(ax > 0 ? ax : 1));
        Lx = ax > 0 ? ax / (1 + ay) : 1; Ly = 1 / (1 + l);
        amp = 1 + ay * (1 + l) + ay;
    }
    const quad tx = K1 * e * amp * (A(r.dx) + A(r.f) / Lx), ty = K1 * e * amp * (A(r.dy) + A(r.f) / Ly);
    const quad txx = K2 * e * amp * (A(r.dxx) + A(r.dx) / Lx + A(r.f) / Lx / Lx), tyy = K2 * e * amp * (A(r.dyy) + A(r.dy) / Ly + A(r.f) / Ly / Ly);
    const quad txy = K2 * e * amp * (A(r.dxy) + A(r.dx) / Ly + A(r.dy) / Lx + A(r.f) / Lx / Ly);
    (void)txx; (void)tyy; (void)txy;
    const U x = mk<U>(x0, Real(1)), y = mk<U>(y0, Real(1)), v = lib2<U>(op, x, U(y0));
    h::where(op2_name[op]);
    auto cmp = [&](const char *obs, Real got, quad want, quad tol) {
        c.eval();
        if (!(A(quad(got) - want) <= tol)) c.viol(std::string("extreme-") + obs + ":" + op2_name[op], std::string(obs) + " of " + op2_name[op] + "(" + q2s(x0) + "," + q2s(y0) + ") " + Name<Real>::s() + " got " + q2s(quad(got)) + " want " + q2s(want) + " tol " + q2s(tol));
    };
    if (normal<Real>(r.f)) cmp("value", n1(v), r.f, K0 * e * (A(r.f) * amp + ax * A(r.dx) + ay * A(r.dy)));
    if (normal<Real>(r.dx)) { cmp("dx-const-second", U(v).grad(x), r.dx, tx); c.count(std::string("extreme op ") + op2_name[op]); }
#if ORDER == 2
    if (normal<Real>(r.dx) && normal<Real>(r.dxx)) cmp("dxx-const-second", U(v).hess(x, x), r.dxx, txx);
#endif
    c.distinct(h::mix(uint64_t(op) + 1100, h::mix(h::bits(double(x0)), h::mix(h::bits(double(y0)), sizeof(Real)))));
    if (yc_only) return;
    const U z = lib2<U>(op, x, y), w = lib2<U>(op, U(x0), y);
    if (normal<Real>(r.dx)) cmp("dx", U(z).grad(x), r.dx, tx);
    if (normal<Real>(r.dy)) { cmp("dy", U(z).grad(y), r.dy, ty); cmp("dy-const-first", U(w).grad(y), r.dy, ty); }
#if ORDER == 2
    if (normal<Real>(r.dx) && normal<Real>(r.dxx)) cmp("dxx", U(z).hess(x, x), r.dxx, txx);
    if (normal<Real>(r.dy) && normal<Real>(r.dyy)) cmp("dyy", U(z).hess(y, y), r.dyy, tyy);
    if (normal<Real>(r.dx) && normal<Real>(r.dy) && normal<Real>(r.dxy)) cmp("dxy", U(z).hess(x, y), r.dxy, txy);
#endif
}

// ---- functions of one argument -------------------------------------------
template<class U> void test1(h::Ctx &c, int op, typename U::real_type x0, typename U::real_type s0) {
    using Real = typename U::real_type;
    const double e = eps<Real>();
    const fd::R1 r = fd::ref1(op, quad(x0));
    // the two oracles must agree
    const J1<quad> j = jet1<quad>(op, quad(x0));
    const double L = fd::dist1(op, double(x0));
    const double a = std::fabs(double(r.f)), a1 = std::fabs(double(r.d)), a2 = std::fabs(double(r.dd)), a3 = std::fabs(double(r.ddd)), ax = std::fabs(double(x0));
    const quad qL = L, q0 = fabsq(r.f), q1 = fabsq(r.d), q2 = fabsq(r.dd);
    if (!(fabsq(j.d - r.d) <= 1e-20Q * (q1 + q0 / qL)) || !(fabsq(j.dd - r.dd) <= 1e-17Q * (q2 + q1 / qL + q0 / qL / qL))) {
        std::fprintf(stderr, "oracle disagreement %s at %.17g\n", op1_name[op], double(x0));
        std::_Exit(3);
    }
    c.count("oracle agreements");
    if ((r.f != 0 && !normal<Real>(r.f)) || !fits<Real>(r.d, s0) || (ORDER == 2 && !fits<Real>(r.dd, s0 * s0))) return extreme1<U>(c, op, x0, r);
    const double M = std::max(ax, std::min(1.0, L));  // scale of the absolute part
    const double t0 = K0 * e * (a + ax * a1) + 1e-300;
    const double t1 = K1 * e * (a1 + ax * a2) + 4 * K0 * e * a / M;
    const double t2 = K2 * e * (a2 + ax * a3) + 40 * K0 * e * (a1 / M + a / M / M);
    Cmp<Real> cmp { c, op1_name[op], std::string("(") + h::num(double(x0)) + ") " + Name<Real>::s() };
    h::where(cmp.what + cmp.at);
    c.count(std::string("op ") + op1_name[op]);
    c.distinct(h::mix(uint64_t(op), h::mix(h::bits(double(x0)), sizeof(Real))));
    const U x = mk<U>(x0, s0);
    const U y = lib1<U>(op, x);
    const quad q = r.d * quad(s0);
    cmp("value", n1(y), r.f, t0);
    cmp("derivative", U(y).grad(x), r.d, t1);
#if ORDER == 1
    cmp("sdev", y.s(), q < 0 ? -q : q, t1 * double(s0) * 1.01);
    cmp("cov", cov(y, x), q * quad(s0), 1.01 * t1 * double(s0) * double(s0));
    cmp("cov", cov(x, y), q * quad(s0), 1.01 * t1 * double(s0) * double(s0));
    // argument depending on two variables, its mean is exactly x0
    const U a0(Real(0), s0), b0(x0, Real(2) * s0);
    U d = a0 - b0; d = -d;            // x0, derivatives -1 and 1
    const U z = lib1<U>(op, d);
    cmp("value", n1(z), r.f, t0);
    cmp("cov-dep", cov(z, a0), -q * quad(s0), 1.01 * t1 * double(s0) * double(s0));
    cmp("cov-dep", cov(b0, z), 4 * q * quad(s0), 4.04 * t1 * double(s0) * double(s0));
    cmp("grad-dep", z.grad(a0), -r.d, 1.01 * t1);
#else
    cmp("second derivative", y.hess(x, x), r.dd, t2);
    // linear combination of two variables, mean exactly x0
    const U a0 = mk<U>(Real(0), s0), b0 = mk<U>(x0, Real(2) * s0);
    U d = a0 - b0; d = -d;
    const U z = lib1<U>(op, d);
    cmp("value", n1(z), r.f, t0);
    cmp("grad-dep", z.grad(a0), -r.d, 1.01 * t1);
    cmp("grad-dep", z.grad(b0), r.d, 1.01 * t1);
    cmp("hess-dep", z.hess(a0, a0), r.dd, 1.01 * t2);
    cmp("hess-dep", z.hess(b0, b0), r.dd, 1.01 * t2);
    cmp("hess-dep", z.hess(a0, b0), -r.dd, 1.01 * t2);
    cmp("hess-dep", z.hess(b0, a0), -r.dd, 1.01 * t2);
#endif
    // number without uncertainty
    const U k = lib1<U>(op, U(x0));
    cmp("value-of-constant", n1(k), r.f, t0);
    c.check(k.s() == 0 && k.isindep() && k.indepid() == 0, "constant-gets-uncertainty:" + cmp.what, [&] { return cmp.what + cmp.at; });
}

// ---- functions of two arguments ----------------------------------------------
template<class U> void test2(h::Ctx &c, int op, typename U::real_type x0, typename U::real_type y0,
                             typename U::real_type sx, typename U::real_type sy) {
    using Real = typename U::real_type;
    const double e = eps<Real>();
    const bool yc_only = op == POW && double(x0) <= 0;   // log of the base: only with constant exponent
    fd::R2 r;
    const J2<quad> j = jet2<quad>(op, quad(x0), quad(y0), yc_only);
    if (op == POW && x0 == 0) { r.f = j.f; r.dx = j.dx; r.dxx = j.dxx; r.dy = r.dyy = r.dxy = 0; }
    else r = fd::ref2(op, quad(x0), quad(y0), yc_only);
    auto A = [](quad z) { return std::fabs(double(z)); };
    const double ax = A(quad(x0)), ay = A(quad(y0));
    double Lx = std::max(ax, 1e-3), Ly = std::max(ay, 1e-3);
    if (op == FMOD || op == REMAINDER || op == FMAX || op == FMIN || op == DIV) Lx = Ly = std::max(ax, ay);
    if (op == HYPOT || op == ATAN2) Lx = Ly = std::hypot(ax, ay);
    if (op == POW) Lx /= 1 + ay;
    if (op == POW) Ly = 1 / (1 + A(quad(std::log(double(x0) > 0 ? double(x0) : 1))));
    const double f = A(r.f);
    auto B = [](quad z) { return fabsq(z); };
    const quad qx = Lx, qy = Ly, qf = B(r.f), pw = op == FMOD || op == REMAINDER ? 1 : 0;
    if (!(B(j.dx - r.dx) <= 1e-19Q * (B(r.dx) + qf / qx)) || !(B(j.dxx - r.dxx) <= 1e-15Q * (B(r.dxx) + B(r.dx) / qx + qf / qx / qx + 1e-3Q * pw))
        || (!yc_only && (!(B(j.dy - r.dy) <= 1e-19Q * (B(r.dy) + qf / qy)) || !(B(j.dyy - r.dyy) <= 1e-15Q * (B(r.dyy) + B(r.dy) / qy + qf / qy / qy + (op == POW ? 1 : 0)))
            || !(B(j.dxy - r.dxy) <= 1e-14Q * (B(r.dxy) + B(r.dx) / qy + B(r.dy) / qx + qf / qx / qy + (op == POW ? 1e-3Q : 0)))))) {
        std::fprintf(stderr, "oracle disagreement %s at %.17g %.17g\n", op2_name[op], double(x0), double(y0));
        std::_Exit(3);
    }
    c.count("oracle agreements");
    if ((r.f != 0 && !normal<Real>(r.f)) || !fits<Real>(r.dx, sx) || !fits<Real>(r.dy, sy)
        || (ORDER == 2 && (!fits<Real>(r.dxx, sx * sx) || !fits<Real>(r.dyy, sy * sy) || !fits<Real>(r.dxy, sx * sy)))) {
        return extreme2<U>(c, op, x0, y0, r, yc_only);
    }
    // conditioning: effect of one unit of rounding on each argument
    double amp = 1;
    if (op == POW) amp = 1 + ay * (1 + A(quad(std::log(ax > 0 ? ax : 1)))) + ay;
    if (op == FMOD || op == REMAINDER) amp = 1;
    const double t0 = K0 * e * (op == FMOD || op == REMAINDER ? f : f * amp + ax * A(r.dx) + ay * A(r.dy)) + 1e-300;
    const double tx = K1 * e * amp * (A(r.dx) + f / Lx), ty = K1 * e * amp * (A(r.dy) + f / Ly);
    const double txx = K2 * e * amp * (A(r.dxx) + A(r.dx) / Lx + f / Lx / Lx), tyy = K2 * e * amp * (A(r.dyy) + A(r.dy) / Ly + f / Ly / Ly);
    const double txy = K2 * e * amp * (A(r.dxy) + A(r.dx) / Ly + A(r.dy) / Lx + f / Lx / Ly);
    (void)txx; (void)tyy; (void)txy;
    Cmp<Real> cmp { c, op2_name[op], std::string("(") + h::num(double(x0)) + "," + h::num(double(y0)) + ") " + Name<Real>::s() };
    h::where(cmp.what + cmp.at);
    c.count(std::string("op ") + op2_name[op] + " quadrant " + std::to_string((x0 < 0) * 2 + (y0 < 0)));
    c.distinct(h::mix(uint64_t(op) + 100, h::mix(h::bits(double(x0)), h::mix(h::bits(double(y0)), sizeof(Real)))));
    const U x = mk<U>(x0, sx), y = mk<U>(y0, sy);
    if (!yc_only) {
        const U z = lib2<U>(op, x, y);
        cmp("value", n1(z), r.f, t0);
        cmp("dx", z.grad(x), r.dx, tx);
        cmp("dy", z.grad(y), r.dy, ty);
#if ORDER == 1
        cmp("cov-x", cov(z, x), r.dx * quad(sx) * quad(sx), 1.01 * tx * double(sx) * double(sx));
        cmp("cov-y", cov(y, z), r.dy * quad(sy) * quad(sy), 1.01 * ty * double(sy) * double(sy));
        const quad vx = r.dx * quad(sx), vy = r.dy * quad(sy);
        const quad S = sqrtq(vx * vx + vy * vy);
        cmp("sdev", z.s(), S, 1.01 * (tx * double(sx) + ty * double(sy)) + 8 * e * double(S) + 1e-300);
#else
        cmp("dxx", z.hess(x, x), r.dxx, txx);
        cmp("dyy", z.hess(y, y), r.dyy, tyy);
        cmp("dxy", z.hess(x, y), r.dxy, txy);
        cmp("dyx", z.hess(y, x), r.dxy, txy);
#endif
        // the first argument is a number
        const U w = lib2<U>(op, U(x0), y);
        cmp("value-const-first", n1(w), r.f, t0);
        cmp("dy-const-first", U(w).grad(y), r.dy, ty);
        cmp("dx-const-first", U(w).grad(x), 0, 0);
#if ORDER == 2
        cmp("dyy-const-first", w.hess(y, y), r.dyy, tyy);
#endif
        // reversed identities: arguments created in the other order
        const U y2 = mk<U>(y0, sy), x2 = mk<U>(x0, sx);
        const U z2 = lib2<U>(op, x2, y2);
        cmp("dx-reversed-ids", z2.grad(x2), r.dx, tx);
        cmp("dy-reversed-ids", z2.grad(y2), r.dy, ty);
#if ORDER == 2
        cmp("dxy-reversed-ids", z2.hess(x2, y2), r.dxy, txy);
        cmp("dxx-reversed-ids", z2.hess(x2, x2), r.dxx, txx);
        cmp("dyy-reversed-ids", z2.hess(y2, y2), r.dyy, tyy);
#endif
    }
    const U v = lib2<U>(op, x, U(y0));
    cmp("value-const-second", n1(v), r.f, t0);
    cmp("dx-const-second", U(v).grad(x), r.dx, tx);
    cmp("dy-const-second", U(v).grad(y), 0, 0);
#if ORDER == 2
    cmp("dxx-const-second", v.hess(x, x), r.dxx, txx);
    cmp("dxy-const-second", v.hess(x, y), 0, 0);
#else
    cmp("sdev-const-second", v.s(), fabsq(r.dx) * quad(sx), 1.01 * tx * double(sx));
#endif
    const U k = lib2<U>(op, U(x0), U(y0));
    cmp("value-const-both", n1(k), r.f, t0);
    c.check(k.s() == 0, "constant-gets-uncertainty:" + cmp.what, [&] { return cmp.what + cmp.at; });
}

template<class Real> double widest() { return std::min(0.95 * std::numeric_limits<Real>::max_exponent10, 290.0); }
// exponent range where no fourth power leaves the range of the type
template<class Real> double wide() { return std::min(0.24 * std::numeric_limits<Real>::max_exponent10, 70.0); }

template<class Real> Real arg1(h::Rng &r, int op) {
    const double lm = std::min(std::log(double(std::numeric_limits<Real>::max())), 700.0);
    const bool fl = std::numeric_limits<Real>::digits < 30;
    const double em = ORDER == 2 ? 0.45 : std::numeric_limits<Real>::digits < 30 ? 0.7 : 0.9;  // the squares of second derivatives must be numbers too
    double lim = 0;
    switch (op) {
    case EXP: case EXPM1: case SINH: case COSH: lim = em * lm; break;
    case EXP2: lim = 1.4 * em * lm; break;
    case TANH: lim = 0.4 * lm; break;
    case ERF: case ERFC: lim = fl ? 8.5 : 25.5; break;
    case SIN: case COS: case TAN: lim = fl ? 1e3 : 1e5; break;
    }

    static const double sp[] = { 0, 1, -1, 0.5, -0.5, 2, -2, 3, 10, 0.25, -0.75, 1.5 };
    for (;;) {
        double x;
        const int k = r.below(10);
        if (k < 3) x = sp[r.below(12)];
        else if (k < 6) x = r.normal() * 2;
        else if (k < 8) x = r.uni(-1.2, 1.2);
        else {
            x = r.logu(-10, 10) * (r.chance(0.5) ? 1 : -1);
            if (r.chance(0.5)) x = r.logu(-wide<Real>(), wide<Real>()) * (r.chance(0.5) ? 1 : -1);
            if (r.chance(0.25)) x = r.logu(-widest<Real>(), widest<Real>()) * (r.chance(0.5) ? 1 : -1);
            if (lim > 0) {
                if (r.chance(0.5)) x = r.uni(-lim, lim);
                else if (std::fabs(x) > lim) continue;
            }
        }
        const Real xr = Real(x) * (k >= 3 ? Real(1) + Real(r.below(1000)) * std::numeric_limits<Real>::epsilon() : Real(1));
        x = double(xr);
        bool ok = true;
        switch (op) {
        case ABS: case CBRT: ok = x != 0; break;
        case LOG: case LOG10: case LOG2: case SQRT: ok = x > 0; break;
        case LOG1P: ok = x > -0.999; break;
        case TAN: ok = std::fabs(std::cos(x)) > 0.02; break;
        case ASIN: case ACOS: case ATANH: ok = std::fabs(x) < 0.999; break;
        case ACOSH: ok = x > 1.001; break;
        default: if (lim > 0) ok = std::fabs(x) <= lim;
        }
        if (ok) return xr;
    }
}
template<class Real> void args2(h::Rng &r, int op, Real &xr, Real &yr) {
    static const double sp[] = { 0, 1, -1, 0.5, -0.5, 2, -2, 3, -3, 10 };
    const double qmax = std::numeric_limits<Real>::digits < 30 ? 1e3 : 1e6;
    for (;;) {
        auto one = [&] {
            const int k = r.below(10);
            if (k < 3) return sp[r.below(10)];
            if (k < 8) return r.normal() * 2;
            return r.logu(-5, 5) * (r.chance(0.5) ? 1 : -1);
        };
        xr = Real(one()); yr = Real(one());
        double sc0 = 1;
        // functions that commute with a common scale
        if (r.chance(0.25) && (op == DIV || op == HYPOT || op == ATAN2 || op == FMOD || op == REMAINDER || op == FMAX || op == FMIN)) {
            const double sc = r.chance(0.3) ? r.logu(-widest<Real>(), widest<Real>()) : r.logu(-wide<Real>() / 2, wide<Real>() / 2);
            sc0 = sc;
            xr = Real(double(xr) * sc); yr = Real(double(yr) * sc);
            if (!std::isfinite(xr) || !std::isfinite(yr) || (xr != 0 && !std::isnormal(xr)) || (yr != 0 && !std::isnormal(yr))) continue;
        }
        double x = double(xr), y = double(yr);
        if (op == POW && r.chance(0.15)) { // the power, or only one of its derivatives, is at the end of the range
            const double W = widest<Real>();
            x = std::fabs(double(Real(r.logu(-W, W))));
            const double l = std::log10(x), t = r.uni(-1.06, 1.0) * W / 0.95;
            yr = Real(r.chance(0.5) ? std::round(t / l) : t / l + r.range(0, 2));
            y = double(yr);
            xr = Real(x) * (r.chance(0.3) && y == std::floor(y) ? Real(-1) : Real(1));
            if (std::fabs(l) < 0.5 || std::fabs(y) > 200 || y == 0 || y * l > 0.99 * std::numeric_limits<Real>::max_exponent10 || std::fabs((y - 2) * l) > 4000) continue;
            return;
        }
        bool ok = true;
        switch (op) {
        case POW:
            if (x == 0) { yr = Real(r.range(0, 5)); }
            else if (x < 0) { yr = Real(r.range(-5, 5)); }
            else ok = std::fabs(y) < 30 && std::fabs(y * std::log(x)) < 20;
            if (x < 0) ok = std::fabs(double(yr) * std::log(-x)) < 20;
            break;
        case DIV: ok = y != 0; break;
        case HYPOT: ok = std::hypot(x, y) > 1e-6 * std::min(sc0, 1.0); break;
        case ATAN2: ok = std::hypot(x, y) > 1e-6 * std::min(sc0, 1.0) && !(y <= 0 && std::fabs(x) < 1e-3 * std::fabs(y)); break;
        case FMOD: { const double q = std::fabs(x / y), f = q - std::floor(q); ok = y != 0 && q < qmax && (q < 0.95 || (f > 0.05 && f < 0.95)); break; }
        case REMAINDER: { const double q = std::fabs(x / y), f = q - std::floor(q); ok = y != 0 && q < qmax && std::fabs(f - 0.5) > 0.05; break; }
        case FMAX: case FMIN: ok = std::fabs(x - y) > 1e-3 * (std::fabs(x) + std::fabs(y)); break;
        }
        if (ok) return;
    }
}

template<class U> void point(h::Ctx &c) {
    using Real = typename U::real_type;
    h::Rng &r = c.rng;
    const Real sx = Real(r.chance(0.3) ? 1.0 : r.logu(-6, 3)), sy = Real(r.logu(-6, 3));
    const int k = r.below(N_OP1 + 2 * N_OP2);
    if (k < N_OP1) test1<U>(c, k, arg1<Real>(r, k), sx);
    else {
        const int op = (k - N_OP1) % N_OP2;
        Real x, y;
        args2<Real>(r, op, x, y);
        test2<U>(c, op, x, y, sx, sy);
    }
}
void run_case(h::Ctx &c) {
    for (int i = 0; i < 20; ++i) {
#if ORDER == 1
        switch (c.rng.below(4)) {
        case 0: point<unc::UReal<float>>(c); break;
        case 1: point<unc::UReal<long double>>(c); break;
        default: point<unc::udouble>(c);
        }
#else
#if PART == 1
        if (c.rng.below(3) == 0) point<unc::ufloat2e>(c);
        else point<unc::udouble2e>(c);
#else
        if (c.rng.below(3) == 0) point<unc::UReal2M<long double>>(c);
        else point<unc::udouble2m>(c);
#endif
#endif
    }
}

template<class U> void grid(h::Ctx &c) {
    using Real = typename U::real_type;
    const double pts[] = { -3, -2, -1.5, -1, -0.75, -0.5, -0.25, -1e-3, 0, 1e-3, 0.25, 0.5, 0.75, 1, 1.5, 2, 3, 1e-8, -1e-8, 7, -7 };
    for (int op = 0; op < N_OP1; ++op) for (double x : pts) {
        bool ok = true;
        switch (op) {
        case ABS: case CBRT: ok = x != 0; break;
        case LOG: case LOG10: case LOG2: case SQRT: ok = x > 0; break;
        case LOG1P: ok = x > -1; break;
        case ASIN: case ACOS: case ATANH: ok = std::fabs(x) < 1; break;
        case ACOSH: ok = x > 1; break;
        case ERF: case ERFC: ok = std::fabs(x) < 5; break;
        }
        if (ok) test1<U>(c, op, Real(x), Real(0.5));
    }
    for (int op = 0; op < N_OP2; ++op) for (double x : pts) for (double y : pts) {
        const double q = y != 0 ? std::fabs(x / y) : 0, f = q - std::floor(q);
        bool ok = true;
        switch (op) {
        case DIV: ok = y != 0; break;
        case POW: ok = x > 0 ? true : y == std::floor(y) && (x < 0 || y >= 0); break;
        case HYPOT: ok = std::hypot(x, y) > 0; break;
        case ATAN2: ok = std::hypot(x, y) > 0 && !(y <= 0 && std::fabs(x) < 1e-2 * std::fabs(y)); break;
        case FMOD: ok = y != 0 && q < 90 && (q < 0.95 || (f > 0.05 && f < 0.95)); break;
        case REMAINDER: ok = y != 0 && q < 90 && std::fabs(f - 0.5) > 0.05; break;
        case FMAX: case FMIN: ok = std::fabs(x - y) > 1e-3 * (std::fabs(x) + std::fabs(y)); break;
        }
        if (ok) test2<U>(c, op, Real(x), Real(y), Real(0.5), Real(0.25));
    }
}

void run_once(h::Ctx &c) {
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
#if ORDER == 1
    grid<unc::udouble>(c);
    grid<unc::UReal<long double>>(c);
    using unc::isfinite; using unc::isnormal;
    struct { unc::udouble x; bool f, n; } t[] = {
        { unc::udouble(1, 1), true, true }, { unc::udouble(1), true, false }, { unc::udouble(0, 1), true, false },
        { unc::udouble(inf, 1), false, false }, { unc::udouble(1, inf), false, false }, { unc::udouble(nan, 1), false, false },
        { unc::udouble(1, nan), false, false }, { unc::udouble(-inf, 1), false, false }, { unc::udouble(1e-310, 1), true, false },
        { unc::udouble(1, 1e-310), true, false }, { unc::udouble(-2, 3), true, true },
        { unc::udouble(1, 1) + unc::udouble(1, 1), true, true }, { unc::udouble(1, 1) * unc::udouble(inf, 1), false, false },
    };
    int k = 0;
    for (auto &q : t) {
        c.check(isfinite(q.x) == q.f, "isfinite", [&] { return "row " + std::to_string(k); });
        c.check(isnormal(q.x) == q.n, "isnormal", [&] { return "row " + std::to_string(k); });
        ++k;
    }
#else
#if PART == 1
    using U = unc::udouble2e;
#else
    using U = unc::udouble2m;
#endif
    grid<U>(c);
    using unc::isfinite; using unc::isnormal;
    const std::array<double, 6> m {{ 0, 3, 0, 15, 0, 105 }};
    auto mkx = [&](double n, double s) { return U(n, s, m); };
    const U x = mkx(1, 1), y = mkx(2, 1);
    struct { U v; bool f; } t[] = {
        { x, true }, { U(1), true }, { U(inf), false }, { U(nan), false }, { mkx(inf, 1), false }, { mkx(1, inf), false },
        { x * y, true }, { exp(x) * y + log(y), true },
        { unary(x, 1.0, inf, 0.0), false }, { unary(x, 1.0, 1.0, inf), false }, { unary(x, nan, 1.0, 1.0), false },
        { binary(x, y, 1.0, 1.0, 1.0, 0.0, 0.0, inf), false }, { binary(x, y, 1.0, 1.0, 1.0, 0.0, 0.0, nan), false },
        { binary(x, y, 1.0, 1.0, inf, 0.0, 0.0, 1.0), false }, { binary(x, y, 1.0, 1.0, 1.0, 0.0, inf, 1.0), false },
    };
    int k = 0;
    for (auto &q : t) { c.check(isfinite(q.v) == q.f, "isfinite", [&] { return "row " + std::to_string(k); }); ++k; }
    c.check(isnormal(U(1)), "isnormal", [] { return "1"; });
    c.check(!isnormal(U(0)), "isnormal", [] { return "0"; });
    c.check(!isnormal(U(1e-310)), "isnormal", [] { return "subnormal"; });
    c.check(isnormal(binary(x, y, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0)), "isnormal", [] { return "all ones"; });
    c.check(!isnormal(binary(x, y, 1.0, 1.0, 1.0, 1.0, 1.0, 1e-310)), "isnormal", [] { return "subnormal mixed"; });
    c.check(!isnormal(binary(x, y, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0)), "isnormal", [] { return "zero mean"; });
#endif
}
