// C15: function factories. The functions given to the factories are logged and
// arbitrary (the derivatives need not be those of the function), so that the
// monitor sees exactly what was attached to what.
#include "obs.hpp"
#include <uncertainties/impl.hpp>
#include <memory>
using namespace prog;
typedef quad Q;
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
static const double REPS = double(std::numeric_limits<R>::epsilon());
static const double EPS = std::max(REPS, 2.3e-16); // results are compared as doubles

// an arbitrary deterministic function with values of order one, rough on purpose
struct Fn {
    double a, b, c, w;
    int calls_limit;
    std::shared_ptr<std::vector<double>> log;
    std::shared_ptr<std::vector<double>> data; // owned state, to detect dangling captures
    double ul = 1, uf = 1, off = 0;            // units of the arguments and of the result, powers of two; origin of the arguments
    Fn in(double l, double F, double o) const { Fn g(*this); g.ul = l; g.uf = F; g.off = o; return g; }
    Fn(h::Rng &r, std::shared_ptr<std::vector<double>> l = nullptr): a(r.uni(-2, 2)), b(r.uni(-2, 2)), c(r.uni(-3, 3)), w(r.pick(std::vector<double>{ 0.3, 1, 7 })), calls_limit(0), log(l), data(new std::vector<double>{ a, b, c, w }) {}
    template<class T> T at(const T &x0, const T &y0) const {
        const std::vector<double> &k = *data;
        if (ul != 1 || uf != 1 || off != 0) { Fn g(*this); const double l = ul, F = uf, o = off; g.ul = g.uf = 1; g.off = 0; return T(F) * g.at<T>(T((x0 - T(o)) / T(l)), T((y0 - T(o)) / T(l))); }
        const T &x = x0, &y = y0;
        using std::sin;
        return T(sin(T(k[3]) * (T(k[0]) * x + T(k[1]) * y + T(k[2]))) + T(k[1]) * x * y + T(k[0]) * y);
    }
    // exact derivatives, in quad
    void deriv(Q x, Q y, Q &f, Q &fx, Q &fy, Q &fxx, Q &fyy, Q &fxy) const {
        const Q u = Q(w) * (Q(a) * x + Q(b) * y + Q(c)), s = sinq(u), k = cosq(u), wa = Q(w) * Q(a), wb = Q(w) * Q(b);
        f = s + Q(b) * x * y + Q(a) * y;
        fx = wa * k + Q(b) * y; fy = wb * k + Q(b) * x + Q(a);
        fxx = -wa * wa * s; fyy = -wb * wb * s; fxy = -wa * wb * s + Q(b);
    }
};
template<class T> struct F1 { Fn f; T operator()(const T &x) const { if (f.log) f.log->push_back(double(x)); return f.at<T>(x, T(0.5 * f.ul + f.off)); } };
template<class T> struct F2 { Fn f; T operator()(const T &x, const T &y) const { if (f.log) { f.log->push_back(double(x)); f.log->push_back(double(y)); } return f.at<T>(x, y); } };

template<class T> static T fo(const unc::UReal<T> &x) { return x.n(); }
template<class T, unc::Prop P> static T fo(const unc::UReal2<T, P> &x) { return x.first_order_n(); }

template<class U> struct Args { U x, y; std::vector<U> ind; bool plain; };
template<class U> static Args<U> args(h::Ctx &c) {
    h::Rng &r = c.rng;
    Args<U> a;
    const R n1 = R(r.chance(0.3) ? double(r.range(-2, 2)) : r.uni(-2, 2)), n2 = R(r.uni(-2, 2));
    const R s1 = R(r.uni(0.1, 0.6)), s2 = R(r.uni(0.1, 0.6));
    a.ind.push_back(Ops<U>::make(n1, s1, r.below(4)));
    a.ind.push_back(Ops<U>::make(n2, s2, r.below(4)));
    const int k = r.below(6);
    a.plain = k < 3;
    a.x = a.ind[0]; a.y = a.ind[1];
    if (k == 3) { a.x = a.ind[0] * a.ind[1]; a.y = a.ind[0] + a.ind[0] * a.ind[0]; }
    if (k == 4) { a.y = a.x; }
    if (k == 5) { a.y = U(n2); }
    static const char *nm[6] = { "independent arguments", "independent arguments", "independent arguments", "dependent arguments", "twice the same argument", "constant argument" };
    c.count(nm[k]);
    return a;
}
struct Cmp {
    h::Ctx &c;
    std::string what;
    void num(const char *key, double got, double want, double tol) {
        c.eval();
        if (!(std::fabs(got - want) <= tol)) c.viol(key, what + ": " + key + " got " + h::num(got) + " want " + h::num(want) + " tol " + h::num(tol));
    }
    template<class U> void same(const char *key, const U &a, const U &b, const Args<U> &g, double rel, double abs_) {
        std::vector<U> refs { g.x, g.y };
        const std::string d = obs::diff(obs::observe(a, refs, g.ind), obs::observe(b, refs, g.ind), std::max(rel, 1e3 * EPS), abs_ + 1e3 * EPS);
        c.eval();
        if (!d.empty()) c.viol(key, what + ": " + d);
    }
};
// the function object is used after everything it was built from is gone, and through copies
template<class Fun> static Fun shuffled(h::Rng &r, Fun f) {
    Fun g = f;
    f = nullptr;
    if (r.chance(0.5)) { std::unique_ptr<Fun> p(new Fun(g)); Fun k = *p; g = Fun(); p.reset(); g = k; }
    // overwrite the stack
    volatile char junk[512]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = char(0xA5);
    return g;
}
static R *heapstep(double s) { return new R(R(s)); }

static double gen_step(h::Rng &r) { return r.chance(0.5) ? std::ldexp(1.0, r.range(-6, 1)) : r.uni(0.05, 1.5); }

static void first_order(h::Ctx &c) {
    using U = unc::UReal<R>;
    h::Rng &r = c.rng;
    const Args<U> g = args<U>(c);
    const R xn = g.x.n(), yn = g.y.n();
    Fn f(r), d1(r), d2(r);
    Cmp q { c, "" };
    const int k = r.below(6);
    const double st = gen_step(r);
    std::ostringstream o; o << "first order kind " << k << " x " << double(xn) << " y " << double(yn) << " step " << st << " f " << f.a << " " << f.b << " " << f.c << " " << f.w;
    q.what = o.str(); h::where(q.what); c.distinct(h::hash_str(q.what)); c.sample(q.what);
    c.count("factory 1." + std::to_string(k));
    if (k == 0) {
        unc::UUnary<R> u;
        { std::unique_ptr<F1<R>> a(new F1<R>{ f }), b(new F1<R>{ d1 }); unc::Unary<R> fa = *a, fb = *b; u = unc::uunary<R>(fa, fb); }
        u = shuffled(r, u);
        for (int rep = 0; rep < 2; ++rep) {
            const U z = u(g.x);
            const R d = d1.at<R>(xn, R(0.5));
            q.num("value", double(z.n()), double(f.at<R>(xn, R(0.5))), 0);
            q.same("derivative", z, unary(g.x, f.at<R>(xn, R(0.5)), d), g, 4 * EPS, 1e-300);
            if (g.plain) q.num("derivative", double(z.grad(g.x)), double(d), 8 * EPS * std::fabs(double(d)));
        }
    } else if (k == 1) {
        unc::UBinary<R> u;
        { std::unique_ptr<F2<R>> a(new F2<R>{ f }), b(new F2<R>{ d1 }), e(new F2<R>{ d2 }); unc::Binary<R> fa = *a, fb = *b, fe = *e; u = unc::ubinary<R>(fa, fb, fe); }
        u = shuffled(r, u);
        for (int rep = 0; rep < 2; ++rep) {
            const U z = u(g.x, g.y);
            const R dx = d1.at<R>(xn, yn), dy = d2.at<R>(xn, yn);
            q.num("value", double(z.n()), double(f.at<R>(xn, yn)), 0);
            q.same("derivative", z, binary(g.x, g.y, f.at<R>(xn, yn), dx, dy), g, 8 * EPS, 8 * EPS);
            if (g.plain) { q.num("derivative", double(z.grad(g.x)), double(dx), 8 * EPS * std::fabs(double(dx))); q.num("derivative", double(z.grad(g.y)), double(dy), 8 * EPS * std::fabs(double(dy))); }
        }
    } else if (k == 2 || k == 3) {
        unc::UUnary<R> u;
        { std::unique_ptr<F1<R>> a(new F1<R>{ f }); unc::Unary<R> fa = *a; std::unique_ptr<R> s(heapstep(st)); u = k == 2 ? unc::uunary<R>(fa, *s) : unc::uunary<R>(fa); }
        u = shuffled(r, u);
        const U z = u(g.x);
        const R f0 = f.at<R>(xn, R(0.5));
        q.num("value", double(z.n()), double(f0), 0);
        if (k == 2) {
            const R s = R(st), f1 = f.at<R>(R(xn + s), R(0.5));
            const double d = double((Q(f1) - Q(f0)) / Q(s)), t = 16 * EPS * (std::fabs(double(f1)) + std::fabs(double(f0))) / st + 1e-300;
            if (g.plain) q.num("forward-difference", double(z.grad(g.x)), d, t);
            q.same("forward-difference", z, unary(g.x, f0, R(d)), g, 1e-300, 30 * t + 1e-300);
        } else {
            Q v, fx, fy, fxx, fyy, fxy; f.deriv(Q(xn), Q(0.5), v, fx, fy, fxx, fyy, fxy);
            const double sc = 1 + f.w * std::fabs(f.a) + f.w * f.w * f.a * f.a + 3 * std::fabs(f.b) + 3 * std::fabs(f.a);
            if (g.plain) q.num("default-step", double(z.grad(g.x)), double(fx), 20 * std::sqrt(EPS) * (sc + f.w * f.w));
            const U z2 = unc::uunary<R>(F1<R>{ f }, unc::default_step<R>())(g.x);
            q.same("default-step-value", z, z2, g, 1e-300, 1e-300);
        }
    } else {
        unc::UBinary<R> u;
        { std::unique_ptr<F2<R>> a(new F2<R>{ f }); unc::Binary<R> fa = *a; std::unique_ptr<R> s(heapstep(st)); u = k == 4 ? unc::ubinary<R>(fa, *s) : unc::ubinary<R>(fa); }
        u = shuffled(r, u);
        const U z = u(g.x, g.y);
        const R f0 = f.at<R>(xn, yn);
        q.num("value", double(z.n()), double(f0), 0);
        if (k == 4) {
            const R s = R(st), f1 = f.at<R>(R(xn + s), yn), f2 = f.at<R>(xn, R(yn + s));
            const double m = std::fabs(double(f1)) + std::fabs(double(f2)) + std::fabs(double(f0)), t = 16 * EPS * m / st + 1e-300;
            const double dx = double((Q(f1) - Q(f0)) / Q(s)), dy = double((Q(f2) - Q(f0)) / Q(s));
            if (g.plain) { q.num("forward-difference", double(z.grad(g.x)), dx, t); q.num("forward-difference", double(z.grad(g.y)), dy, t); }
            q.same("forward-difference", z, binary(g.x, g.y, f0, R(dx), R(dy)), g, 1e-300, 100 * t + 1e-300 + 100 * EPS * (1 + dx * dx + dy * dy));
        } else {
            Q v, fx, fy, fxx, fyy, fxy; f.deriv(Q(xn), Q(yn), v, fx, fy, fxx, fyy, fxy);
            const double sc = 30 * (1 + f.w * f.w * (f.a * f.a + f.b * f.b) + std::fabs(f.a) + std::fabs(f.b) + f.w * f.w);
            if (g.plain) { q.num("default-step", double(z.grad(g.x)), double(fx), sc * std::sqrt(EPS)); q.num("default-step", double(z.grad(g.y)), double(fy), sc * std::sqrt(EPS)); }
            const U z2 = unc::ubinary<R>(F2<R>{ f }, unc::default_step<R>())(g.x, g.y);
            q.same("default-step-value", z, z2, g, 1e-300, 1e-300);
        }
    }
}

template<unc::Prop P> static void second_order(h::Ctx &c) {
    using U = unc::UReal2<R, P>;
    h::Rng &r = c.rng;
    const Args<U> g = args<U>(c);
    const R xn = fo(g.x), yn = fo(g.y);
    Fn f(r), e1(r), e2(r), e3(r), e4(r), e5(r);
    Cmp q { c, "" };
    const int k = r.below(9);
    const double st = gen_step(r);
    std::ostringstream o; o << "second order kind " << k << " x " << double(xn) << " y " << double(yn) << " step " << st << " f " << f.a << " " << f.b << " " << f.c << " " << f.w;
    q.what = o.str(); h::where(q.what); c.distinct(h::hash_str(q.what)); c.sample(q.what);
    c.count("factory 2." + std::to_string(k));
    const double sc = 30 * (1 + f.w) * (1 + f.w * f.w) * (1 + f.a * f.a + f.b * f.b) * (1 + std::fabs(f.a) + std::fabs(f.b)) * (1 + std::fabs(f.a) + std::fabs(f.b));
    auto H = R(0.5);
    // judges z against given value and derivatives
    auto judge1 = [&](const char *key, const U &z, R v, double d, double dd, double td, double tdd) {
        q.num("value", double(fo(z)), double(v), 0);
        if (g.plain) { q.num(key, double(z.grad(g.x)), d, td); q.num(key, double(z.hess(g.x, g.x)), dd, tdd); }
        else q.same(key, z, unary(g.x, v, R(d), R(dd)), g, 1e-300, 3e4 * (td * (1 + std::fabs(d)) + tdd * (1 + std::fabs(dd))) * (1 + d * d + dd * dd) + 1e-300);
    };
    auto judge2 = [&](const char *key, const U &z, R v, double dx, double dy, double dxx, double dyy, double dxy, double td, double tdd) {
        q.num("value", double(fo(z)), double(v), 0);
        if (g.plain) {
            q.num(key, double(z.grad(g.x)), dx, td); q.num(key, double(z.grad(g.y)), dy, td);
            q.num(key, double(z.hess(g.x, g.x)), dxx, tdd); q.num(key, double(z.hess(g.y, g.y)), dyy, tdd);
            q.num(key, double(z.hess(g.x, g.y)), dxy, tdd); q.num(key, double(z.hess(g.y, g.x)), dxy, tdd);
        } else {
            const double m = 1 + std::fabs(dx) + std::fabs(dy) + std::fabs(dxx) + std::fabs(dyy) + std::fabs(dxy);
            q.same(key, z, binary(g.x, g.y, v, R(dx), R(dy), R(dxx), R(dyy), R(dxy)), g, 1e-300, 3e5 * (td + tdd) * m * m * m);
        }
    };
    if (k == 0) {
        unc::UUnary2<R, P> u;
        { unc::Unary<R> a = F1<R>{ f }, b = F1<R>{ e1 }, d = F1<R>{ e2 }; u = unc::uunary2<R, P>(a, b, d); }
        u = shuffled(r, u);
        const double d = double(e1.at<R>(xn, H)), dd = double(e2.at<R>(xn, H));
        for (int rep = 0; rep < 2; ++rep) judge1("derivative", u(g.x), f.at<R>(xn, H), d, dd, 8 * EPS * std::fabs(d), 16 * EPS * (std::fabs(dd) + std::fabs(d)));
    } else if (k == 1 || k == 2) {
        unc::UUnary2<R, P> u;
        { unc::Unary<R> a = F1<R>{ f }, b = F1<R>{ e1 }; std::unique_ptr<R> s(heapstep(st)); u = k == 1 ? unc::uunary2<R, P>(a, b, *s) : unc::uunary2<R, P>(a, b); }
        u = shuffled(r, u);
        const double d = double(e1.at<R>(xn, H));
        if (k == 1) {
            const R s = R(st), d1 = e1.at<R>(R(xn + s), H);
            judge1("forward-difference", u(g.x), f.at<R>(xn, H), d, double((Q(d1) - Q(e1.at<R>(xn, H))) / Q(s)), 8 * EPS * std::fabs(d), 16 * EPS * (std::fabs(double(d1)) + std::fabs(d)) / st + 1e-300);
        } else {
            Q v, fx, fy, fxx, fyy, fxy; e1.deriv(Q(xn), Q(0.5), v, fx, fy, fxx, fyy, fxy);
            const U z = u(g.x);
            if (g.plain) { const double s1 = 30 * (1 + e1.w * e1.w * (1 + e1.a * e1.a)) * (1 + std::fabs(e1.a) + std::fabs(e1.b)) * 3; q.num("default-step", double(z.hess(g.x, g.x)), double(fx), s1 * std::sqrt(EPS)); }
            q.same("default-step-value", z, unc::uunary2<R, P>(F1<R>{ f }, F1<R>{ e1 }, unc::default_step<R>())(g.x), g, 1e-300, 1e-300);
        }
    } else if (k == 3 || k == 4) {
        unc::UUnary2<R, P> u;
        { unc::Unary<R> a = F1<R>{ f }; std::unique_ptr<R> s(heapstep(st)); u = k == 3 ? unc::uunary2<R, P>(a, *s) : unc::uunary2<R, P>(a); }
        u = shuffled(r, u);
        const U z = u(g.x);
        if (k == 3) {
            const R s = R(st), c0 = f.at<R>(xn, H), fr = f.at<R>(R(xn + s), H), fl = f.at<R>(R(xn - s), H);
            const double m = std::fabs(double(c0)) * 2 + std::fabs(double(fr)) + std::fabs(double(fl));
            judge1("central-difference", z, c0, double((Q(fr) - Q(fl)) / (2 * Q(s))), double((Q(fr) + Q(fl) - 2 * Q(c0)) / (Q(s) * Q(s))), 16 * EPS * m / st, 16 * EPS * m / st / st);
        } else {
            Q v, fx, fy, fxx, fyy, fxy; f.deriv(Q(xn), Q(0.5), v, fx, fy, fxx, fyy, fxy);
            if (g.plain) { q.num("default-step", double(z.grad(g.x)), double(fx), sc * (1 + f.w) * std::sqrt(EPS)); q.num("default-step", double(z.hess(g.x, g.x)), double(fxx), sc * (1 + f.w) * (1 + f.w) * std::sqrt(EPS)); }
            q.same("default-step-value", z, unc::uunary2<R, P>(F1<R>{ f }, unc::default_step<R>(2))(g.x), g, 1e-300, 1e-300);
        }
    } else if (k == 5) {
        unc::UBinary2<R, P> u;
        { unc::Binary<R> a = F2<R>{ f }, b1 = F2<R>{ e1 }, b2 = F2<R>{ e2 }, b3 = F2<R>{ e3 }, b4 = F2<R>{ e4 }, b5 = F2<R>{ e5 }; u = unc::ubinary2<R, P>(a, b1, b2, b3, b4, b5); }
        u = shuffled(r, u);
        for (int rep = 0; rep < 2; ++rep)
            judge2("derivative", u(g.x, g.y), f.at<R>(xn, yn), double(e1.at<R>(xn, yn)), double(e2.at<R>(xn, yn)), double(e3.at<R>(xn, yn)), double(e4.at<R>(xn, yn)), double(e5.at<R>(xn, yn)), 80 * EPS, 200 * EPS);
    } else if (k == 6) {
        unc::UBinary2<R, P> u;
        { unc::Binary<R> a = F2<R>{ f }, b1 = F2<R>{ e1 }, b2 = F2<R>{ e2 }; std::unique_ptr<R> s(heapstep(st)); u = unc::ubinary2<R, P>(a, b1, b2, *s); }
        u = shuffled(r, u);
        const R s = R(st), d1 = e1.at<R>(xn, yn), d2 = e2.at<R>(xn, yn), d1x = e1.at<R>(R(xn + s), yn), d1y = e1.at<R>(xn, R(yn + s)), d2y = e2.at<R>(xn, R(yn + s));
        judge2("forward-difference", u(g.x, g.y), f.at<R>(xn, yn), double(d1), double(d2), double((Q(d1x) - Q(d1)) / Q(s)), double((Q(d2y) - Q(d2)) / Q(s)), double((Q(d1y) - Q(d1)) / Q(s)), 100 * EPS, 400 * EPS / st);
    } else if (k == 7) {
        unc::UBinary2<R, P> u;
        { unc::Binary<R> a = F2<R>{ f }; std::unique_ptr<R> s(heapstep(st)); u = unc::ubinary2<R, P>(a, *s); }
        u = shuffled(r, u);
        const R s = R(st), c0 = f.at<R>(xn, yn), rc = f.at<R>(R(xn + s), yn), lc = f.at<R>(R(xn - s), yn), cr = f.at<R>(xn, R(yn + s)), cl = f.at<R>(xn, R(yn - s)), rr = f.at<R>(R(xn + s), R(yn + s)), ll = f.at<R>(R(xn - s), R(yn - s));
        const double m = std::fabs(double(c0)) + std::fabs(double(rc)) + std::fabs(double(lc)) + std::fabs(double(cr)) + std::fabs(double(cl)) + std::fabs(double(rr)) + std::fabs(double(ll));
        const Q S = s;
        judge2("central-difference", u(g.x, g.y), c0, double((Q(rc) - Q(lc)) / (2 * S)), double((Q(cr) - Q(cl)) / (2 * S)),
            double((Q(rc) + Q(lc) - 2 * Q(c0)) / (S * S)), double((Q(cr) + Q(cl) - 2 * Q(c0)) / (S * S)),
            double((Q(rr) + Q(ll) - (Q(rc) + Q(lc) + Q(cr) + Q(cl)) + 2 * Q(c0)) / (2 * S * S)), 40 * EPS * m / st, 40 * EPS * m / st / st);
    } else {
        const U z = shuffled(r, unc::ubinary2<R, P>(F2<R>{ f }))(g.x, g.y);
        Q v, fx, fy, fxx, fyy, fxy; f.deriv(Q(xn), Q(yn), v, fx, fy, fxx, fyy, fxy);
        const double s2 = sc * (1 + f.w) * (1 + f.w) * 3;
        if (g.plain) {
            q.num("default-step", double(z.grad(g.x)), double(fx), s2 * std::sqrt(EPS)); q.num("default-step", double(z.grad(g.y)), double(fy), s2 * std::sqrt(EPS));
            q.num("default-step", double(z.hess(g.x, g.x)), double(fxx), s2 * std::sqrt(EPS)); q.num("default-step", double(z.hess(g.y, g.y)), double(fyy), s2 * std::sqrt(EPS)); q.num("default-step", double(z.hess(g.x, g.y)), double(fxy), s2 * std::sqrt(EPS));
        }
        q.same("default-step-value", z, unc::ubinary2<R, P>(F2<R>{ f }, unc::default_step<R>(2))(g.x, g.y), g, 1e-300, 1e-300);
        const U w = unc::ubinary2<R, P>(F2<R>{ f }, F2<R>{ e1 }, F2<R>{ e2 })(g.x, g.y);
        q.same("default-step-value", w, unc::ubinary2<R, P>(F2<R>{ f }, F2<R>{ e1 }, F2<R>{ e2 }, unc::default_step<R>())(g.x, g.y), g, 1e-300, 1e-300);
        if (g.plain) {
            Q wv, ex, ey, exx, eyy, exy; e1.deriv(Q(xn), Q(yn), wv, ex, ey, exx, eyy, exy);
            const double s3 = 30 * 30 * (1 + e1.w * e1.w) * (1 + e1.a * e1.a + e1.b * e1.b) * 3;
            q.num("default-step", double(w.hess(g.x, g.x)), double(ex), s3 * std::sqrt(EPS)); q.num("default-step", double(w.hess(g.x, g.y)), double(ey), s3 * std::sqrt(EPS));
        }
    }
}
// A function object gives the same result for the same arguments, whatever it and
// its copies were called with before.
template<class U, class Fun1, class Fun2> static void history(h::Ctx &c, const char *name, const std::vector<Fun1> &makers1, const std::vector<Fun2> &makers2, double st) {
    h::Rng &r = c.rng;
    // arguments that coincide in the first, in the second or in no value, at distance of a step
    std::vector<R> v { R(r.uni(-2, 2)), R(r.uni(-2, 2)) };
    v.push_back(R(v[0] + R(st))); v.push_back(R(v[0] - R(st))); v.push_back(R(v[1] + R(st))); v.push_back(R(0)); v.push_back(R(-R(0))); v.push_back(R(-v[0]));
    v.push_back(std::nextafter(v[0], R(9)));
    std::vector<U> pool;
    for (R x : v) { pool.push_back(Ops<U>::make(x, R(r.uni(0.1, 0.5)), r.below(4))); if (r.chance(0.3)) pool.push_back(U(x)); if (r.chance(0.3)) pool.push_back(Ops<U>::make(x, R(r.uni(0.1, 0.5)), r.below(4))); }
    auto all = [&](const U &a, const U &b, size_t i, size_t j, const std::string &w) {
        const std::vector<U> refs { pool[i], pool[j] };
        std::vector<U> ind;
        for (auto &p : refs) if (p.isindep() && p.indepid() != 0) ind.push_back(p);
        const std::string d = obs::diff(obs::observe(a, refs, ind), obs::observe(b, refs, ind), 1e-14, 1e-300);
        c.eval();
        if (!d.empty()) c.viol(std::string("depends-on-history:") + name, w + ": " + d);
    };
    auto pick = [&] { return r.chance(0.5) ? size_t(r.below(3)) : size_t(r.below(int(pool.size()))); };
    for (size_t m = 0; m < makers1.size(); ++m) {
        auto f = makers1[m](), k = f;
        std::string w = std::string(name) + " unary " + std::to_string(m) + ":";
        for (int t = 0; t < 8; ++t) {
            const size_t i = pick();
            w += " " + h::num(double(fo(pool[i]))); h::where(w);
            if (r.chance(0.2)) k = f;
            const U z = r.chance(0.3) ? k(pool[i]) : f(pool[i]);
            all(z, makers1[m]()(pool[i]), i, i, w);
        }
    }
    for (size_t m = 0; m < makers2.size(); ++m) {
        auto f = makers2[m](), k = f;
        std::string w = std::string(name) + " binary " + std::to_string(m) + ":";
        size_t i = pick(), j = pick();
        for (int t = 0; t < 10; ++t) {
            switch (r.below(7)) { case 0: std::swap(i, j); break; case 1: i = pick(); break; case 2: j = pick(); break; case 3: j = i; break; case 4: i = j; j = pick(); break; case 5: break; default: i = pick(); j = pick(); }
            w += " (" + h::num(double(fo(pool[i]))) + "," + h::num(double(fo(pool[j]))) + ")"; h::where(w);
            if (r.chance(0.2)) k = f;
            const U z = r.chance(0.3) ? k(pool[i], pool[j]) : f(pool[i], pool[j]);
            all(z, makers2[m]()(pool[i], pool[j]), i, j, w);
        }
    }
    c.distinct(h::hash_str(std::string(name) + h::num(double(v[0])) + h::num(st)));
    c.count(std::string("call histories ") + name);
}
static void histories1(h::Ctx &c) {
    const Fn f(c.rng), d1(c.rng), d2(c.rng);
    const R st = R(gen_step(c.rng));
    const std::vector<std::function<unc::UUnary<R>()>> m1 {
        [=] { return unc::uunary<R>(F1<R>{ f }, F1<R>{ d1 }); }, [=] { return unc::uunary<R>(F1<R>{ f }, st); }, [=] { return unc::uunary<R>(F1<R>{ f }); } };
    const std::vector<std::function<unc::UBinary<R>()>> m2 {
        [=] { return unc::ubinary<R>(F2<R>{ f }, F2<R>{ d1 }, F2<R>{ d2 }); }, [=] { return unc::ubinary<R>(F2<R>{ f }, st); }, [=] { return unc::ubinary<R>(F2<R>{ f }); } };
    history<unc::UReal<R>>(c, "first order", m1, m2, double(st));
}
template<unc::Prop P> static void histories2(h::Ctx &c) {
    const Fn f(c.rng), d1(c.rng), d2(c.rng), d3(c.rng), d4(c.rng), d5(c.rng);
    const R st = R(gen_step(c.rng));
    const std::vector<std::function<unc::UUnary2<R, P>()>> m1 {
        [=] { return unc::uunary2<R, P>(F1<R>{ f }, F1<R>{ d1 }, F1<R>{ d2 }); }, [=] { return unc::uunary2<R, P>(F1<R>{ f }, F1<R>{ d1 }, st); },
        [=] { return unc::uunary2<R, P>(F1<R>{ f }, st); }, [=] { return unc::uunary2<R, P>(F1<R>{ f }); } };
    const std::vector<std::function<unc::UBinary2<R, P>()>> m2 {
        [=] { return unc::ubinary2<R, P>(F2<R>{ f }, F2<R>{ d1 }, F2<R>{ d2 }, F2<R>{ d3 }, F2<R>{ d4 }, F2<R>{ d5 }); }, [=] { return unc::ubinary2<R, P>(F2<R>{ f }, F2<R>{ d1 }, F2<R>{ d2 }, st); },
        [=] { return unc::ubinary2<R, P>(F2<R>{ f }, st); }, [=] { return unc::ubinary2<R, P>(F2<R>{ f }); } };
    history<unc::UReal2<R, P>>(c, "second order", m1, m2, double(st));
}
// Nothing but the units of measure changes when the arguments, the step and the
// values of the function are multiplied by powers of two.
template<class U> struct Family {
    typedef std::function<U(const U &, const U &)> Any;
    std::vector<Any> f;
};
struct Fns { Fn f, d1, d2, d3, d4, d5; };
static Family<unc::UReal<R>> family(const unc::UReal<R> *, const Fns &k, double L, double F, double O, R st) {
    typedef unc::UReal<R> U;
    const Fn f = k.f.in(L, F, O), d1 = k.d1.in(L, F / L, O), d2 = k.d2.in(L, F / L, O);
    auto one = [](unc::UUnary<R> g) { return [g](const U &x, const U &) { return g(x); }; };
    return { { one(unc::uunary<R>(F1<R>{ f }, F1<R>{ d1 })), one(unc::uunary<R>(F1<R>{ f }, R(st * R(L)))),
        unc::ubinary<R>(F2<R>{ f }, F2<R>{ d1 }, F2<R>{ d2 }), unc::ubinary<R>(F2<R>{ f }, R(st * R(L))) } };
}
template<unc::Prop P> static Family<unc::UReal2<R, P>> family(const unc::UReal2<R, P> *, const Fns &k, double L, double F, double O, R st) {
    typedef unc::UReal2<R, P> U;
    const Fn f = k.f.in(L, F, O), d1 = k.d1.in(L, F / L, O), d2 = k.d2.in(L, F / L, O), d3 = k.d3.in(L, F / L / L, O), d4 = k.d4.in(L, F / L / L, O), d5 = k.d5.in(L, F / L / L, O), dd = k.d2.in(L, F / L / L, O);
    auto one = [](unc::UUnary2<R, P> g) { return [g](const U &x, const U &) { return g(x); }; };
    const R s = R(st * R(L));
    return { { one(unc::uunary2<R, P>(F1<R>{ f }, F1<R>{ d1 }, F1<R>{ dd })), one(unc::uunary2<R, P>(F1<R>{ f }, F1<R>{ d1 }, s)), one(unc::uunary2<R, P>(F1<R>{ f }, s)),
        unc::ubinary2<R, P>(F2<R>{ f }, F2<R>{ d1 }, F2<R>{ d2 }, F2<R>{ d3 }, F2<R>{ d4 }, F2<R>{ d5 }), unc::ubinary2<R, P>(F2<R>{ f }, F2<R>{ d1 }, F2<R>{ d2 }, s), unc::ubinary2<R, P>(F2<R>{ f }, s) } };
}
static double h2(const unc::UReal<R> &, const unc::UReal<R> &, const unc::UReal<R> &) { return 0; }
template<unc::Prop P> static double h2(const unc::UReal2<R, P> &z, const unc::UReal2<R, P> &x, const unc::UReal2<R, P> &y) { return double(z.hess(x, y)); }
template<class U> static void units(h::Ctx &c, const char *name) {
    h::Rng &r = c.rng;
    const Fns k { Fn(r), Fn(r), Fn(r), Fn(r), Fn(r), Fn(r) };
    const bool moved = r.chance(0.4);   // the origin too, without rounding
    auto grid = [&](double x) { return moved ? std::ldexp(std::round(std::ldexp(x, 9)), -9) : x; };
    const R st = R(grid(gen_step(r))), n1 = R(grid(r.uni(-2, 2))), n2 = R(r.chance(0.2) ? double(n1) : grid(r.uni(-2, 2))), s1 = R(r.uni(0.1, 0.6)), s2 = R(r.uni(0.1, 0.6));
    const int wl = sizeof(R) == 4 ? 14 : 90, wf = sizeof(R) == 4 ? 14 : 120;
    const double L = std::ldexp(1.0, r.range(-wl, wl)), F = std::ldexp(1.0, r.range(-wf, wf));
    const double O = moved ? (r.chance(0.5) ? -1 : 1) * std::ldexp(L, sizeof(R) == 4 ? r.range(6, 11) : r.range(8, 38)) : 0;
    const int m1 = r.below(4), m2 = r.below(4);
    const U x = Ops<U>::make(n1, s1, m1), y = Ops<U>::make(n2, s2, m2);
    const U X = Ops<U>::make(R(n1 * R(L) + R(O)), R(s1 * R(L)), m1), Y = Ops<U>::make(R(n2 * R(L) + R(O)), R(s2 * R(L)), m2);
    const Family<U> a = family((U *)nullptr, k, 1, 1, 0, st), b = family((U *)nullptr, k, L, F, O, st);
    std::ostringstream o; o << name << " in units " << L << " and " << F << " from " << O << " x " << double(n1) << " y " << double(n2) << " step " << double(st);
    h::where(o.str());
    c.distinct(h::hash_str(o.str()));
    Cmp q { c, "" };
    for (size_t i = 0; i < a.f.size(); ++i) {
        q.what = o.str() + " factory " + std::to_string(i);
        const U z = a.f[i](x, y), Z = b.f[i](X, Y);
        const double t = 4e3 * EPS * 60 / double(st) / double(st);
        q.num("value", double(fo(Z)) / F, double(fo(z)), 60 * EPS * 60);
        q.num("derivative-in-units", double(Z.grad(X)) / F * L, double(z.grad(x)), t);
        q.num("derivative-in-units", double(Z.grad(Y)) / F * L, double(z.grad(y)), t);
        q.num("second-derivative-in-units", h2(Z, X, X) / F * L * L, h2(z, x, x), t);
        q.num("second-derivative-in-units", h2(Z, X, Y) / F * L * L, h2(z, x, y), t);
        q.num("second-derivative-in-units", h2(Z, Y, Y) / F * L * L, h2(z, y, y), t);
        q.num("sdev-in-units", double(Z.s()) / F, double(z.s()), t * 4);
        c.count(std::string("units ") + name);
    }
}
void run_case(h::Ctx &c) {
    if (c.idx % 16 == 6) { switch (c.rng.below(3)) { case 0: units<unc::UReal<R>>(c, "first order"); break; case 1: units<unc::UReal2E<R>>(c, "second order e"); break; default: units<unc::UReal2M<R>>(c, "second order m"); } return; }
    if (c.idx % 64 == 5) { switch (c.rng.below(3)) { case 0: histories1(c); break; case 1: histories2<unc::Prop::est>(c); break; default: histories2<unc::Prop::mean>(c); } return; }
    switch (c.rng.below(4)) {
    case 0: first_order(c); break;
    case 1: second_order<unc::Prop::est>(c); break;
    case 2: second_order<unc::Prop::mean>(c); break;
    case 3: first_order(c); break;
    }
}
void run_once(h::Ctx &c) {
    // smaller steps approach the true derivative
    Fn f(c.rng);
    Q v, fx, fy, fxx, fyy, fxy; f.deriv(Q(0.3), Q(0.7), v, fx, fy, fxx, fyy, fxy);
    const unc::UReal<R> x(R(0.3), R(1)), y(R(0.7), R(1));
    double prev = 1e9;
    for (int k = 1; k <= (sizeof(R) == 4 ? 4 : 12); ++k) {
        const double e = std::fabs(double(unc::ubinary<R>(F2<R>{ f }, R(std::ldexp(1.0, -k - 3)))(x, y).grad(x)) - double(fx));
        c.check(e <= prev * 0.9 + 1e-3 || e < 1e-2, "not-converging", [&] { return "step 2^-" + std::to_string(k) + " error " + h::num(e); });
        prev = e;
    }
    c.check(std::fabs(double(unc::default_step<R>(1)) - std::sqrt(REPS)) <= 1e-3 * std::sqrt(REPS), "default_step", [] { return std::string(); });
}
