// C20: precision of the numeric type.
//  PART 1: long double, with tolerances that leave no room for double
//  PART 2: 50 digit numbers without expression templates
//  PART 3: 50 digit numbers with expression templates
//  PART 4: a user defined type that watches how it is used
#if PART == 2 || PART == 3
#include <boost/multiprecision/mpfr.hpp>
#define H_MPFR
#endif
#if PART == 4
#include "num.hpp"
#endif
#include "lib.hpp"
#include <uncertainties/ureals.hpp>
#include <uncertainties/impl.hpp>
using namespace prog;

#if PART == 1
typedef long double Real;
typedef quad Q;
static const double rel = 300 * double(std::numeric_limits<long double>::epsilon());
static double dbl(const Q &x) { return double(x); }
static Q wide(const Real &x) { return Q(x); }
#elif PART == 2 || PART == 3
namespace mp = boost::multiprecision;
typedef mp::number<mp::mpfr_float_backend<100>, mp::et_off> Q;
#if PART == 2
typedef mp::number<mp::mpfr_float_backend<50>, mp::et_off> Real;
#else
typedef mp::number<mp::mpfr_float_backend<50>, mp::et_on> Real;
#endif
static const double rel = 1e-42;
static double dbl(const Q &x) { return x.convert_to<double>(); }
static Q wide(const Real &x) { return Q(x); }
#else
typedef Num Real;
typedef long double Q;
static const double rel = 2e4 * std::numeric_limits<double>::epsilon();
static double dbl(const Q &x) { return double(x); }
static Q wide(const Real &x) { return Q(x.get()); }
#endif
using UD = unc::UReal<Real>;
using E = unc::UReal2<Real, unc::Prop::est>;
using M = unc::UReal2<Real, unc::Prop::mean>;

static Q ab(const Q &x) { return x < 0 ? Q(-x) : x; }
static bool ok(const Real &got, const Q &want, const Q &mag) {
    const Q d = ab(Q(wide(got) - want));
    // the second term: squares of errors, where the first derivative vanishes
    return d <= mag * Q(rel) + Q(rel) * Q(rel) * Q(1e6);
}
static std::string rep(const Real &got, const Q &want) {
    return "got " + h::num(dbl(wide(got))) + " want " + h::num(dbl(want)) + " difference " + h::num(dbl(Q(wide(got) - want)));
}

// distributions with two points, whose moments are exact in binary
struct Two { double a, b, p; }; // a with probability p
static const Two twos[] = { { 1, -1, 0.5 }, { 2, -0.5, 0.2 }, { -2, 0.5, 0.2 } };
static void set_moments() {
    auto &v = momsets();
    v.clear();
    v.push_back(MomSet { {{ 0, 1, 0, 1, 0, 1 }}, {}, {} });
    v.push_back(MomSet { {{ 1.5, 3.25, 6.375, 12.8125, 25.59375, 51.203125 }}, {}, {} });
    v.push_back(MomSet { {{ -1.5, 3.25, -6.375, 12.8125, -25.59375, 51.203125 }}, {}, {} });
}

template<class U> struct First {
    static void more(h::Ctx &c, const Program &p, ShExec<Q> &S, LibExec<U> &L, const std::string &what) {
        // covariances between all the pairs
        for (size_t i = 0; i < S.R.size(); ++i) for (size_t j = i; j < S.R.size(); ++j) {
            Q cv(0), mag(0), vi(0), vj(0);
            for (size_t k = 0; k < size_t(p.nvars); ++k) { cv += S.R[i].g[k] * S.R[j].g[k]; mag += S.R[i].ga[k] * S.R[j].ga[k]; vi += S.R[i].ga[k] * S.R[i].ga[k]; vj += S.R[j].ga[k] * S.R[j].ga[k]; }
            const Real got = cov(L.R[i], L.R[j]);
            c.check(ok(got, cv, Q(4) * mag), "cov", [&] { return rep(got, cv) + what; });
            if (i == j) {
                Q s2(0); for (size_t k = 0; k < size_t(p.nvars); ++k) s2 += S.R[i].g[k] * S.R[i].g[k];
                const Q s = mf::sqrt(s2);
                const Real gs = L.R[i].s();
                if (s * s > mag / 4) { c.count("standard deviations"); c.check(ok(gs, s, Q(4) * Q(mf::sqrt(mag))), "sdev", [&] { return rep(gs, s) + what; }); }
            }
        }
    }
    static void deriv(h::Ctx &c, const Program &p, ShExec<Q> &S, LibExec<U> &L, size_t r, const std::string &what) {
        const U &x = L.R[r];
        for (size_t i = 0; i < size_t(p.nvars) && i < L.indep.size(); ++i) {
            if (!(p.sig[i] > 0)) continue;
            const Q want = S.R[r].g[i] / Q(p.sig[i]), mag = S.R[r].ga[i] / Q(p.sig[i]);
            const Real got = x.grad(L.indep[i]);
            c.check(ok(got, want, Q(2) * mag), "grad", [&] { return rep(got, want) + what; });
        }
    }
};
template<class U> struct Second {
    // exact moments, by enumeration
    static void more(h::Ctx &c, const Program &p, ShExec<Q> &S, LibExec<U> &L, const std::string &what) {
        const int n = p.nvars;
        const size_t R = S.R.size();
        std::vector<std::array<Q, 5>> z(R); // raw moments around first_order_n
        std::vector<Q> A(R, Q(0));          // largest magnitude
        std::vector<std::vector<Q>> x(R);
        std::vector<Q> w;
        for (int m = 0; m < (1 << n); ++m) {
            Q pr(1); std::vector<Q> v(static_cast<size_t>(n));
            for (int i = 0; i < n; ++i) {
                const Two &t = twos[p.mom[size_t(i)]];
                v[size_t(i)] = Q(m >> i & 1 ? t.a : t.b);
                const Q pa = t.p == 0.5 ? Q(0.5) : Q(1) / Q(5);
                pr *= m >> i & 1 ? pa : Q(Q(1) - pa);
            }
            w.push_back(pr);
            for (size_t r = 0; r < R; ++r) {
                Q f(0), a(0);
                for (size_t i = 0; i < size_t(n); ++i) {
                    f += S.R[r].g[i] * v[i]; a += S.R[r].ga[i] * ab(v[i]);
                    for (size_t j = 0; j < size_t(n); ++j) { const size_t k = i * size_t(S.N) + j; f += S.R[r].H[k] * v[i] * v[j] / Q(2); a += S.R[r].Ha[k] * ab(Q(v[i] * v[j])); }
                }
                x[r].push_back(f);
                if (a > A[r]) A[r] = a;
            }
        }
        std::vector<Q> mean(R, Q(0));
        for (size_t r = 0; r < R; ++r) for (size_t k = 0; k < w.size(); ++k) mean[r] += w[k] * x[r][k];
        auto cm = [&](size_t r, size_t q, int a, int b) { Q s(0); for (size_t k = 0; k < w.size(); ++k) { Q t = w[k]; for (int i = 0; i < a; ++i) t *= x[r][k] - mean[r]; for (int i = 0; i < b; ++i) t *= x[q][k] - mean[q]; s += t; } return s; };
        for (size_t r = 0; r < R; ++r) {
            const U &u = L.R[r];
            Q mag = A[r];
            const Q fac(1000);
            for (int k = 1; k <= 4; ++k) {
                const Q want = k == 1 ? mean[r] : cm(r, r, k, 0);
                const Real got = u.m(k);
                c.check(ok(got, want, fac * mag), "m" + std::to_string(k), [&] { return rep(got, want) + what; });
                mag *= A[r];
            }
            c.count("sets of moments");
            const Q wn = S.R[r].v + (U::prop_mode == unc::Prop::mean ? mean[r] : Q(-mean[r]));
            const Real gn = u.n();
            c.check(ok(gn, wn, Q(4) * (S.R[r].va + fac * A[r])), "n", [&] { return rep(gn, wn) + what; });
            const Q v2 = cm(r, r, 2, 0);
            if (v2 > A[r] * A[r] / Q(100)) {
                const Q f2(1e6);
                const Real gs = u.s(), sk = u.skew(), ku = u.kurt();
                const Q s = mf::sqrt(v2), wk = cm(r, r, 3, 0) / (s * v2), wq = cm(r, r, 4, 0) / (v2 * v2);
                c.check(ok(gs, s, f2 * s), "s", [&] { return rep(gs, s) + what; });
                c.check(ok(sk, wk, f2 * (Q(1) + ab(wk))), "skew", [&] { return rep(sk, wk) + what; });
                c.check(ok(ku, wq, f2 * (Q(1) + ab(wq))), "kurt", [&] { return rep(ku, wq) + what; });
                c.count("skewness and kurtosis");
            }
            for (size_t q = 0; q < R; ++q) {
                const Q want = cm(r, q, 1, 1);
                const Real got = cov(u, L.R[q]);
                c.check(ok(got, want, fac * A[r] * A[q]), "cov", [&] { return rep(got, want) + what; });
            }
        }
    }
    static void deriv(h::Ctx &c, const Program &p, ShExec<Q> &S, LibExec<U> &L, size_t r, const std::string &what) {
        const U &x = L.R[r];
        for (size_t i = 0; i < size_t(p.nvars) && i < L.indep.size(); ++i) {
            if (!(p.sig[i] > 0)) continue;
            const Q want = S.R[r].g[i] / Q(p.sig[i]), mag = S.R[r].ga[i] / Q(p.sig[i]);
            const Real got = x.grad(L.indep[i]);
            c.check(ok(got, want, Q(2) * mag), "grad", [&] { return rep(got, want) + what; });
            for (size_t j = 0; j < size_t(p.nvars) && j < L.indep.size(); ++j) {
                if (!(p.sig[j] > 0)) continue;
                const size_t k = i * size_t(S.N) + j;
                const Q d = Q(p.sig[i]) * Q(p.sig[j]);
                const Q wh = S.R[r].H[k] / d, mh = S.R[r].Ha[k] / d;
                const Real gh = x.hess(L.indep[i], L.indep[j]);
                c.check(ok(gh, wh, Q(4) * mh), "hess", [&] { return rep(gh, wh) + what; });
            }
        }
    }
};
template<class U> struct Judge : First<U> {};
template<class R, unc::Prop P> struct Judge<unc::UReal2<R, P>> : Second<unc::UReal2<R, P>> {};

template<class U> static void program(h::Ctx &c) {
    Cfg cfg;
    cfg.second = Ops<U>::second;
    cfg.maxvars = c.rng.range(1, cfg.second ? 4 : 6); cfg.regs = c.rng.range(2, 5);
    cfg.len = c.rng.range(3, cfg.second ? 14 : 22);
    cfg.nmom = 3; cfg.zero_s = !cfg.second; cfg.slo = -2; cfg.shi = 0.5;
    const int st = c.rng.below(4);
    cfg.linear = st == 0; cfg.arith = st == 1;
#if PART == 4
    typedef long double G;
#else
    typedef quad G;
#endif
    Gen<G> g(c.rng, cfg);
    g.generate();
    if (g.p.ins.size() < 2) return;
    c.distinct(g.p.hash());
    c.sample(g.p.str());
    ShExec<Q> S(cfg);
    LibExec<U> L(cfg);
    std::string what;
    for (auto &i : g.p.ins) {
        h::where(i.str());
        S.run(i); L.run(i);
        what = " of r" + std::to_string(i.dst) + " in " + g.p.str() + " after " + i.str();
        const size_t d = size_t(i.dst);
        const Real got = Ops<U>::n(L.R[d]);
        const Q want = S.R[d].v;
        c.check(ok(got, want, Q(2) * S.R[d].va), std::string("mean:") + kind_name[i.kind], [&] { return rep(got, want) + what; });
        Judge<U>::deriv(c, g.p, S, L, d, what);
        c.count(std::string("instructions ") + (cfg.second ? "second order" : "first order"));
        c.count(std::string("op ") + (i.kind == U1 ? sh::op1_name[i.op] : i.kind == B2 || i.kind == INPL ? sh::op2_name[i.op] : kind_name[i.kind]));
    }
    h::where("moments of a program");
    Judge<U>::more(c, g.p, S, L, what);
}

// one function, at a well conditioned point
static const double fk = 64;
static bool ok1(const Real &got, const Q &want, const Q &scale) { return ab(Q(wide(got) - want)) <= Q(rel) * Q(fk / 300) * (ab(want) + scale); }
template<class U> struct Fn;
template<> struct Fn<UD> {
    static void one(h::Ctx &c, int op, double x0) {
        const Real xr(x0);
        const UD x(xr, Real(1));
        const UD z = lib1<UD>(op, x);
        const sh::J1<Q> j = sh::jet1<Q>(op, Q(x0));
        const Real f = z.n(), d = z.grad(x);
        c.check(ok1(f, j.f, Q(0)), std::string("value:") + sh::op1_name[op], [&] { return "at " + h::num(x0) + " " + rep(f, j.f); });
        c.check(ok1(d, j.d, Q(1)), std::string("derivative:") + sh::op1_name[op], [&] { return "at " + h::num(x0) + " " + rep(d, j.d); });
    }
    static void two(h::Ctx &c, int op, double x0, double y0) {
        const UD x(Real(x0), Real(1)), y(Real(y0), Real(1));
        const UD z = lib2<UD>(op, x, y);
        const sh::J2<Q> j = sh::jet2<Q>(op, Q(x0), Q(y0), false);
        const Real f = z.n(), dx = z.grad(x), dy = z.grad(y);
        const Q sc = Q(1) + ab(j.f) + ab(j.dx) + ab(j.dy);
        c.check(ok1(f, j.f, sc), std::string("value:") + sh::op2_name[op], [&] { return "at " + h::num(x0) + ", " + h::num(y0) + " " + rep(f, j.f); });
        c.check(ok1(dx, j.dx, sc), std::string("derivative:") + sh::op2_name[op], [&] { return "at " + h::num(x0) + ", " + h::num(y0) + " " + rep(dx, j.dx); });
        c.check(ok1(dy, j.dy, sc), std::string("derivative:") + sh::op2_name[op], [&] { return "at " + h::num(x0) + ", " + h::num(y0) + " " + rep(dy, j.dy); });
    }
};
template<class R, unc::Prop P> struct Fn<unc::UReal2<R, P>> {
    using U = unc::UReal2<R, P>;
    static void one(h::Ctx &c, int op, double x0) {
        const U x = Ops<U>::make(Real(x0), Real(1), 0), z = lib1<U>(op, x);
        const sh::J1<Q> j = sh::jet1<Q>(op, Q(x0));
        const Real f = z.first_order_n(), d = z.grad(x), dd = z.hess(x, x);
        c.check(ok1(f, j.f, Q(0)), std::string("value:") + sh::op1_name[op], [&] { return "at " + h::num(x0) + " " + rep(f, j.f); });
        c.check(ok1(d, j.d, Q(1)), std::string("derivative:") + sh::op1_name[op], [&] { return "at " + h::num(x0) + " " + rep(d, j.d); });
        c.check(ok1(dd, j.dd, Q(1) + Q(4) * ab(j.d)), std::string("second derivative:") + sh::op1_name[op], [&] { return "at " + h::num(x0) + " " + rep(dd, j.dd); });
    }
    static void two(h::Ctx &c, int op, double x0, double y0) {
        const U x = Ops<U>::make(Real(x0), Real(1), 0), y = Ops<U>::make(Real(y0), Real(1), 1);
        const U z = lib2<U>(op, x, y);
        const sh::J2<Q> j = sh::jet2<Q>(op, Q(x0), Q(y0), false);
        const Real got[6] = { z.first_order_n(), z.grad(x), z.grad(y), z.hess(x, x), z.hess(y, y), z.hess(x, y) };
        const Q want[6] = { j.f, j.dx, j.dy, j.dxx, j.dyy, j.dxy };
        Q sc(1); for (auto &w : want) sc += ab(w);
        for (int k = 0; k < 6; ++k)
            c.check(ok1(got[k], want[k], sc), std::string(k == 0 ? "value:" : k < 3 ? "derivative:" : "second derivative:") + sh::op2_name[op], [&] { return std::to_string(k) + " at " + h::num(x0) + ", " + h::num(y0) + " " + rep(got[k], want[k]); });
    }
};
template<class U> static void function(h::Ctx &c) {
    h::Rng &r = c.rng;
    const bool half = r.chance(0.5);
    for (int k = 0; k < 8; ++k) {
        const int op = r.below(sh::N_OP1);
        const double x = op == sh::ACOSH ? r.uni(1.4, 3) : op == sh::LOG1P ? r.uni(-0.5, 3) : op == sh::LOG || op == sh::LOG2 || op == sh::LOG10 || op == sh::SQRT ? (half ? r.uni(0.3, 0.8) : r.uni(1.3, 4)) : op == sh::ASIN || op == sh::ACOS || op == sh::ATANH ? r.uni(0.1, 0.7) * r.sign() : op == sh::TAN ? r.uni(0.1, 1) * r.sign() : op == sh::SIN || op == sh::COS ? r.uni(0.3, 1.2) * r.sign() : r.uni(0.2, 1.5) * r.sign();
        h::where(std::string(sh::op1_name[op]) + " " + h::num(x));
        Fn<U>::one(c, op, x);
        c.count(std::string("function ") + sh::op1_name[op]);
        c.distinct(h::mix(uint64_t(op), h::bits(x)));
    }
    for (int k = 0; k < 6; ++k) {
        const int op = r.below(sh::N_OP2);
        double x = r.uni(0.4, 2.2) * (op == sh::POW ? 1 : r.sign()), y = r.uni(0.4, 2.2) * r.sign();
        if (op == sh::FMAX || op == sh::FMIN) { if (std::fabs(x - y) < 0.1) y += 0.5; }
        if (op == sh::FMOD || op == sh::REMAINDER) { const double q = r.range(0, 4) + r.uni(0.1, 0.4); x = q * y; }
        h::where(std::string(sh::op2_name[op]) + " " + h::num(x) + " " + h::num(y));
        Fn<U>::two(c, op, x, y);
        c.count(std::string("function ") + sh::op2_name[op]);
        c.distinct(h::mix(uint64_t(op), h::bits(x) ^ h::bits(y)));
    }
}

// distributions: the third and higher standardized moments in full precision
template<class U> static void distributions(h::Ctx &c) {
    h::Rng &r = c.rng;
    h::where("distributions");
    auto judge = [&](const char *what, const U &x, const Q &n, const Q &s, const Q &m3, const Q &m4) {
        const Real gn = x.first_order_n(), gs = x.s(), g3 = x.skew(), g4 = x.kurt();
        c.check(ok1(gn, n, Q(0)), std::string(what) + " mean", [&] { return rep(gn, n); });
        c.check(ok1(gs, s, Q(0)), std::string(what) + " sdev", [&] { return rep(gs, s); });
        c.check(ok1(g3, m3, Q(1)), std::string(what) + " skewness", [&] { return rep(g3, m3); });
        c.check(ok1(g4, m4, Q(1)), std::string(what) + " kurtosis", [&] { return rep(g4, m4); });
    };
    const double mu = r.normal(), sg = r.logu(-2, 2);
    judge("normal", unc::distr::normal<U>(Real(mu), Real(sg)), Q(mu), Q(sg), Q(0), Q(3));
    const double l = r.uni(1, 2), w = r.logu(-1, 2);
    const Q L = Q(l), W = L + Q(w);
    const Real rr = Real(l) + Real(w);
    judge("uniform", unc::distr::uniform<U>(Real(l), rr), Q((L + W) / Q(2)), Q(mf::sqrt(Q(Q(1) / Q(12))) * Q(w)), Q(0), Q(Q(9) / Q(5)));
    const int k = r.range(1, 60);
    const Q K = Q(k);
    judge("chisquare", unc::distr::chisquare<U>(k), K, Q(mf::sqrt(Q(2 * k))), Q(mf::sqrt(Q(Q(8) / K))), Q(Q(3) + Q(12) / K));
    c.count("distributions", 3);
    c.distinct(h::mix(h::bits(mu), h::bits(w)));
}
// generator of correlated variables
static void generator(h::Ctx &c) {
    h::Rng &r = c.rng;
    h::where("ureals");
    const int n = r.range(1, 6);
    std::vector<Real> mu, V(size_t(n * n), Real(0));
    std::vector<double> A(size_t(n * n));
    for (auto &a : A) a = r.normal();
    std::vector<Q> W(size_t(n * n), Q(0));
    for (int i = 0; i < n; ++i) mu.push_back(Real(r.normal()));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        Real s(i == j ? 1 : 0);
        for (int k = 0; k < n; ++k) s += Real(A[size_t(i * n + k)]) * Real(A[size_t(j * n + k)]);
        V[size_t(i * n + j)] = s; W[size_t(i * n + j)] = wide(s);
    }
    const std::vector<UD> x = unc::ureals<std::vector<UD>>(mu, V);
    const std::vector<Real> C = unc::cov_matrix<std::vector<Real>>(x);
    for (int i = 0; i < n; ++i) {
        c.check(wide(x[size_t(i)].n()) == wide(mu[size_t(i)]), "ureals-mean", [&] { return rep(x[size_t(i)].n(), wide(mu[size_t(i)])); });
        for (int j = 0; j < n; ++j) {
            const size_t k = size_t(i * n + j);
            const Q mag = mf::sqrt(Q(W[size_t(i * n + i)] * W[size_t(j * n + j)]));
            c.check(ok1(C[k], W[k], Q(10) * mag), "ureals-cov", [&] { return rep(C[k], W[k]); });
        }
    }
    std::vector<Real> s(size_t(n), Real(0));
    for (int i = 0; i < n; ++i) s[size_t(i)] = x[size_t(i)].s();
    const std::vector<Real> D = unc::corr2cov<std::vector<Real>>(s, unc::corr_matrix<std::vector<Real>>(x));
    for (size_t k = 0; k < D.size(); ++k) {
        const Q mag = mf::sqrt(Q(W[k / size_t(n) * size_t(n + 1)] * W[k % size_t(n) * size_t(n + 1)]));
        c.check(ok1(D[k], W[k], Q(10) * mag), "corr2cov", [&] { return rep(D[k], W[k]); });
    }
    c.count("correlated sets");
    c.distinct(h::mix(uint64_t(n), h::bits(A[0])));
}
// numerical derivatives with the default step of the type
static void numerical(h::Ctx &c) {
    h::Rng &r = c.rng;
    h::where("numerical derivatives");
    const double x0 = r.uni(0.3, 1) * r.sign(), a = r.normal(), b = r.normal();
    const Real ar(a), br(b);
    const UD x(Real(x0), Real(1)), y(Real(a), Real(1));
    const Q eps = wide(Real(std::numeric_limits<Real>::epsilon()));
    const Q s1 = mf::sqrt(eps), s2 = mf::sqrt(s1);
    const auto f = unc::uunary<Real>([ar, br](const Real &t) { return Real(ar * t * t + br * t); });
    const UD z = f(x);
    const Real d = z.grad(x);
    const Q want = Q(2) * Q(a) * Q(x0) + Q(b);
    const Q size = Q(1) + ab(Q(a)) + ab(Q(b));
    c.check(ab(Q(wide(d) - want)) <= Q(100) * s1 * size, "forward difference", [&] { return rep(d, want); });
    const auto g = unc::ubinary<Real>([](const Real &t, const Real &u) { return Real(t * u * u); });
    const UD v = g(x, y);
    const Real dx = v.grad(x), dy = v.grad(y);
    c.check(ab(Q(wide(dx) - Q(a) * Q(a))) <= Q(200) * s1 * size * size, "forward difference", [&] { return rep(dx, Q(Q(a) * Q(a))); });
    c.check(ab(Q(wide(dy) - Q(2) * Q(a) * Q(x0))) <= Q(200) * s1 * size * size, "forward difference", [&] { return rep(dy, Q(Q(2) * Q(a) * Q(x0))); });
    const E p = Ops<E>::make(Real(x0), Real(1), 1), q = Ops<E>::make(Real(a), Real(1), 0);
    const auto h1 = unc::uunary2<Real, unc::Prop::est>([ar, br](const Real &t) { return Real(ar * t * t + br * t); });
    const E w = h1(p);
    const Real g1 = w.grad(p), g2 = w.hess(p, p);
    c.check(ab(Q(wide(g1) - want)) <= Q(1000) * s1 * size, "central difference", [&] { return rep(g1, want); });
    c.check(ab(Q(wide(g2) - Q(2) * Q(a))) <= Q(1000) * s1 * size, "central second difference", [&] { return rep(g2, Q(Q(2) * Q(a))); });
    const auto h2 = unc::ubinary2<Real, unc::Prop::est>([](const Real &t, const Real &u) { return Real(t * u); });
    const E k = h2(p, q);
    const Real k1 = k.grad(p), k2 = k.hess(p, q);
    c.check(ab(Q(wide(k1) - Q(a))) <= Q(1000) * s1 * size, "central difference", [&] { return rep(k1, Q(a)); });
    c.check(ab(Q(wide(k2) - Q(1))) <= Q(1000) * s1 * size * size, "central mixed difference", [&] { return rep(k2, Q(1)); });
    c.count("numerical derivatives", 8);
}
// text: as many right digits as requested, up to those of the type
#if PART == 1
static const int maxdig = 17;
static Q parse(const std::string &s) { return strtoflt128(s.c_str(), nullptr); }
#elif PART == 4
static const int maxdig = 14;
static Q parse(const std::string &s) { return std::strtold(s.c_str(), nullptr); }
#else
static const int maxdig = 45;
static Q parse(const std::string &s) { return Q(s); }
#endif
static Q ten(int e) { Q t(1); for (int i = 0; i < std::abs(e); ++i) t *= Q(10); return e < 0 ? Q(Q(1) / t) : t; }
static void text(h::Ctx &c) {
    h::Rng &r = c.rng;
    const int nd = r.range(2, maxdig - 2);
    const double m0 = r.normal() * r.logu(-2, 3), m1 = r.normal(), s0 = r.logu(-2, 1), s1 = r.uni(0.1, 1);
    // means and deviations with all the digits of the type
    const Real mean = Real(m0) / Real(3) + Real(m1) / Real(7), sd = Real(s0) / Real(3) + Real(s1) / Real(11);
    const UD x(mean, sd);
    h::where("text " + h::num(m0) + " " + h::num(s0) + " " + std::to_string(nd));
    const std::string t = format(x, float(nd), "|");
    std::string a, b; int ex = 0;
    if (t[0] == '(') {
        const size_t e = t.rfind(")e");
        if (e == std::string::npos) { c.viol("text", t); return; }
        ex = std::atoi(t.c_str() + e + 2);
        a = t.substr(1, e - 1);
    } else a = t;
    const size_t k = a.find('|');
    if (k == std::string::npos) { c.viol("text", t); return; }
    b = a.substr(k + 1); a = a.substr(0, k);
    const size_t db = b.find('.'), da = a.find('.');
    const int fb = db == std::string::npos ? 0 : int(b.size() - db - 1), fa = da == std::string::npos ? 0 : int(a.size() - da - 1);
    const Q sc = ten(ex), sdw = wide(sd);
    // position of the last digit of s, with nd digits
    int e0 = 0; { Q v = sdw; while (v >= Q(10)) { v /= Q(10); ++e0; } while (v < Q(1)) { v *= Q(10); --e0; } }
    const Q unit = ten(e0 - nd + 1), unit1 = unit * Q(10);
    const Q pa = parse(a) * sc, pb = parse(b) * sc;
    const Q msl = Q(1.001) / Q(2) * unit + Q(rel) * (ab(wide(mean)) + sdw);
    // a deviation that rounds up to a power of ten may lose a digit
    const bool up = pb >= ten(e0 + 1) * (Q(1) - Q(1e-10)) ;
    c.check(ab(Q(pb - sdw)) <= msl, "text-sdev", [&] { return t + " for " + h::num(dbl(sdw)) + " with " + std::to_string(nd) + " digits"; });
    c.check(ab(Q(pa - wide(mean))) <= (up ? Q(10) * msl : msl), "text-mean", [&] { return t + " for " + h::num(dbl(wide(mean))) + " with " + std::to_string(nd) + " digits"; });
    // the last digits have the right position
    const Q last = sc * ten(-fb);
    if (db != std::string::npos) c.check(fa == fb && (ab(Q(last / unit - Q(1))) < Q(1e-6) || (up && ab(Q(last / unit1 - Q(1))) < Q(1e-6))), "text-digits", [&] { return t + " with " + std::to_string(nd) + " digits"; });
    c.count("texts");
    if (nd > 16) c.count("texts with more digits than double");
    c.distinct(h::mix(uint64_t(nd), h::bits(m0)));
}

template<class U> static void convertible(h::Ctx &c) { // moments given by the user are read back in full
    h::Rng &r = c.rng;
    h::where("moments");
    const Real s = Real(r.uni(0.5, 2)) / Real(3);
    std::array<Real, 7> m;
    Real sn = s;
    for (int k = 2; k <= 8; ++k) { sn *= s; m[size_t(k - 2)] = k == 2 ? Real(sn) : Real(sn * Real(momsets()[1].m[size_t(k - 3)])); }
    const U x(Real(1), m, Real(1e-6));
    for (int k = 2; k <= 4; ++k) { const Real g = x.m(k); const Q want = wide(m[size_t(k - 2)]); c.check(ok1(g, want, Q(0)), "moments-read-back", [&] { return std::to_string(k) + " " + rep(g, want); }); }
    // higher moments through the square: Var[x^2] around the mean 0 = m4 - m2^2
    const U y(Real(0), m, Real(-1)), z = y * y;
    const Q m2 = wide(m[0]), m4 = wide(m[2]), m6 = wide(m[4]), m8 = wide(m[6]);
    const Q w2 = m4 - m2 * m2, w3 = m6 - Q(3) * m4 * m2 + Q(2) * m2 * m2 * m2, w4 = m8 - Q(4) * m6 * m2 + Q(6) * m4 * m2 * m2 - Q(3) * m2 * m2 * m2 * m2;
    const Real g2 = z.m(2), g3 = z.m(3), g4 = z.m(4);
    c.check(ok1(g2, w2, Q(4) * m4), "moments-of-square", [&] { return rep(g2, w2); });
    c.check(ok1(g3, w3, Q(10) * m6), "moments-of-square", [&] { return rep(g3, w3); });
    c.check(ok1(g4, w4, Q(20) * m8), "moments-of-square", [&] { return rep(g4, w4); });
    // no variance: everything stays exactly zero
    { std::array<Real, 7> zm; for (auto &t : zm) t = Real(0);
      const U u(Real(2), zm, Real(r.chance(0.5) ? -1 : 0)), w = u * u + sin(u);
      for (int k = 1; k <= 4; ++k) { const Real g = w.m(k); c.check(wide(g) == Q(0), "no-variance", [&] { return std::to_string(k) + " " + rep(g, Q(0)); }); } }
    c.count("moments read back");
}

void run_case(h::Ctx &c) {
#if PART == 4
    Num::begin();
#endif
    switch (c.rng.below(12)) {
    case 0: case 1: program<UD>(c); break;
    case 2: program<E>(c); break;
    case 3: program<M>(c); break;
    case 4: function<UD>(c); break;
    case 5: function<E>(c); break;
    case 6: function<M>(c); break;
    case 7: c.rng.chance(0.5) ? distributions<E>(c) : distributions<M>(c); break;
    case 8: generator(c); break;
    case 9: numerical(c); break;
    case 10: text(c); break;
    case 11: c.rng.chance(0.5) ? convertible<E>(c) : convertible<M>(c); break;
    }
#if PART == 4
    Num::end(c);
#endif
}
void run_once(h::Ctx &c) { (void)c; set_moments(); }
struct Init { Init() { set_moments(); } } static init;
