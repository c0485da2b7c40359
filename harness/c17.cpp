// C17: conversions between numeric types (and modes) at any point of a computation.
#include "obs.hpp"
#include <uncertainties/impl.hpp>
using namespace prog;
using Q = quad;
using LD = long double;
#ifdef SECOND
using D = unc::UReal2<double, unc::Prop::SECOND>;
using L = unc::UReal2<LD, unc::Prop::SECOND>;
using F = unc::UReal2<float, unc::Prop::SECOND>;
template<class T> static const T &fo(const unc::UReal2<T, unc::Prop::SECOND> &x) { return x.first_order_n(); }
#else
using D = unc::UReal<double>;
using L = unc::UReal<LD>;
using F = unc::UReal<float>;
template<class T> static const T &fo(const unc::UReal<T> &x) { return x.n(); }
#endif

// all the ways to convert; way is random
template<class B, class A> B conv_wide(const A &x, int way) { // implicit allowed
    if (way == 0) { B y = x; return y; }
    if (way == 1) { const B y(static_cast<B>(x)); return y; }
    B y; y = x; return y;
}
#ifdef SECOND
template<class B, class A> B conv_narrow(const A &x, int way) { return way ? static_cast<B>(x) : B(x); }
#else
template<class B, class A> B conv_narrow(const A &x, int way) { return conv_wide<B>(x, way); }
#endif

// |got - want| <= rel |want| + abs
static void near_(h::Ctx &c, const char *key, double got, double want, double tol, const std::string &what, const std::string &p) {
    c.eval();
    if (!(std::fabs(got - want) <= tol))
        c.viol(key, what + " got " + h::num(got) + " want " + h::num(want) + " tol " + h::num(tol) + " after " + p);
}

template<class U, class Real> static void judge(h::Ctx &c, const char *tn, const U &x, const std::vector<U> &ind, const Program &p,
        const sh::Sh<Q> &q, const sh::Sh<Real> &t, const std::string &done) {
    const Tol<Q, Real> tol;
    const std::string key = std::string("commute-") + tn;
    near_(c, key.c_str(), double(LD(fo(x)) - LD(q.v)), 0, tol.v(q, t), "n error", done);
    for (size_t i = 0; i < ind.size(); ++i) if (p.sig[i] != 0) {
        const double si = p.sig[i];
        near_(c, key.c_str(), double(LD(x.grad(ind[i])) * LD(si) - LD(q.g[i])), 0, tol.g(q, t, i), "grad error", done);
#ifdef SECOND
        for (size_t j = 0; j < ind.size(); ++j) if (p.sig[j] != 0) {
            const size_t k = i * q.g.size() + j;
            near_(c, key.c_str(), double(LD(x.hess(ind[i], ind[j])) * LD(si) * LD(p.sig[j]) - LD(q.H[k])), 0, tol.H(q, t, k), "hess error", done);
        }
#endif
    }
}

template<class A, class B> static void same_ids(h::Ctx &c, const A &a, const B &b, const std::string &what, const std::string &done) {
    c.check(a.isindep() == b.isindep() && a.indepid() == b.indepid(), "identity", [&] {
        return what + " " + std::to_string(a.isindep()) + "/" + std::to_string(a.indepid()) + " -> " + std::to_string(b.isindep()) + "/" + std::to_string(b.indepid()) + " after " + done; });
}

void run_case(h::Ctx &c) {
    h::Rng &r = c.rng;
    Cfg cfg;
#ifdef SECOND
    cfg.second = true; cfg.maxvars = r.range(1, 4); cfg.regs = r.range(2, 4); cfg.len = r.range(2, 12); cfg.nmom = 4;
#else
    cfg.maxvars = r.range(1, 5); cfg.regs = r.range(2, 5); cfg.len = r.range(2, 20);
#endif
    if (r.chance(0.4)) cfg.arith = true;
    cfg.float_in = true; cfg.slo = -2; cfg.vmax = 20;
    if (c.idx % 256 == 7) { // many variables
#ifdef SECOND
        cfg.maxvars = r.range(8, 12); cfg.regs = r.range(6, 9); cfg.len = cfg.regs + r.range(8, 20);
#else
        cfg.maxvars = r.range(16, 48); cfg.regs = r.range(12, 30); cfg.len = cfg.regs + r.range(10, 50);
#endif
        c.count("programs with many variables");
    }
    Gen<Q> g(r, cfg);
    g.generate();
    const Program &p = g.p;
    LibExec<D> XD(cfg);
    LibExec<L> XL(cfg);
    LibExec<F> XF(cfg);
    ShExec<Q> S(cfg);
    ShExec<double> SD(cfg);
    ShExec<float> SF(cfg);
    std::string done;
    for (auto &i : p.ins) {
        done += i.str() + "; ";
        h::where(done.size() > 400 ? done.substr(done.size() - 400) : done);
        S.run(i); SD.run(i); SF.run(i);
        const size_t d = size_t(i.dst);
        const int way = r.below(3);
        if (i.kind == NEWVAR) {
            // created in one type, converted to the others
            const int k = r.below(3);
            if (k == 0) { XD.run(i); XL.R[d] = conv_wide<L>(XD.R[d], way); XF.R[d] = conv_narrow<F>(XD.R[d], way); }
            else if (k == 1) { XF.run(i); XD.R[d] = conv_wide<D>(XF.R[d], way); XL.R[d] = conv_wide<L>(XF.R[d], way); }
            else { XL.run(i); XD.R[d] = conv_narrow<D>(XL.R[d], way); XF.R[d] = conv_narrow<F>(XL.R[d], way); }
            if (k != 0) XD.indep.push_back(XD.R[d]);
            if (k != 1) XF.indep.push_back(XF.R[d]);
            if (k != 2) XL.indep.push_back(XL.R[d]);
#ifdef SECOND
            // the moments too
            if (i.s != 0) {
                const D x2 = XD.R[d] * XD.R[d];
                const F f2 = XF.R[d] * XF.R[d];
                const L l2 = XL.R[d] * XL.R[d];
                const double b = std::fabs(i.n) + i.s;
                for (int m = 1; m <= 4; ++m) {
                    // E|x2|^m <= b^2m times a bounded factor
                    const double t = 2e4 * std::pow(b, 2 * m);
                    near_(c, "moments", double(f2.m(m)), double(x2.m(m)), 1e-5 * t, "float m of square", done);
                    near_(c, "moments", double(l2.m(m)), double(x2.m(m)), (k == 1 ? 1e-5 : 1e-12) * t, "long double m of square", done);
                    if (m > 1) {
                        const double t1 = 40 * std::pow(i.s, m);
                        near_(c, "moments", double(XF.R[d].m(m)), double(XD.R[d].m(m)), 1e-6 * t1, "float m", done);
                        near_(c, "moments", double(XL.R[d].m(m)), double(XD.R[d].m(m)), 1e-6 * t1, "long double m", done);
                    }
                }
            }
#endif
        } else { XD.run(i); XL.run(i); XF.run(i); }
        if (r.chance(0.3)) { (void)XD.R[d].s(); (void)var(XD.R[d]); } // cached by non-const reads
        if (r.chance(0.3)) { (void)XF.R[d].s(); }
        // continue with a converted variable
        const int k = r.below(10);
        if (k == 0) XL.R[d] = conv_wide<L>(XD.R[d], way);
        else if (k == 1) XF.R[d] = conv_narrow<F>(XD.R[d], way);
        else if (k == 2) XD.R[d] = conv_wide<D>(conv_wide<L>(XD.R[d], way) + L(0.0L) * XL.R[d] - L(0.0L), 0 * way), (void)0;
        else if (k == 3) XF.R[d] = conv_narrow<F>(XL.R[d], way);
        c.count(std::string("op ") + kind_name[i.kind]);
        judge(c, "double", XD.R[d], XD.indep, p, S.R[d], k == 2 ? SD.R[d] : SD.R[d], done);
        judge(c, "float", XF.R[d], XF.indep, p, S.R[d], SF.R[d], done);
        judge(c, "long-double", XL.R[d], XL.indep, p, S.R[d], SD.R[d], done);
        // round trips: double -> long double -> double is exact
        const D &x = XD.R[d];
        const L xl = conv_wide<L>(x, way);
        const D xr = conv_narrow<D>(xl, way);
        same_ids(c, x, xl, "double -> long double", done);
        same_ids(c, x, xr, "double -> long double -> double", done);
        const obs::Obs o = obs::observe(x, XD.R, XD.indep);
        const std::string df = obs::diff(o, obs::observe(xr, XD.R, XD.indep), 1e-12, 1e-25);
        c.eval(o.v.size());
        if (!df.empty()) c.viol("round-trip", df + " after " + done);
        // converted from a const and from a non-const variable
        D copy = x;
        (void)copy.s();
        const D xr2 = conv_narrow<D>(conv_wide<L>(copy, way), way);
        const std::string df2 = obs::diff(o, obs::observe(xr2, XD.R, XD.indep), 1e-12, 1e-25);
        if (!df2.empty()) c.viol("round-trip-cached", df2 + " after " + done);
        const F xf = conv_narrow<F>(x, way);
        same_ids(c, x, xf, "double -> float", done);
        const D xff = conv_wide<D>(xf, way);
        same_ids(c, x, xff, "double -> float -> double", done);
        near_(c, "narrow-n", double(fo(xf)), fo(x), 1e-7 * std::fabs(fo(x)) + 1e-40, "float n", done);
        double A = 0;
        for (auto &z : S.R[d].ga) A += double(z);
        for (auto &z : S.R[d].Ha) A += double(z);
        // first derivatives survive the narrowing
        for (size_t v = 0; v < XD.indep.size(); ++v) if (p.sig[v] != 0) {
            const double gd = x.grad(XD.indep[v]), gf = double(xf.grad(XF.indep[v]));
            near_(c, "narrow-grad", gf, gd, 4e-7 * std::fabs(gd) + 1e-36, "float grad", done);
#ifdef SECOND
            for (size_t w = 0; w < XD.indep.size(); ++w) if (p.sig[w] != 0) {
                const double hd = x.hess(XD.indep[v], XD.indep[w]), hf = double(xf.hess(XF.indep[v], XF.indep[w]));
                near_(c, "narrow-hess", hf, hd, 1e-6 * std::fabs(hd) + 1e-34, "float hess", done);
            }
#endif
        }
#ifdef SECOND
        // type and mode together
        {
            constexpr unc::Prop other = unc::Prop::SECOND == unc::Prop::est ? unc::Prop::mean : unc::Prop::est;
            const unc::UReal2<LD, other> ol(x);
            const unc::UReal2<double, other> od(ol), oo(x);
            const D back(ol);
            same_ids(c, x, ol, "type and mode", done);
            const std::string d3 = obs::diff(o, obs::observe(back, XD.R, XD.indep), 1e-12, 1e-25);
            if (!d3.empty()) c.viol("round-trip-mode", d3 + " after " + done);
            near_(c, "mode-n", od.n() + x.n(), 2 * x.first_order_n(), 1e-12 * (std::fabs(x.first_order_n()) + std::fabs(x.m(1))), "sum of n in both modes", done);
            near_(c, "mode-n", oo.n() + x.n(), 2 * x.first_order_n(), 1e-12 * (std::fabs(x.first_order_n()) + std::fabs(x.m(1))), "sum of n in both modes", done);
            const unc::UReal2<float, other> of(x);
            near_(c, "mode-n", double(of.first_order_n()), x.first_order_n(), 1e-7 * std::fabs(x.first_order_n()) + 1e-40, "float n in the other mode", done);
        }
#endif
        // covariances among converted variables
        for (size_t w = 0; w < XD.R.size(); ++w) {
            const D &y = XD.R[w];
            const double cxy = cov(x, y);
            double B = 0;
            for (auto &z : S.R[w].ga) B += double(z);
            for (auto &z : S.R[w].Ha) B += double(z);
            double t = 0;
#ifdef SECOND
            t = 60 * A * B;
#else
            for (size_t v = 0; v < S.R[d].ga.size(); ++v) t += double(S.R[d].ga[v]) * double(S.R[w].ga[v]);
            t *= 50;
#endif
            near_(c, "cov-float", double(cov(xf, conv_narrow<F>(y, 0))), cxy, 4e-7 * t + 1e-37, "cov of floats with r" + std::to_string(w), done);
            near_(c, "cov-long-double", double(cov(xl, conv_wide<L>(y, way))), cxy, 1e-14 * t + 1e-300, "cov of long doubles with r" + std::to_string(w), done);
            near_(c, "cov-round-trip", cov(xff, y), cxy, 4e-7 * t + 1e-37, "cov after a round trip with r" + std::to_string(w), done);
        }
    }
    c.distinct(p.hash());
    c.sample(p.str());
}

// quantities in any unit of measure: every coefficient survives with its relative precision
template<class A, class B> static void units(h::Ctx &c, int top, double rel, const char *name) {
    using RA = typename A::real_type;
    h::Rng &r = c.rng;
    for (int rep = 0; rep < 400; ++rep) {
        auto valw = [&](int e) { const double z = float(r.uni(0.5, 1)); return RA(std::ldexp(r.chance(0.5) ? z : -z, r.range(-e, e))); };
        std::vector<A> v; std::vector<B> w;
        for (int i = 0; i < 3; ++i) {
            const RA n = valw(top), sd = std::abs(valw(top));
#ifdef SECOND
            v.push_back(A(n, sd, std::array<RA, 6>{{ 0, 3, 0, 15, 0, 105 }}));
#else
            v.push_back(A(n, sd));
#endif
            w.push_back(r.chance(0.5) ? B(v.back()) : static_cast<B>(v.back()));
        }
#ifdef SECOND
        A x = r.chance(0.5) ? binary(v[0], v[1], valw(top), valw(top), valw(top), valw(top), valw(top), valw(top)) : unary(v[0], valw(top), valw(top), valw(top));
        if (r.chance(0.5)) x = binary(x, v[2], valw(top), RA(1), valw(top), RA(0), valw(top), RA(0));
#else
        A x = r.chance(0.5) ? binary(v[0], v[1], valw(top), valw(top), valw(top)) : unary(v[0], valw(top), valw(top));
        if (r.chance(0.5)) x = binary(x, v[2], valw(top), RA(1), valw(top));
#endif
        const B y(x);
        const A z(y);
        auto near = [&](const char *what, LD got, LD want) {
            c.check(std::fabs(got - want) <= LD(rel) * std::fabs(want), std::string("units-") + what + "-" + name, [&] { return std::string(what) + " got " + h::num(double(got)) + " want " + h::num(double(want)); });
        };
        h::where(std::string("units ") + name);
        near("mean", LD(fo(y)), LD(fo(x)));
        near("mean", LD(fo(z)), LD(fo(x)));
        for (size_t i = 0; i < 3; ++i) {
            near("grad", LD(y.grad(w[i])), LD(x.grad(v[i])));
            near("back-grad", LD(z.grad(v[i])), LD(x.grad(v[i])));
#ifdef SECOND
            for (size_t j = 0; j < 3; ++j) {
                near("hess", LD(y.hess(w[i], w[j])), LD(x.hess(v[i], v[j])));
                near("back-hess", LD(z.hess(v[i], v[j])), LD(x.hess(v[i], v[j])));
            }
#endif
        }
        c.count(std::string("conversions in any unit of measure ") + name);
    }
}
void run_once(h::Ctx &c) {
#ifdef SECOND
    units<D, L>(c, 120, 1e-14, "double to long double");
    units<L, D>(c, 120, 1e-14, "long double to double");
    units<D, F>(c, 14, 3e-6, "double to float");
    units<F, D>(c, 14, 3e-6, "float to double");
#else
    units<D, L>(c, 250, 1e-14, "double to long double");
    units<L, D>(c, 250, 1e-14, "long double to double");
    units<D, F>(c, 30, 1e-6, "double to float");
    units<F, D>(c, 30, 1e-6, "float to double");
#endif
}
