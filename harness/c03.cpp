// C03: twin execution. A: in-place operators, reads at random moments.
// B: out-of-place expressions and assignment, no read ever on the live variables.
#include "lib.hpp"
#include <uncertainties/impl.hpp>
using namespace prog;
using Q = quad;

template<class U> struct Reads1 {
    using Real = typename U::real_type;
    static double e() { return double(std::numeric_limits<Real>::epsilon()); }
    // all the ways of reading, at random; they must agree with each other
    static void go(h::Ctx &c, LibExec<U> &L, int r, const std::string &hist) {
        U &x = L.R[size_t(r)];
        const U &cx = x;
        const int k = c.rng.below(11);
        static const char *const nm[] = { "s-const", "s-nonconst", "var-const", "var-nonconst", "sdev", "cov", "corr", "format", "stream", "grad", "convert" };
        c.count(std::string("read ") + nm[k] + (x.indepid() == 0 ? " const" : x.isindep() ? " one" : " many"));
        std::vector<Real> before, after;
        for (auto &i : L.indep) before.push_back(cov(cx, i));
        const Real s0 = U(cx).s(), n0 = cx.n();
        Real a = s0, b = s0;
        switch (k) {
        case 0: a = cx.s(); b = x.s(); break;
        case 1: a = x.s(); b = cx.s(); break;
        case 2: { Real v = var(cx); a = std::sqrt(v); b = cx.s(); break; }
        case 3: { Real v = var(x); a = std::sqrt(v); b = x.s(); break; }
        case 4: a = unc::sdev(x); b = unc::sdev(cx); break;
        case 5: { Real v = cov(x, x); a = std::sqrt(v); b = x.s(); break; }
        case 6: { const Real co = corr(x, cx); a = x.s(); b = cx.s();
            if (a > 0) c.check(std::fabs(double(co - 1)) < 64 * e(), "corr-self", [&] { return h::num(double(co)) + " in " + hist; });
            break; }
        case 7: { const std::string u = x.format(1.5f), v = format(cx), w = format(U(x)); 
            c.check(u == v && v == w, "format-changes", [&] { return u + " / " + v + " / " + w + " in " + hist; }); break; }
        case 8: { std::ostringstream o, p; o << x; (void)x.s(); p << cx; 
            c.check(o.str() == p.str(), "format-changes", [&] { return o.str() + " / " + p.str() + " in " + hist; }); break; }
        case 9: for (auto &i : L.indep) if (U(i).s() > 0) (void)x.grad(i); break;
        case 10: { unc::UReal<long double> y = x; (void)y.s(); break; }
        }
        const Real t = Real(16 * e()) * s0 + std::numeric_limits<Real>::min();
        c.check(std::fabs(a - s0) <= t && std::fabs(b - s0) <= t, std::string("read-inconsistent:") + nm[k],
            [&] { return "r" + std::to_string(r) + " " + h::num(double(a)) + " " + h::num(double(b)) + " " + h::num(double(s0)) + " in " + hist; });
        c.check(!(a < 0) && !(b < 0), "negative-sdev", [&] { return hist; });
        for (auto &i : L.indep) after.push_back(cov(cx, i));
        bool same = n0 == cx.n();
        for (size_t i = 0; i < before.size(); ++i) if (!(before[i] == after[i]) && before[i] == before[i]) same = false;
        c.check(same, std::string("read-changes-value:") + nm[k], [&] { return "r" + std::to_string(r) + " in " + hist; });
    }
};

template<class U> struct Reads2 {
    static void go(h::Ctx &c, LibExec<U> &L, int r, const std::string &hist) {
        U &x = L.R[size_t(r)];
        const U &cx = x;
        const int k = c.rng.below(7);
        static const char *const nm[] = { "s", "var", "sdev", "m", "cov", "format", "hess" };
        c.count(std::string("read2 ") + nm[k]);
        const double n0 = cx.n(), s0 = cx.s(), v0 = cx.m(2);
        switch (k) {
        case 0: (void)x.s(); (void)x.skew(); (void)x.kurt(); break;
        case 1: c.check(var(x) == v0 || v0 != v0, "var-m2", [&] { return hist; }); break;
        case 2: c.check(unc::sdev(x) == s0 || s0 != s0, "sdev-s", [&] { return hist; }); break;
        case 3: (void)x.m(c.rng.range(1, 4)); break;
        case 4: (void)cov(x, cx); break;
        case 5: if (std::isfinite(s0) && s0 >= 0) (void)format(x); break;
        case 6: for (auto &i : L.indep) if (i.s() > 0) { (void)x.grad(i); (void)x.hess(i, i); } break;
        }
        c.check((n0 == cx.n() || n0 != n0) && (s0 == cx.s() || s0 != s0), std::string("read-changes-value2:") + nm[k], [&] { return hist; });
    }
};

static std::string hist(const Program &p, size_t upto) {
    std::string s;
    for (size_t k = 0; k <= upto && k < p.ins.size(); ++k) s += p.ins[k].str() + "; ";
    return s;
}

template<class U> void twin1(h::Ctx &c, const Program &p) {
    using Real = typename U::real_type;
    ShExec<Q> S(p.cfg);
    ShExec<Real> D(p.cfg);
    LibExec<U> A(p.cfg), B(p.cfg);
    B.allow_inplace = false;
    Tol<Q, Real> tol;
    for (size_t k = 0; k < p.ins.size(); ++k) {
        const Ins &i = p.ins[k];
        h::where(i.str());
        while (c.rng.chance(0.4)) Reads1<U>::go(c, A, c.rng.below(p.cfg.regs), hist(p, k ? k - 1 : 0));
        if (i.kind == INPL) {
            auto cls = [&](const U &r) { return r.indepid() == 0 ? "const" : r.isindep() ? "one" : "many"; };
            c.count(std::string("inplace ") + sh::op2_name[i.op] + " " + cls(A.R[size_t(i.dst)]) + (i.a < 0 ? " number" : i.a == i.dst ? (i.temp ? " copy of itself" : " itself") : std::string(" ") + cls(A.R[size_t(i.a)])));
        }
        S.run(i); D.run(i); A.run(i); B.run(i);
        for (int r = 0; r < p.cfg.regs; ++r) {
            if (r != i.dst && !(i.kind == SWAP && r == i.a) && k + 1 < p.ins.size() && !c.rng.chance(0.1)) continue;
            const U a = A.R[size_t(r)], b = B.R[size_t(r)];
            const sh::Sh<Q> &q = S.R[size_t(r)];
            const sh::Sh<Real> &d = D.R[size_t(r)];
            const std::string tag = kind_name[i.kind];
            auto near = [&](const char *w, double x, double y, double t) {
                c.eval();
                if (!(std::fabs(x - y) <= t))
                    c.viol(std::string("twin-") + w + ":" + tag, std::string(w) + " of r" + std::to_string(r) + " in place " + h::num(x) + " out of place " + h::num(y) + " tol " + h::num(t) + " in " + hist(p, k));
            };
            near("mean", double(a.n()), double(b.n()), 2 * tol.v(q, d) + 1e-37);
            double t2 = 0, sm = 0;
            for (size_t v = 0; v < A.indep.size(); ++v) {
                const double t = 2 * tol.g(q, d, v) + 1e-37;
                t2 += t * t;
                sm += double(q.g[v]) * double(q.g[v]);
                near("cov", double(cov(a, A.indep[v])), double(cov(b, B.indep[v])), t * p.sig[v] * 1.01 + 1e-37);
            }
            near("sdev", double(a.s()), double(b.s()), 2 * std::sqrt(t2) + 8 * double(std::numeric_limits<Real>::epsilon()) * std::sqrt(sm) + 1e-37);
            // what the interleaved reads may have cached
            const U &la = A.R[size_t(r)];
            near("sdev-cached", double(la.s()), double(b.s()), 2 * std::sqrt(t2) + 8 * double(std::numeric_limits<Real>::epsilon()) * std::sqrt(sm) + 1e-37);
            near("var-cached", std::sqrt(double(var(la))), double(b.s()), 2 * std::sqrt(t2) + 8 * double(std::numeric_limits<Real>::epsilon()) * std::sqrt(sm) + 1e-37);
        }
    }
}

template<class U> void twin2(h::Ctx &c, const Program &p) {
    ShExec<Q> S(p.cfg);
    ShExec<double> D(p.cfg);
    LibExec<U> A(p.cfg), B(p.cfg);
    B.allow_inplace = false;
    Tol<Q, double> tol;
    const size_t N = size_t(p.cfg.maxvars);
    for (size_t k = 0; k < p.ins.size(); ++k) {
        const Ins &i = p.ins[k];
        h::where(i.str());
        while (c.rng.chance(0.3)) Reads2<U>::go(c, A, c.rng.below(p.cfg.regs), hist(p, k ? k - 1 : 0));
        S.run(i); D.run(i); A.run(i); B.run(i);
        if (i.kind != INPL && k + 1 < p.ins.size()) continue;
        c.count("inplace2");
        for (int r = 0; r < p.cfg.regs; ++r) {
            if (r != i.dst && k + 1 < p.ins.size()) continue;
            const U &a = A.R[size_t(r)], &b = B.R[size_t(r)];
            const sh::Sh<Q> &q = S.R[size_t(r)];
            const sh::Sh<double> &d = D.R[size_t(r)];
            auto near = [&](const char *w, double x, double y, double t) {
                c.eval();
                if (!(std::fabs(x - y) <= t))
                    c.viol(std::string("twin2-") + w, std::string(w) + " of r" + std::to_string(r) + " in place " + h::num(x) + " out of place " + h::num(y) + " tol " + h::num(t) + " in " + hist(p, k));
            };
            near("mean", a.first_order_n(), b.first_order_n(), 2 * tol.v(q, d) + 1e-300);
            for (size_t v = 0; v < A.indep.size(); ++v) {
                if (!(p.sig[v] > 0)) continue;
                near("grad", a.grad(A.indep[v]), b.grad(B.indep[v]), (2 * tol.g(q, d, v) + 1e-300) / p.sig[v] * 1.01);
                for (size_t w = 0; w < A.indep.size(); ++w) if (p.sig[w] > 0)
                    near("hess", a.hess(A.indep[v], A.indep[w]), b.hess(B.indep[v], B.indep[w]), (2 * tol.H(q, d, v * N + w) + 1e-300) / p.sig[v] / p.sig[w] * 1.01);
            }
        }
    }
}

void run_case(h::Ctx &c) {
    Cfg cfg;
    h::Rng &r = c.rng;
    cfg.maxvars = r.range(1, 6);
    cfg.regs = r.range(2, 5);
    cfg.len = r.range(4, c.thorough ? 60 : 30);
    const int style = r.below(10);
    if (style <= 2) cfg.linear = true;
    else if (style <= 7) cfg.arith = true;
    const int which = r.below(10);
    if (which < 2) { cfg.second = true; cfg.maxvars = std::min(cfg.maxvars, 4); }
    if (which == 2) { cfg.float_in = true; cfg.len = r.range(4, 15); }
    if (c.idx % 128 == 7) { // many variables
        const bool s2 = cfg.second;
        cfg.maxvars = s2 ? r.range(8, 16) : r.range(16, 64); cfg.regs = s2 ? r.range(6, 10) : r.range(12, 40); cfg.len = cfg.regs + r.range(20, s2 ? 40 : 100);
        if (s2) cfg.arith = true;
        c.count("programs with many variables");
    }
    Gen<Q> g(r, cfg);
    g.inplace_bias = 0.6;
    g.generate();
    if (g.p.ins.size() < 2) return;
    c.distinct(g.p.hash());
    c.sample(g.p.str());
    if (which == 0) twin2<unc::udouble2e>(c, g.p);
    else if (which == 1) twin2<unc::udouble2m>(c, g.p);
    else if (which == 2) twin1<unc::ufloat>(c, g.p);
    else twin1<unc::udouble>(c, g.p);
}

template<class Real> void selfops(h::Ctx &c) {
    using U = unc::UReal<Real>;
    const double e = double(std::numeric_limits<Real>::epsilon());
    // every state of the left operand x every relation with the right one
    for (int state = 0; state < 8; ++state) for (int op = 0; op < 4; ++op) for (int rel = 0; rel < 6; ++rel) for (int rd = 0; rd < 4; ++rd) {
        const U x(Real(2), Real(0.5)), y(Real(-3), Real(0.25));
        auto mk = [&] {
            switch (state) {
            case 0: return U(x);
            case 1: return U(Real(5));
            case 2: return U(x + y);
            case 3: { U z = x; z += y; (void)z.s(); return z; }
            case 4: { U z = x; z *= Real(-1); return z; }
            case 5: { U z = x + Real(1); return z; }
            case 6: { U z = x * y; (void)z.s(); z = -z; (void)z.s(); return z; }
            }
            U z = x - x; z += Real(4); return z;
        };
        const U w(Real(7), Real(2));
        U a = mk();
        const U b0 = mk();
        switch (rd) { case 1: (void)a.s(); break; case 2: (void)var(a); break; case 3: (void)format(a); break; }
        U rhs;
        switch (rel) {
        case 0: case 1: rhs = b0; break;
        case 2: rhs = x; break;
        case 3: rhs = w; break;
        case 4: rhs = Real(3); break;
        case 5: rhs = x * w - y; (void)rhs.s(); break;
        }
        U want = op == 0 ? b0 + rhs : op == 1 ? b0 - rhs : op == 2 ? b0 * rhs : b0 / rhs;
        const U *ret = nullptr;
        const U &arg = rel == 0 ? a : rhs;
        switch (op) { case 0: ret = &(a += arg); break; case 1: ret = &(a -= arg); break; case 2: ret = &(a *= arg); break; case 3: ret = &(a /= arg); break; }
        const std::string id = "state " + std::to_string(state) + " op " + std::to_string(op) + " rel " + std::to_string(rel) + " read " + std::to_string(rd);
        h::where(id);
        c.check(ret == &a, "return-of-compound-assignment", [&] { return id; });
        auto near = [&](Real p, Real q, Real sc) { return std::fabs(double(p - q)) <= 64 * e * (std::fabs(double(q)) + double(sc)); };
        bool ok = near(a.n(), want.n(), 0) && near(U(a).s(), want.s(), Real(8)) && near(a.s(), want.s(), Real(8)) && near(std::sqrt(var(a)), want.s(), Real(8));
        for (const U *v : { &x, &y, &w }) ok = ok && near(cov(a, *v), cov(want, *v), Real(8)) && near(cov(*v, a), cov(want, *v), Real(8));
        c.check(ok, "state-table", [&] { return id + " got " + h::num(double(a.n())) + "+-" + h::num(double(a.s())) + " want " + h::num(double(want.n())) + "+-" + h::num(double(want.s())); });
        c.count("state table entries");
    }
}
// quantities in any unit of measure: in place against out of place
template<class U, class Mk> void units(h::Ctx &c, Mk mk, int top) {
    using Real = typename U::real_type;
    h::Rng &r = c.rng;
    const Real e = std::numeric_limits<Real>::epsilon();
    for (int k = 0; k < 800; ++k) {
        const int u = r.range(-top, top), w = r.chance(0.5) ? u : r.range(-top, top);
        auto val = [&](int ex) { const double z = r.uni(0.1, 3); return Real(std::ldexp(r.chance(0.5) ? z : -z, ex)); };
        const U v[3] = { mk(val(u), std::abs(val(u)) / 8), mk(val(w), std::abs(val(w)) / 8), mk(val(u), std::abs(val(u)) / 8) };
        const U x = r.chance(0.5) ? v[0] : v[0] + v[2];
        const int rel = r.below(5), op = r.below(4);
        const Real num = val(w);
        const U y = rel == 0 ? v[1] : rel == 1 ? v[1] + v[1] * U(Real(0.5)) : rel == 2 ? x : rel == 3 ? U(num) : v[2];
        U a = x, b = x;
        const bool self = rel == 2;
        switch (op) {
        case 0: b = x + y; if (self) a += a; else if (rel == 3) a += num; else a += y; break;
        case 1: b = x - y; if (self) a -= a; else if (rel == 3) a -= num; else a -= y; break;
        case 2: b = x * y; if (self) a *= a; else if (rel == 3) a *= num; else a *= y; break;
        case 3: b = x / y; if (self) a /= a; else if (rel == 3) a /= num; else a /= y; break;
        }
        auto say = [&] { return "op " + std::to_string(op) + " rel " + std::to_string(rel) + " units 2^" + std::to_string(u) + ", 2^" + std::to_string(w); };
        h::where(say());
        const bool zero = self && (op == 1 || op == 3); // cancels
        auto near = [&](const char *what, Real p, Real q, Real sc) {
            c.check(std::fabs(double(p - q)) <= 64 * double(e) * std::max(std::fabs(double(q)), double(sc)), std::string("units-") + what, [&] { return std::string(what) + " in place " + h::num(double(p)) + " out of place " + h::num(double(q)) + " " + say(); });
        };
        const Real sy = op == 3 ? Real(1) : x.s();
        near("mean", a.n(), b.n(), zero && op == 1 ? std::abs(x.n()) + x.s() : Real(0));
        near("sdev", a.s(), b.s(), zero ? sy : Real(0));
        for (const U &i : v) if (!zero) near("grad", a.grad(i), b.grad(i), Real(0));
        c.count("compound assignments in any unit of measure");
    }
}
void run_once(h::Ctx &c) {
    units<unc::udouble>(c, [](double n, double s) { return unc::udouble(n, s); }, 200);
    units<unc::ufloat>(c, [](float n, float s) { return unc::ufloat(n, s); }, 12);
    selfops<double>(c); selfops<float>(c); selfops<long double>(c); }
