// C04: algebraic laws of covariances and correlations, matrices.
#include "lib.hpp"
#include <uncertainties/impl.hpp>
#include <list>
#include <deque>
#include <iterator>
#include <Eigen/Dense>
using namespace prog;
using Q = quad;

template<class U> struct Laws {
    using Real = typename U::real_type;
    h::Ctx &c;
    std::vector<U> x;          // the collection
    std::vector<double> sc;    // size of the terms summed in its moments
    std::string hist;
    static double e() { return double(std::numeric_limits<Real>::epsilon()); }
    static double floor_() { return sizeof(Real) == 4 ? 1e83 : 1e-30; }   // variances and their products are normal numbers
    static bool same(Real a, Real b) { return a == b || (a != a && b != b); }

    void bad(const std::string &key, const std::string &m) { c.viol(key, m + " in " + hist); }

    void pairs() {
        const double K = 2e3 * e();
        for (size_t i = 0; i < x.size(); ++i) {
            c.eval(3);
            const double t = K * sc[i] * sc[i] + 1e-300;
            const double cv = double(cov(x[i], x[i])), v = double(var(x[i])), s = double(x[i].s());
            if (!(std::fabs(cv - v) <= t)) bad("cov-self-is-var", h::num(cv) + " " + h::num(v));
            if (v < 0 && v >= -t) continue;
            if (!(v >= 0)) bad("negative-variance", h::num(v));
            if (!(std::fabs(s * s - v) <= t)) bad("var-is-sdev-squared", h::num(v) + " " + h::num(s));
            if (!(s >= 0)) bad("negative-sdev", h::num(s));
            for (size_t j = 0; j < x.size(); ++j) {
                c.eval(3);
                const double u = K * sc[i] * sc[j] + 1e-300;
                const double a = double(cov(x[i], x[j])), b = double(cov(x[j], x[i]));
                if (!(std::fabs(a - b) <= u)) bad("symmetry", "cov " + h::num(a) + " and " + h::num(b));
                const double si = s, sj = double(x[j].s());
                if (!(std::fabs(a) <= si * sj + u + std::sqrt(K) * 1e-3 * sc[i] * sc[j])) bad("cauchy-schwarz", h::num(a) + " > " + h::num(si * sj));
                if (si > std::sqrt(K) * sc[i] * 30 && sj > std::sqrt(K) * sc[j] * 30 && si > 1e-100 * floor_() && sj > 1e-100 * floor_()) {
                    const double r = double(corr(x[i], x[j])), w = a / si / sj;
                    const double tr = 4 * u / si / sj + 1e3 * e();
                    c.count(std::fabs(r) > 0.999 ? "correlation ~1" : std::fabs(r) < 1e-9 ? "correlation ~0" : "correlation between");
                    if (!(std::fabs(r - w) <= tr)) bad("corr-definition", h::num(r) + " " + h::num(w));
                    if (!(std::fabs(r) <= 1 + tr)) bad("corr-range", h::num(r));
                    if (!(std::fabs(double(corr(x[j], x[i])) - r) <= tr)) bad("corr-symmetry", h::num(r));
                    if (i == j && !(std::fabs(r - 1) <= tr)) bad("corr-self", h::num(r));
                }
            }
        }
    }
    void bilinear(int reps) {
        const double K = 4e3 * e();
        for (int k = 0; k < reps; ++k) {
            const size_t i = size_t(c.rng.below(int(x.size()))), j = size_t(c.rng.below(int(x.size()))), l = size_t(c.rng.below(int(x.size())));
            const double a = c.rng.range(-3, 3) * 0.5, b = c.rng.range(-3, 3);
            const U z = U(Real(a)) * x[i] + x[j] * U(Real(b));
            const double want = a * double(cov(x[i], x[l])) + b * double(cov(x[j], x[l]));
            const double t = K * (std::fabs(a) * sc[i] + std::fabs(b) * sc[j]) * sc[l] + 1e-300;
            c.eval(2);
            if (!(std::fabs(double(cov(z, x[l])) - want) <= t) || !(std::fabs(double(cov(x[l], z)) - want) <= t))
                bad("bilinear", "cov(" + h::num(a) + "x" + std::to_string(i) + "+" + h::num(b) + "x" + std::to_string(j) + ",x" + std::to_string(l) + ") got " + h::num(double(cov(z, x[l]))) + " want " + h::num(want));
            const double vw = a * a * double(var(x[i])) + b * b * double(var(x[j])) + 2 * a * b * double(cov(x[i], x[j]));
            const double tv = K * std::pow(std::fabs(a) * sc[i] + std::fabs(b) * sc[j], 2) + 1e-300;
            if (!(std::fabs(double(var(z)) - vw) <= tv)) bad("variance-of-sum", h::num(double(var(z))) + " want " + h::num(vw));
        }
    }
    template<class V> void same_matrix(const char *how, const V &m, const std::vector<Real> &ref) {
        c.eval();
        bool ok = m.size() == ref.size();
        size_t k = 0;
        if (ok) for (auto it = m.begin(); it != m.end(); ++it, ++k) if (!same(*it, ref[k])) { ok = false; break; }
        c.count(std::string("matrix ") + how);
        if (!ok) bad(std::string("matrix:") + how, "size " + std::to_string(m.size()) + " first difference at " + std::to_string(k));
    }
    void matrices() {
        const size_t n = x.size();
        std::vector<Real> rc, rr;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { rc.push_back(cov(x[i], x[j])); rr.push_back(corr(x[i], x[j])); }
        // containers
        same_matrix("cov vector", unc::cov_matrix<std::vector<Real>>(x), rc);
        same_matrix("corr vector", unc::corr_matrix<std::vector<Real>>(x), rr);
        same_matrix("cov deque", unc::cov_matrix<std::deque<Real>>(std::deque<U>(x.begin(), x.end())), rc);
        // iterators
        std::list<U> lst(x.begin(), x.end());
        std::vector<Real> o(n * n, Real(-77));
        auto e1 = unc::cov_matrix(lst.begin(), lst.end(), o.begin());
        same_matrix("cov list iterators", o, rc);
        c.check(e1 == o.end(), "returned-iterator", [&] { return std::string("cov"); });
        std::vector<Real> o2;
        unc::corr_matrix(lst.cbegin(), lst.cend(), std::back_inserter(o2));
        same_matrix("corr const list iterators, back_inserter", o2, rr);
        std::vector<Real> o3(n * n, Real(-77));
        Real *e3 = unc::cov_matrix(x.data(), x.data() + n, o3.data());
        same_matrix("cov pointers", o3, rc);
        c.check(e3 == o3.data() + n * n, "returned-iterator", [&] { return std::string("pointer"); });
        const U *cp = x.data();
        std::deque<Real> o4(n * n, Real(-77));
        unc::corr_matrix(cp, cp + n, o4.begin());
        same_matrix("corr const pointers", o4, rr);
        std::vector<Real> o5;
        unc::cov_matrix(x.rbegin(), x.rend(), std::back_inserter(o5));
        std::reverse(o5.begin(), o5.end());
        same_matrix("cov reverse iterators", o5, rc);
        // sub-range
        if (n > 2) {
            std::vector<Real> sub, want;
            unc::cov_matrix(x.begin() + 1, x.end() - 1, std::back_inserter(sub));
            for (size_t i = 1; i + 1 < n; ++i) for (size_t j = 1; j + 1 < n; ++j) want.push_back(rc[i * n + j]);
            same_matrix("cov sub-range", sub, want);
        }
        const std::vector<Real> nv = unc::nom_vector<std::vector<Real>>(x);
        bool ok = nv.size() == n;
        for (size_t i = 0; ok && i < n; ++i) ok = same(nv[i], unc::nom(x[i])) && same(nv[i], x[i].n());
        c.check(ok, "nom_vector", [&] { return hist; });
        // conversion back
        std::vector<Real> sg;
        for (auto &v : x) sg.push_back(v.s());
        const std::vector<Real> cc = unc::corr2cov<std::vector<Real>>(sg, rr);
        c.eval(cc.size());
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            const Real got = cc[i * n + j], want = rc[i * n + j];
            const double t = 64 * e() * (std::fabs(double(want)) + double(sg[i]) * double(sg[j]) * 0) + 1e-300;
            if (rr[i * n + j] != rr[i * n + j]) continue;
            if (double(sg[i]) < 1e-100 * floor_() || double(sg[j]) < 1e-100 * floor_() || !std::isfinite(double(rr[i * n + j]))) { c.count("variance not representable"); continue; }
            if (!(std::fabs(double(got - want)) <= t)) bad("corr2cov", "(" + std::to_string(i) + "," + std::to_string(j) + ") " + h::num(double(got)) + " want " + h::num(double(want)));
        }
        // the formula, element by element, for any matrix
        {
            std::vector<Real> any(n * n);
            for (auto &q : any) q = Real(c.rng.chance(0.2) ? 0 : c.rng.normal());
            const std::vector<Real> ac = unc::corr2cov<std::vector<Real>>(nv, any);
            c.check(ac.size() == n * n, "corr2cov-any", [&] { return "size " + std::to_string(ac.size()); });
            for (size_t i = 0; i < n && ac.size() == n * n; ++i) for (size_t j = 0; j < n; ++j) {
                const long double want = (long double)any[i * n + j] * nv[i] * nv[j];
                if (!(std::fabs(want) < 1e37L) || (want != 0 && std::fabs(want) < 1e-30L) || std::fabs((long double)nv[i] * nv[j]) < 1e-30L) continue;
                c.check(std::fabs(ac[i * n + j] - want) <= 8 * e() * std::fabs(want), "corr2cov-any", [&] { return "(" + std::to_string(i) + "," + std::to_string(j) + ") of a matrix that is not symmetric got " + h::num(double(ac[i * n + j])) + " want " + h::num(double(want)); });
            }
        }
        // positive semidefinite, in units of the size of the summed terms
        if (n > 0) {
            Eigen::MatrixXd M(n, n);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) M(long(i), long(j)) = sc[i] > 0 && sc[j] > 0 ? double(rc[i * n + j]) / sc[i] / sc[j] : 0;
            Eigen::MatrixXd Ms = (M + M.transpose()) / 2;
            Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Ms, Eigen::EigenvaluesOnly);
            const double mn = es.eigenvalues().minCoeff();
            c.eval();
            if (!(mn >= -double(n) * 4e3 * e() )) bad("not-psd", "smallest eigenvalue " + h::num(mn));
            c.count(mn < 1e-9 ? "psd singular" : "psd regular");
        }
    }
};

// size of the terms that are summed in the moments
template<class T> double term_size(const sh::Sh<T> &q) {
    double s = 0;
    for (auto &g : q.ga) s += double(g);
    for (auto &g : q.Ha) s += 8 * double(g);
    return s;
}

template<class U> void go(h::Ctx &c, const Program &p) {
    ShExec<Q> S(p.cfg);
    LibExec<U> L(p.cfg);
    for (auto &i : p.ins) { h::where(i.str()); S.run(i); L.run(i); }
    Laws<U> w { c, {}, {}, p.str() };
    for (int r = 0; r < p.cfg.regs; ++r) { w.x.push_back(L.R[size_t(r)]); w.sc.push_back(term_size(S.R[size_t(r)])); }
    for (size_t k = 0; k < L.indep.size(); ++k) if (c.rng.chance(0.5)) { w.x.push_back(L.indep[k]); w.sc.push_back(p.sig[k]); }
    if (c.idx % 4 == 1) { // the same laws at any scale
        const int W = sizeof(typename U::real_type) == 4 ? 40 : 420;
        const bool common = c.rng.chance(0.3);
        const int K = c.rng.range(-W, W);
        for (size_t k = 0; k < w.x.size(); ++k) if (common || c.rng.chance(0.5)) {
            const int q = common ? K : c.rng.range(-W, W);
            w.x[k] = w.x[k] * U(typename U::real_type(std::ldexp(1.0, q)));
            w.sc[k] = std::ldexp(w.sc[k], q);
        }
        c.count("collections with wide scales");
    }
    c.rng.next();
    h::where("laws " + p.str());
    w.pairs();
    w.bilinear(6);
    w.matrices();
}

// two computations without common variables
template<class U> void disjoint(h::Ctx &c, const Program &p, const Program &q) {
    LibExec<U> A(p.cfg), B(q.cfg);
    ShExec<Q> SA(p.cfg), SB(q.cfg);
    size_t i = 0, j = 0;
    while (i < p.ins.size() || j < q.ins.size()) {  // interleaved, so that identities are too
        if (j >= q.ins.size() || (i < p.ins.size() && c.rng.chance(0.5))) { A.run(p.ins[i]); SA.run(p.ins[i]); ++i; }
        else { B.run(q.ins[j]); SB.run(q.ins[j]); ++j; }
    }
    for (int a = 0; a < p.cfg.regs; ++a) for (int b = 0; b < q.cfg.regs; ++b) {
        const double t = (Ops<U>::second ? 1e-12 * term_size(SA.R[size_t(a)]) * term_size(SB.R[size_t(b)]) : 0);
        const double v = double(cov(A.R[size_t(a)], B.R[size_t(b)])), w = double(cov(B.R[size_t(b)], A.R[size_t(a)]));
        c.eval(2);
        if (!(std::fabs(v) <= t && std::fabs(w) <= t)) c.viol("disjoint-covariance", h::num(v) + " r" + std::to_string(a) + " of " + p.str() + " and r" + std::to_string(b) + " of " + q.str());
    }
    c.count("disjoint pairs of programs");
}

void run_case(h::Ctx &c) {
    h::Rng &r = c.rng;
    auto mk = [&](bool second, bool fl) {
        Cfg cfg;
        cfg.second = second;
        cfg.maxvars = r.range(1, 6);
        cfg.regs = r.range(2, 7);
        cfg.len = r.range(3, second ? 18 : 25);
        cfg.nmom = 4;
        cfg.float_in = fl;
        if (r.chance(0.3)) cfg.linear = true;
        else if (r.chance(0.4)) cfg.arith = true;
        if (c.idx % 128 == 7) { // many variables
            cfg.maxvars = second ? r.range(8, 14) : r.range(16, 64); cfg.regs = second ? r.range(6, 10) : r.range(16, 48); cfg.len = cfg.regs + r.range(20, second ? 40 : 100);
            c.count("programs with many variables");
        }
        Gen<Q> g(r, cfg);
        g.generate();
        return g.p;
    };
    const int which = r.below(8);
    const Program p = mk(which >= 4, which == 3);
    if (p.ins.size() < 2) return;
    c.distinct(p.hash());
    c.sample(p.str());
    if (which < 3) go<unc::udouble>(c, p);
    else if (which == 3) go<unc::ufloat>(c, p);
    else if (which < 6) go<unc::udouble2e>(c, p);
    else go<unc::udouble2m>(c, p);
    if (r.chance(0.3)) {
        const bool s2 = r.chance(0.5);
        const Program a = mk(s2, false), b = mk(s2, false);
        if (s2) disjoint<unc::udouble2m>(c, a, b); else disjoint<unc::udouble>(c, a, b);
    }
}

void run_once(h::Ctx &c) {
    // empty and singleton collections
    Laws<unc::udouble> a { c, {}, {}, "empty" };
    a.matrices();
    Laws<unc::udouble> b { c, { unc::udouble(1, 2) }, { 2 }, "one" };
    b.pairs(); b.matrices();
    Laws<unc::udouble> k { c, { unc::udouble(1), unc::udouble(3), unc::udouble(1, 0) }, { 0, 0, 0 }, "constants" };
    k.pairs(); k.matrices();
    Laws<unc::udouble2e> d { c, {}, {}, "empty2" };
    d.matrices();
    // a large collection
    h::Rng &r = c.rng;
    std::vector<unc::udouble> v; std::vector<double> sc;
    for (int i = 0; i < 60; ++i) {
        unc::udouble z(0.0); double s = 0;
        for (int t = 0; t < 5; ++t) {
            if (v.empty() || r.chance(0.3)) { z += unc::udouble(1, 0.5); s += 0.5; }
            else { const int j = r.below(int(v.size())); const double w = r.range(-2, 2); z += w * v[size_t(j)]; s += std::fabs(w) * sc[size_t(j)]; }
        }
        v.push_back(z); sc.push_back(s);
    }
    Laws<unc::udouble> big { c, v, sc, "60 variables" };
    big.pairs(); big.bilinear(200); big.matrices();
}
