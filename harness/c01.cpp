// C01: first-order propagation of whole programs against shadow AD.
#include "lib.hpp"
#include <algorithm>
#include <uncertainties/impl.hpp>
using namespace prog;
using U = unc::udouble;
using Q = quad;

struct Obs {
    h::Ctx &c;
    const Program &p;
    ShExec<Q> &S;
    ShExec<double> &D;
    LibExec<U> &L;
    Tol<Q, double> tol;

    std::string ctx(size_t upto) const {
        std::string s;
        for (size_t k = 0; k <= upto && k < p.ins.size(); ++k) s += p.ins[k].str() + "; ";
        return s;
    }
    double bad(double got, Q want, double t) const { // >0 if out of tolerance
        if (std::isnan(got)) return 1e300;
        const double d = std::fabs(double(Q(got) - want));
        return d <= t ? 0 : d;
    }
    void one(size_t k, int r, const char *when) {
        const U &x = L.R[size_t(r)];
        const sh::Sh<Q> &q = S.R[size_t(r)];
        const sh::Sh<double> &d = D.R[size_t(r)];
        const std::string tag = kind_name[p.ins[k].kind];
        auto rep = [&](const char *what, double got, Q want, double t) {
            c.viol(std::string(what) + ":" + tag, std::string(what) + " of r" + std::to_string(r) + " " + when + " got " + h::num(got)
                + " want " + h::num(double(want)) + " tol " + h::num(t) + " in " + ctx(k));
        };
        c.eval();
        double t = tol.v(q, d) + 1e-300;
        if (bad(x.n(), q.v, t)) rep("mean", x.n(), q.v, t);
        double t2 = 0; Q s2 = 0;
        for (int i = 0; i < p.nvars && i < int(L.indep.size()); ++i) {
            const double tg = tol.g(q, d, size_t(i)), si = p.sig[size_t(i)];
            t2 += tg * tg; s2 += q.g[size_t(i)] * q.g[size_t(i)];
            c.eval(2);
            const double cv = cov(x, L.indep[size_t(i)]);
            if (bad(cv, q.g[size_t(i)] * si, tg * si * 1.01 + 1e-300)) rep("cov-with-independent", cv, q.g[size_t(i)] * si, tg * si);
            if (si > 0) {
                const double gr = U(x).grad(L.indep[size_t(i)]);
                if (bad(gr, q.g[size_t(i)] / si, tg / si * 1.01 + 1e-300)) rep("grad", gr, q.g[size_t(i)] / si, tg / si);
            }
        }
        if (c.rng.chance(0.3) && !L.indep.empty()) {
            // with respect to functions of one variable only
            const size_t i = size_t(c.rng.below(int(L.indep.size())));
            const double si = p.sig[i];
            if (si > 0) {
                const double kk = c.rng.pick(std::vector<double>{ -1, -2, 3, -0.25, 1e-5, -1e7 });
                const U &v = L.indep[i];
                U w = unary(v, 1.5, kk);
                const int how = c.rng.below(4);
                if (how == 1) w = binary(v, U(2.0), 1.5, kk, 1.);
                if (how == 2) w = binary(v, v, 1.5, kk + 1, -1.);
                if (how == 3) { (void)w.s(); w *= 1.; }
                const double gr = x.grad(w), tg = tol.g(q, d, i) / si / std::fabs(kk) * 1.01 + std::fabs(double(q.g[i]) / si / kk) * (how == 2 ? 4e-16 * (2 + std::fabs(kk)) / std::fabs(kk) : 1e-15) + 1e-300;
                c.eval(); c.count("derivatives with respect to functions of one variable");
                if (bad(gr, q.g[i] / si / kk, tg)) rep("grad-of-function", gr, q.g[i] / si / kk, tg);
            }
        }
        const double ts = std::sqrt(t2) + 1e-14 * double(mf::sqrt(s2)) + 1e-300;
        const Q sq = mf::sqrt(s2);
        c.eval(3);
        const double s1 = x.s();
        if (bad(s1, sq, ts)) rep("sdev", s1, sq, ts);
        const double tv = 2 * double(sq) * ts + ts * ts;
        if (bad(var(x), s2, tv)) rep("var", var(x), s2, tv);
        if (bad(unc::sdev(x), sq, ts)) rep("sdev()", unc::sdev(x), sq, ts);
        if (bad(unc::nom(x), q.v, t)) rep("nom()", unc::nom(x), q.v, t);
    }
    void pair(size_t k, int r, int w) {
        const U &x = L.R[size_t(r)], &y = L.R[size_t(w)];
        const sh::Sh<Q> &q = S.R[size_t(r)], &z = S.R[size_t(w)];
        Q cv = 0; double t = 0, nx = 0, ny = 0; Q sx = 0, sy = 0;
        for (size_t i = 0; i < size_t(p.nvars); ++i) {
            const double tx = tol.g(q, D.R[size_t(r)], i), ty = tol.g(z, D.R[size_t(w)], i);
            cv += q.g[i] * z.g[i];
            nx += tx * tx; ny += ty * ty;
            sx += q.g[i] * q.g[i]; sy += z.g[i] * z.g[i];
            t += std::fabs(double(q.g[i])) * ty + std::fabs(double(z.g[i])) * tx + tx * ty;
        }
        const double got = cov(x, y);
        c.eval();
        if (bad(got, cv, 2 * t + 1e-300))
            c.viol(std::string("cov:") + kind_name[p.ins[k].kind], "cov(r" + std::to_string(r) + ",r" + std::to_string(w) + ") got " + h::num(got) + " want " + h::num(double(cv)) + " tol " + h::num(t) + " in " + ctx(k));
        const double ss = double(mf::sqrt(sx * sy));
        const double dx = double(mf::sqrt(sx)), dy = double(mf::sqrt(sy)), tx = std::sqrt(nx), ty = std::sqrt(ny);
        if (ss > 0 && dx > 1e3 * tx && dy > 1e3 * ty) {
            c.eval();
            const double cr = corr(x, y), tc = 4 * t / ss + 4 * tx / dx + 4 * ty / dy + 1e-12;
            if (bad(cr, cv / ss, tc))
                c.viol(std::string("corr:") + kind_name[p.ins[k].kind], "corr(r" + std::to_string(r) + ",r" + std::to_string(w) + ") got " + h::num(cr) + " want " + h::num(double(cv) / ss) + " in " + ctx(k));
        }
    }
};

static void run_program(h::Ctx &c, const Program &p, bool every) {
    ShExec<Q> S(p.cfg);
    ShExec<double> D(p.cfg);
    LibExec<U> L(p.cfg);
    Obs o { c, p, S, D, L, Tol<Q, double>() };
    for (size_t k = 0; k < p.ins.size(); ++k) {
        const Ins &i = p.ins[k];
        h::where(i.str());
        // storage class of the operands before the operation (state coverage)
        if (i.kind == B2 || i.kind == INPL || i.kind == USER2) {
            const int ra = i.kind == INPL ? i.dst : i.a, rb = i.kind == INPL ? i.a : i.b;
            auto cls = [&](int r) { return r < 0 ? "num" : L.R[size_t(r)].indepid() == 0 ? "const" : L.R[size_t(r)].isindep() ? "one" : "many"; };
            c.count(std::string("state ") + kind_name[i.kind] + " " + cls(ra) + "x" + cls(rb) + (ra == rb ? " aliased" : ""));
        }
        S.run(i); D.run(i); L.run(i);
        c.count(std::string("op ") + (i.kind == U1 ? sh::op1_name[i.op] : i.kind == B2 || i.kind == INPL ? sh::op2_name[i.op] : "") + " " + kind_name[i.kind]);
        if (every) {
            o.one(k, i.dst, "after");
            if (i.kind == SWAP) o.one(k, i.a, "after");
        }
    }
    const size_t last = p.ins.size() - 1;
    for (int r = 0; r < p.cfg.regs; ++r) o.one(last, r, "at end");
    for (int r = 0; r < p.cfg.regs; ++r) for (int w = 0; w < p.cfg.regs; ++w) o.pair(last, r, w);
}

// functions given by arbitrary derivatives of very different size, against dense
// vectors in quad and the sum of the moduli of all the contributions
static void wide(h::Ctx &c) {
    h::Rng &r = c.rng;
    const size_t N = size_t(r.range(1, r.chance(0.2) ? 30 : 7));
    struct D { U x; std::vector<Q> g; std::vector<double> ag; };
    std::vector<U> var;
    std::vector<D> reg;
    const double span = r.pick(std::vector<double>{ 0, 3, 20, 60, 120, 250 });
    auto mag = [&](double zero) { return r.chance(zero) ? 0. : std::ldexp(r.chance(0.5) ? r.uni(1, 2) : 1., int(r.uni(-span, span))) * (r.chance(0.5) ? 1 : -1); };
    for (size_t i = 0; i < N; ++i) {
        const double sd = std::fabs(mag(0));
        var.push_back(U(r.normal(), sd));
        D d { var.back(), std::vector<Q>(N, 0), std::vector<double>(N, 0) };
        d.g[i] = sd; d.ag[i] = sd;
        reg.push_back(d);
    }
    std::string log;
    const int len = r.range(1, span > 200 ? 2 : span > 100 ? 6 : 7);
    for (int k = 0; k < len; ++k) {
        const int how = r.below(4), m = how == 3 ? r.range(1, 5) : 2;
        std::vector<size_t> a; std::vector<double> w;
        const double z = r.pick(std::vector<double>{ 0, 0.3, 0.6 });
        for (int j = 0; j < m; ++j) { a.push_back(size_t(r.below(int(reg.size())))); w.push_back(how == 0 && j ? 0 : mag(z)); }
        const double f = r.normal();
        D d { U(0.0), std::vector<Q>(N, 0), std::vector<double>(N, 0) };
        const std::vector<D> R = reg;
        const U &A = R[a[0]].x, &B = R[a[size_t(m > 1)]].x;
        std::ostringstream o; o.precision(17);
        static const char *nm[4] = { "unary", "binary", "binary_assign", "nary" };
        o << nm[how] << "("; for (size_t j = 0; j < size_t(m); ++j) o << a[j] << "*" << w[j] << ","; o << ") ";
        if (how == 0) d.x = unary(A, f, w[0]);
        else if (how == 1) d.x = binary(A, B, f, w[0], w[1]);
        else if (how == 2) { U t = A; if (a[0] == a[1]) t.binary_assign(t, f, w[0], w[1]); else t.binary_assign(B, f, w[0], w[1]); d.x = t; }
        else { std::vector<U> xs; for (size_t j : a) xs.push_back(R[j].x); d.x = nary(xs.begin(), xs.end(), f, w.begin()); }
        log += o.str(); h::where(log);
        Q s2 = 0, as = 0;
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < size_t(m); ++j) { d.g[i] += Q(w[j]) * R[a[j]].g[i]; d.ag[i] += std::fabs(w[j]) * R[a[j]].ag[i]; }
            s2 += d.g[i] * d.g[i]; as += Q(d.ag[i]) * d.ag[i];
        }
        reg.push_back(d);
        c.check(d.x.n() == f, "wide-mean", [&] { return log; });
        const double T = 1e-14;
        for (size_t i = 0; i < N; ++i) {
            const double sd = double(R[i].g[i]), g = d.x.grad(var[i]) * sd, cv = cov(d.x, var[i]) / sd;
            c.check(std::fabs(g - double(d.g[i])) <= T * d.ag[i], "wide-grad", [&] { return "x" + std::to_string(i) + " got " + h::num(g) + " want " + h::num(double(d.g[i])) + " in " + log; });
            c.check(std::fabs(cv - double(d.g[i])) <= T * d.ag[i], "wide-cov", [&] { return "x" + std::to_string(i) + " got " + h::num(cv) + " want " + h::num(double(d.g[i])) + " in " + log; });
        }
        const double ss = double(mf::sqrt(s2)), st = 1e-13 * double(mf::sqrt(as));
        if (st < 1e135 && (s2 == 0 || ss > 1e-150)) c.check(std::fabs(d.x.s() - ss) <= st, "wide-sdev", [&] { return "got " + h::num(d.x.s()) + " want " + h::num(ss) + " in " + log; });
    }
    c.distinct(h::hash_str(log));
    c.count("functions with derivatives of any size", uint64_t(len));
}
void run_case(h::Ctx &c) {
    if (c.idx % 8 == 1) return wide(c);
    Cfg cfg;
    h::Rng &r = c.rng;
    cfg.maxvars = r.range(1, r.chance(0.1) ? 12 : 6);
    cfg.regs = r.range(2, 6);
    cfg.len = r.range(3, c.thorough ? 60 : 30);
    const int style = r.below(10);
    if (style == 0) { cfg.linear = true; cfg.len = r.range(10, 80); cfg.vmax = 1e4; }
    else if (style <= 2) cfg.arith = true;
    if (r.chance(0.3)) { cfg.slo = -8; cfg.shi = 4; }
    if (c.idx % 128 == 7) { // many variables
        cfg.maxvars = r.range(16, 72); cfg.regs = r.range(16, 48); cfg.len = cfg.regs + r.range(20, 120);
        c.count("programs with many variables");
    }
    Gen<Q> g(r, cfg);
    g.generate();
    if (g.p.ins.size() < 2) return;
    c.distinct(g.p.hash());
    c.sample(g.p.str());
    run_program(c, g.p, r.chance(0.7));
}

void run_once(h::Ctx &c) {
    // wide ranges of magnitude: arithmetic with exact oracle in quad
    h::Rng &r = c.rng;
    for (int k = 0; k < 3000; ++k) {
        const double sc = r.logu(-120, 120), a = r.normal() * sc, b = r.normal() * r.logu(-20, 20);
        const double sa = std::fabs(a) * r.logu(-6, 2), sb = std::fabs(b) * r.logu(-6, 2);
        if (a == 0 || b == 0) continue;
        const U x(a, sa), y(b, sb);
        auto ck = [&](const char *w, const U &z, double f, double gx, double gy) {
            const double s = std::hypot(gx * sa, gy * sb);
            c.eval(2);
            if (!(std::fabs(z.n() - f) <= 1e-13 * std::fabs(f))) c.viol(std::string("wide-mean:") + w, h::num(a) + " " + h::num(b) + " got " + h::num(z.n()) + " want " + h::num(f));
            if (!(std::fabs(z.s() - s) <= 1e-12 * s)) c.viol(std::string("wide-sdev:") + w, h::num(a) + "+-" + h::num(sa) + " " + h::num(b) + "+-" + h::num(sb) + " got " + h::num(z.s()) + " want " + h::num(s));
        };
        ck("mul", x * y, a * b, b, a);
        ck("div", x / y, a / b, 1 / b, -a / b / b);
        { U z = x; z *= y; ck("imul", z, a * b, b, a); }
        { U z = x; z /= y; ck("idiv", z, a / b, 1 / b, -a / b / b); }
        ck("scale", x * 2.0, 2 * a, 2, 0);
    }
    // merges of sets of very different size, interleaved, nested or disjoint
    for (int rep = 0; rep < 12; ++rep) {
        const int n = r.pick(std::vector<int>{ 3, 20, 70, 150, 300, 700 });
        std::vector<U> v; std::vector<double> a(size_t(n), 0), b(size_t(n), 0);
        for (int k = 0; k < n; ++k) v.push_back(U(r.normal(), r.logu(-2, 1)));
        U x(0.0), y(0.0);
        const double pa = r.pick(std::vector<double>{ 0.02, 0.5, 1 }), pb = r.pick(std::vector<double>{ 0.02, 0.5, 1 });
        const int mode = r.below(3);
        std::vector<int> ord; for (int k = 0; k < n; ++k) ord.push_back(k);
        r.shuffle(ord);
        for (int k : ord) {
            if (mode == 1 ? k < n / 2 : mode == 2 ? k > n / 3 : r.chance(pa)) { a[size_t(k)] = r.range(1, 4) - 2.5; x += a[size_t(k)] * v[size_t(k)]; }
            if (mode == 1 ? k >= n / 2 : mode == 2 ? k > n / 2 : r.chance(pb)) { b[size_t(k)] = r.range(1, 4) - 2.5; y = y + v[size_t(k)] * b[size_t(k)]; }
        }
        const double mx = x.n(), my = y.n();
        const std::vector<U> z { x + y, x - y, x * y, y * x, x / (y + 1000.0), -x };
        const double gx[6] = { 1, 1, my, my, 1 / (my + 1000), -1 }, gy[6] = { 1, -1, mx, mx, -mx / (my + 1000) / (my + 1000), 0 };
        for (size_t q = 0; q < 6; ++q) {
            double s2q = 0;
            for (int k = 0; k < n; ++k) {
                const double sk = v[size_t(k)].s(), g = gx[q] * a[size_t(k)] + gy[q] * b[size_t(k)], m = std::fabs(gx[q] * a[size_t(k)]) + std::fabs(gy[q] * b[size_t(k)]);
                s2q += g * g * sk * sk;
                c.check(std::fabs(cov(z[q], v[size_t(k)]) - g * sk * sk) <= 1e-11 * (m + std::fabs(gx[q]) + std::fabs(gy[q])) * sk * sk, "merge-cov", [&] { return "n=" + std::to_string(n) + " result " + std::to_string(q) + " variable " + std::to_string(k); });
            }
            c.check(std::fabs(z[q].s() - std::sqrt(s2q)) <= 1e-9 * (std::sqrt(s2q) + 1e-3), "merge-sdev", [&] { return "n=" + std::to_string(n) + " result " + std::to_string(q) + " got " + h::num(z[q].s()) + " want " + h::num(std::sqrt(s2q)); });
        }
        c.count("merges of large sets");
    }
    // every pair of sets of very different size: a few elements spread over the
    // ids of a large set, all orders of the arguments
    for (int rep = 0; rep < 6; ++rep) {
        const int n = r.range(40, 260), m = 10;
        std::vector<U> v;
        for (int k = 0; k < n; ++k) v.push_back(U(r.normal(), r.logu(-2, 1)));
        std::vector<U> x; std::vector<std::vector<double>> co;
        for (int q = 0; q < m; ++q) {
            const double dens = q < 3 ? r.uni(0.5, 1) : q < 5 ? 0.1 : r.uni(0.5, 5) / n;
            const int lo = r.chance(0.5) ? 0 : r.below(n), hi = r.chance(0.5) ? n : r.range(lo, n);
            std::vector<double> a(size_t(n), 0);
            U s(0.0);
            if (r.chance(0.5)) for (int k = n; k-- > 0; ) { if (k >= lo && k < hi && r.chance(dens)) { a[size_t(k)] = r.range(1, 6) - 3.5; s += v[size_t(k)] * a[size_t(k)]; } }
            else for (int k = lo; k < hi; ++k) if (r.chance(dens)) { a[size_t(k)] = r.range(1, 6) - 3.5; s = a[size_t(k)] * v[size_t(k)] + s; }
            x.push_back(s); co.push_back(a);
        }
        for (int p = 0; p < m; ++p) for (int q = 0; q < m; ++q) {
            double w = 0, wp = 0, wq = 0, ab = 0;
            for (size_t k = 0; k < size_t(n); ++k) { const double s2k = v[k].s() * v[k].s(), e = co[size_t(p)][k] * co[size_t(q)][k] * s2k; w += e; ab += std::fabs(e); wp += co[size_t(p)][k] * co[size_t(p)][k] * s2k; wq += co[size_t(q)][k] * co[size_t(q)][k] * s2k; }
            auto d = [&](double got, double want) { return "n=" + std::to_string(n) + " sizes " + std::to_string(std::count_if(co[size_t(p)].begin(), co[size_t(p)].end(), [](double t) { return t != 0; })) + " " + std::to_string(std::count_if(co[size_t(q)].begin(), co[size_t(q)].end(), [](double t) { return t != 0; })) + " got " + h::num(got) + " want " + h::num(want); };
            const double cv = cov(x[size_t(p)], x[size_t(q)]);
            c.check(std::fabs(cv - w) <= 1e-12 * ab, "cov-of-sums", [&] { return d(cv, w); });
            if (wp > 0 && wq > 0) { const double cr = corr(x[size_t(p)], x[size_t(q)]), t = w / std::sqrt(wp * wq); c.check(std::fabs(cr - t) <= 1e-11, "corr-of-sums", [&] { return d(cr, t); }); }
            const double l = r.normal(), g = r.normal(), want = l * l * wp + g * g * wq + 2 * l * g * w;
            const U y = binary(x[size_t(p)], x[size_t(q)], 0, l, g);
            c.check(std::fabs(var(y) - want) <= 1e-11 * (l * l * wp + g * g * wq), "var-of-sums", [&] { return d(var(y), want); });
            U y2 = x[size_t(p)]; y2 -= x[size_t(q)];
            c.check(std::fabs(var(y2) - (wp + wq - 2 * w)) <= 1e-11 * (wp + wq), "var-of-difference", [&] { return d(var(y2), wp + wq - 2 * w); });
        }
        for (int p = 0; p < m; ++p) for (size_t k = 0; k < size_t(n); ++k) { const double g = x[size_t(p)].grad(v[k]); c.check(std::fabs(g - co[size_t(p)][k]) <= 1e-13 * (1 + std::fabs(g)), "grad-of-sums", [&] { return "n=" + std::to_string(n) + " got " + h::num(g) + " want " + h::num(co[size_t(p)][k]); }); }
        c.count("pairs of sums of very different size", uint64_t(m * m));
    }
    // the mean is computed like plain numbers also where a reciprocal would overflow
    for (double d : { 1e-310, 4e-320, 1e308 }) {
        const U z = U(0.0) / U(d), w = U(d) / U(d);
        c.check(z.n() == 0 && w.n() == 1, "mean-div-extreme", [&] { return "0/" + h::num(d) + " -> " + h::num(z.n()) + ", d/d -> " + h::num(w.n()); });
        U v(0.0); v /= U(d);
        c.check(v.n() == 0, "mean-idiv-extreme", [&] { return "0/=" + h::num(d) + " -> " + h::num(v.n()); });
    }
    // long accumulation with many variables
    U acc(0.0); double s2 = 0, m = 0;
    std::vector<U> xs;
    for (int k = 0; k < 2000; ++k) {
        U x(r.normal(), r.logu(-3, 1));
        xs.push_back(x);
        const double w = r.range(-3, 3);
        acc += w * x;
        m += w * x.n(); s2 += w * w * x.s() * x.s();
        if (k % 500 == 0) c.check(std::fabs(acc.s() - std::sqrt(s2)) <= 1e-11 * std::sqrt(s2), "accumulate", [&] { return "sdev " + h::num(acc.s()); });
    }
    c.check(std::fabs(acc.n() - m) < 1e-10 && std::fabs(acc.s() - std::sqrt(s2)) < 1e-10 * std::sqrt(s2), "accumulate", [&] { return h::num(acc.n()) + " " + h::num(acc.s()); });
    c.count("accumulated variables", 2000);
}
