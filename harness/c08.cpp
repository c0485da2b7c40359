// C08: second-order propagation of whole programs against dense shadow AD.
#include "lib.hpp"
#include <uncertainties/impl.hpp>
using namespace prog;
using Q = quad;

template<class U> struct Obs {
    h::Ctx &c;
    const Program &p;
    ShExec<Q> &S;
    ShExec<double> &D;
    LibExec<U> &L;
    Tol<Q, double> tol;
    std::string ctx(size_t upto) const {
        std::string s;
        for (size_t k = 0; k <= upto && k < p.ins.size(); ++k) s += p.ins[k].str() + "; ";
        return s;
    }
    void cmp(const char *what, size_t k, int r, int i, int j, double got, Q want, double t) {
        c.eval();
        const double d = std::fabs(double(Q(got) - want));
        if (!(d <= t)) {
            std::string w = std::string(what) + " of r" + std::to_string(r);
            if (i >= 0) w += " wrt x" + std::to_string(i);
            if (j >= 0) w += ",x" + std::to_string(j);
            c.viol(std::string(what) + ":" + kind_name[p.ins[k].kind], w + " got " + h::num(got) + " want " + h::num(double(want)) + " tol " + h::num(t) + " in " + ctx(k));
        }
    }
    void one(size_t k, int r) {
        const U &x = L.R[size_t(r)];
        const sh::Sh<Q> &q = S.R[size_t(r)];
        const sh::Sh<double> &d = D.R[size_t(r)];
        const size_t N = size_t(p.cfg.maxvars);
        cmp("mean", k, r, -1, -1, x.first_order_n(), q.v, tol.v(q, d) + 1e-300);
        int inter = 0;
        for (size_t i = 0; i < L.indep.size(); ++i) {
            const double si = p.sig[i];
            if (!(si > 0)) continue;
            cmp("grad", k, r, int(i), -1, x.grad(L.indep[i]), q.g[i] / si, tol.g(q, d, i) / si * 1.01 + 1e-300);
            for (size_t j = 0; j < L.indep.size(); ++j) {
                const double sj = p.sig[j];
                if (!(sj > 0)) continue;
                cmp(i == j ? "hess" : "mixed-hess", k, r, int(i), int(j), x.hess(L.indep[i], L.indep[j]), q.H[i * N + j] / si / sj, tol.H(q, d, i * N + j) / si / sj * 1.01 + 1e-300);
                if (i < j && q.H[i * N + j] != 0) ++inter;
            }
        }
        if (c.rng.chance(0.4) && !L.indep.empty()) {
            // with respect to functions of one variable only
            const size_t i = size_t(c.rng.below(int(L.indep.size()))), j = size_t(c.rng.below(int(L.indep.size())));
            const double si = p.sig[i], sj = p.sig[j];
            if (si > 0 && sj > 0) {
                auto der = [&](const U &v, double *d1, double *d2) {
                    *d1 = c.rng.pick(std::vector<double>{ -1, 1, -2, 3, -0.25, 0.125, -16 });
                    *d2 = c.rng.pick(std::vector<double>{ 0, 0, 1, -1, 4, -0.5 });
                    if (c.rng.chance(0.3)) return binary(v, U(2.0), 1.5, *d1, 1., *d2, 0., 0.);
                    return unary(v, 1.5, *d1, *d2);
                };
                double a1, a2, b1, b2;
                const U wi = der(L.indep[i], &a1, &a2), wj = der(L.indep[j], &b1, &b2);
                const double tg = tol.g(q, d, i) / si * 1.01 + 1e-14 * std::fabs(double(q.g[i])) / si;
                cmp("grad-of-function", k, r, int(i), -1, x.grad(wi), q.g[i] / si / a1, tg / std::fabs(a1) + 1e-300);
                auto tH = [&](size_t a, size_t b, double sa, double sb) { return (tol.H(q, d, a * N + b) * 1.01 + 1e-14 * std::fabs(double(q.H[a * N + b]))) / sa / sb; };
                if (i != j) {
                    const Q want = q.H[i * N + j] / si / sj / a1 / b1;
                    const double t = tH(i, j, si, sj) / std::fabs(a1 * b1) + 1e-300;
                    cmp("hess-of-functions", k, r, int(i), int(j), x.hess(wi, wj), want, t);
                    cmp("hess-of-functions", k, r, int(j), int(i), x.hess(wj, wi), want, t);
                }
                const Q want = (q.H[i * N + i] / si / si - q.g[i] / si / a1 * a2) / (a1 * a1);
                const double t = (tH(i, i, si, si) + tg * std::fabs(a2 / a1)) / (a1 * a1) + 1e-300;
                cmp("hess-of-function", k, r, int(i), int(i), x.hess(wi, U(wi)), want, t);
                // first derivative zero, also of the value
                const U flat = binary(x, wi, 0., 0., 0., 0., 1., 0.);
                c.check(std::fabs(flat.hess(wi, wi) - 1) < 1e-12, "hess-of-function", [&] { return "got " + h::num(flat.hess(wi, wi)) + " want 1 for a stationary function of a function of x" + std::to_string(i); });
                c.count("derivatives with respect to functions of one variable");
            }
        }
        c.count(std::string("interacting pairs ") + (inter == 0 ? "0" : inter < 3 ? "1-2" : inter < 6 ? "3-5" : "6+"));
    }
};

template<class U> void run_program(h::Ctx &c, const Program &p, bool every) {
    ShExec<Q> S(p.cfg);
    ShExec<double> D(p.cfg);
    LibExec<U> L(p.cfg);
    Obs<U> o { c, p, S, D, L, Tol<Q, double>() };
    for (size_t k = 0; k < p.ins.size(); ++k) {
        const Ins &i = p.ins[k];
        h::where(i.str());
        if (i.kind == B2 || i.kind == INPL || i.kind == USER2) {
            const int ra = i.kind == INPL ? i.dst : i.a, rb = i.kind == INPL ? i.a : i.b;
            auto cls = [&](int r) { return r < 0 ? "num" : L.R[size_t(r)].indepid() == 0 ? "const" : L.R[size_t(r)].isindep() ? "one" : "many"; };
            c.count(std::string("state ") + kind_name[i.kind] + " " + cls(ra) + "x" + cls(rb) + (ra == rb ? " aliased" : ""));
        }
        S.run(i); D.run(i); L.run(i);
        c.count(std::string("op ") + (i.kind == U1 ? sh::op1_name[i.op] : i.kind == B2 || i.kind == INPL ? sh::op2_name[i.op] : "") + " " + kind_name[i.kind]);
        if (every) { o.one(k, i.dst); if (i.kind == SWAP) o.one(k, i.a); }
    }
    for (int r = 0; r < p.cfg.regs; ++r) o.one(p.ins.size() - 1, r);
}

template<class U> static void wide(h::Ctx &c);
void run_case(h::Ctx &c) {
    if (c.idx % 4 == 1) { if (c.rng.chance(0.5)) wide<unc::udouble2e>(c); else wide<unc::udouble2m>(c); return; }
    Cfg cfg;
    h::Rng &r = c.rng;
    cfg.second = true;
    cfg.maxvars = r.range(1, r.chance(0.1) ? 9 : 6);
    cfg.regs = r.range(2, 6);
    cfg.len = r.range(3, c.thorough ? 50 : 25);
    cfg.nmom = 3;
    const int style = r.below(10);
    if (style == 0) { cfg.linear = true; cfg.len = r.range(10, 40); cfg.vmax = 1e4; }
    else if (style <= 3) cfg.arith = true;
    if (r.chance(0.2)) { cfg.slo = -6; cfg.shi = 2; }
    if (c.idx % 256 == 7) { // many variables
        cfg.maxvars = r.range(10, 24); cfg.regs = r.range(8, 14); cfg.len = cfg.regs + r.range(10, 50);
        c.count("programs with many variables");
    }
    Gen<Q> g(r, cfg);
    g.generate();
    if (g.p.ins.size() < 2) return;
    c.distinct(g.p.hash());
    c.sample(g.p.str());
    const bool every = r.chance(0.6);
    if (r.chance(0.5)) run_program<unc::udouble2e>(c, g.p, every);
    else run_program<unc::udouble2m>(c, g.p, every);
}

// functions given by arbitrary derivatives of very different size, against dense
// matrices in quad and the sum of the moduli of all the contributions
template<class U> static void wide(h::Ctx &c) {
    h::Rng &r = c.rng;
    const size_t N = size_t(r.range(1, 7));
    struct D { U x; Q v; std::vector<Q> g, H; std::vector<double> ag, aH; };
    std::vector<U> var;
    std::vector<D> reg;
    std::vector<double> sg;
    const double span = r.pick(std::vector<double>{ 0, 3, 20, 40, 90, 150, 300 });
    auto mag = [&](double zero) { return r.chance(zero) ? 0. : std::ldexp(r.chance(0.5) ? r.uni(1, 2) : 1., int(r.uni(-span, span))) * (r.chance(0.5) ? 1 : -1); };
    for (size_t i = 0; i < N; ++i) {
        const double m = r.normal(), sd = std::fabs(mag(0));
        sg.push_back(sd);
        var.push_back(U(m, sd, std::array<double, 6>{{ 0, 3, 0, 15, 0, 105 }}));
        D d { var.back(), m, std::vector<Q>(N, 0), std::vector<Q>(N * N, 0), std::vector<double>(N, 0), std::vector<double>(N * N, 0) };
        d.g[i] = sd; d.ag[i] = sd;
        reg.push_back(d);
    }
    std::string log;
    const int len = r.range(1, span > 200 ? 1 : span > 100 ? 2 : span > 80 ? 3 : 8);
    for (int k = 0; k < len; ++k) {
        const size_t a = k && r.chance(0.4) ? reg.size() - 1 : size_t(r.below(int(reg.size()))), b = size_t(r.below(int(reg.size())));
        const int how = r.below(3);
        const double z = r.pick(std::vector<double>{ 0, 0.3, 0.6 });
        const double lz = r.chance(0.4) ? 1 : z; // also linear functions: pairs without second derivative
        const double f = r.normal(), fx = mag(z), fy = how ? mag(z) : 0, fxx = mag(lz), fyy = how ? mag(lz) : 0, fxy = how ? mag(lz) : 0;
        D d { U(0.0), f, std::vector<Q>(N, 0), std::vector<Q>(N * N, 0), std::vector<double>(N, 0), std::vector<double>(N * N, 0) };
        const D A = reg[a], B = reg[b];
        std::ostringstream o; o.precision(17);
        if (how == 0) { d.x = unary(A.x, f, fx, fxx); o << "unary(" << a << "; " << fx << "," << fxx << ") "; }
        else if (how == 1) { d.x = binary(A.x, B.x, f, fx, fy, fxx, fyy, fxy); o << "binary(" << a << "," << b << "; " << fx << "," << fy << "," << fxx << "," << fyy << "," << fxy << ") "; }
        else { U t = A.x; if (a == b) binary_assign(t, t, f, fx, fy, fxx, fyy, fxy); else binary_assign(t, B.x, f, fx, fy, fxx, fyy, fxy); d.x = t; o << "binary_assign(" << a << "," << b << "; " << fx << "," << fy << "," << fxx << "," << fyy << "," << fxy << ") "; }
        log += o.str();
        for (size_t i = 0; i < N; ++i) {
            d.g[i] = Q(fx) * A.g[i] + Q(fy) * B.g[i];
            d.ag[i] = std::fabs(fx) * A.ag[i] + std::fabs(fy) * B.ag[i];
            for (size_t j = 0; j < N; ++j) {
                const size_t q = i * N + j;
                d.H[q] = Q(fx) * A.H[q] + Q(fy) * B.H[q] + Q(fxx) * A.g[i] * A.g[j] + Q(fyy) * B.g[i] * B.g[j] + Q(fxy) * (A.g[i] * B.g[j] + A.g[j] * B.g[i]);
                d.aH[q] = std::fabs(fx) * A.aH[q] + std::fabs(fy) * B.aH[q] + std::fabs(fxx) * A.ag[i] * A.ag[j] + std::fabs(fyy) * B.ag[i] * B.ag[j] + std::fabs(fxy) * (A.ag[i] * B.ag[j] + A.ag[j] * B.ag[i]);
            }
        }
        reg.push_back(d);
        h::where(log);
        const double T = 1e-14;
        c.check(d.x.first_order_n() == f, "wide-mean", [&] { return log; });
        for (size_t i = 0; i < N; ++i) {
            const double g = d.x.grad(var[i]) * sg[i];
            c.check(std::fabs(g - double(d.g[i])) <= T * d.ag[i], "wide-grad", [&] { return "x" + std::to_string(i) + " got " + h::num(g) + " want " + h::num(double(d.g[i])) + " in " + log; });
            for (size_t j = 0; j < N; ++j) {
                const double H = d.x.hess(var[i], var[j]) * sg[i] * sg[j];
                c.check(std::fabs(H - double(d.H[i * N + j])) <= T * d.aH[i * N + j], "wide-hess", [&] { return "x" + std::to_string(i) + ",x" + std::to_string(j) + " got " + h::num(H) + " want " + h::num(double(d.H[i * N + j])) + " in " + log; });
            }
        }
    }
    c.distinct(h::hash_str(log));
    c.count("functions with derivatives of any size", uint64_t(len));
}

// the operators on quantities in any unit of measure
template<class U> static void units(h::Ctx &c) {
    h::Rng &r = c.rng;
    const std::array<double, 6> nm {{ 0, 3, 0, 15, 0, 105 }};
    for (int k = 0; k < 1500; ++k) {
        const int u = r.range(-90, 90), w = r.chance(0.5) ? u : r.range(-90, 90);
        auto val = [&](int e) { double z = r.uni(0.1, 3); return std::ldexp(r.chance(0.5) ? z : -z, e); };
        const double m[3] = { val(u), val(w), val(u) }, sd[3] = { std::fabs(val(u)) / 8, std::fabs(val(w)) / 8, std::fabs(val(u)) / 8 };
        std::vector<U> v;
        for (int i = 0; i < 3; ++i) v.push_back(U(m[i], sd[i], nm));
        const int kind = r.below(9);
        // a dependent left operand of the same unit, half of the times
        const bool dep = r.chance(0.5);
        const double q = dep ? r.range(1, 3) : 0;
        const U x = dep ? v[0] + U(q) * v[2] : v[0];
        const double X = m[0] + q * m[2], Y = m[1];
        U z = x;
        double fx = 0, fy = 0, fxx = 0, fxy = 0, fyy = 0;
        switch (kind) {
        case 0: z = x + v[1]; fx = fy = 1; break;
        case 1: z = x - v[1]; fx = 1; fy = -1; break;
        case 2: z = x * v[1]; fx = Y; fy = X; fxy = 1; break;
        case 3: z = x / v[1]; fx = 1 / Y; fy = -X / Y / Y; fxy = -1 / Y / Y; fyy = 2 * X / Y / Y / Y; break;
        case 4: z = v[1] + x; fx = fy = 1; break;
        case 5: z = v[1] - x; fx = -1; fy = 1; break;
        case 6: z = v[1] * x; fx = Y; fy = X; fxy = 1; break;
        case 7: fx = 1 / Y; fy = -X / Y / Y; fxy = -1 / Y / Y; fyy = 2 * X / Y / Y / Y; binary_assign(z, v[1], X / Y, fx, fy, 0., fyy, fxy); break;
        case 8: z = -(x * x); fx = -2 * X; fxx = -2; break;
        }
        const double gx[3] = { 1, 0, q }, gy[3] = { 0, 1, 0 };
        auto say = [&] { return "kind " + std::to_string(kind) + " x0 " + h::num(m[0]) + "+-" + h::num(sd[0]) + " x1 " + h::num(m[1]) + "+-" + h::num(sd[1]) + " x2 " + h::num(m[2]) + "+-" + h::num(sd[2]) + " x = x0 + " + h::num(q) + "*x2"; };
        h::where("units kind " + std::to_string(kind));
        const double ax = std::fabs(m[0]) + q * std::fabs(m[2]);
        const double lose = ax / std::fabs(X); // cancellation in the left operand
        for (int i = 0; i < 3; ++i) {
            const double g = fx * gx[i] + fy * gy[i];
            c.check(std::fabs(z.grad(v[size_t(i)]) - g) <= 1e-13 * lose * std::fabs(g), "units-grad", [&] { return "x" + std::to_string(i) + " got " + h::num(z.grad(v[size_t(i)])) + " want " + h::num(g) + " " + say(); });
            for (int j = 0; j < 3; ++j) {
                const double H = fxx * gx[i] * gx[j] + fyy * gy[i] * gy[j] + fxy * (gx[i] * gy[j] + gx[j] * gy[i]);
                c.check(std::fabs(z.hess(v[size_t(i)], v[size_t(j)]) - H) <= 1e-13 * lose * std::fabs(H), "units-hess", [&] { return "x" + std::to_string(i) + ",x" + std::to_string(j) + " got " + h::num(z.hess(v[size_t(i)], v[size_t(j)])) + " want " + h::num(H) + " " + say(); });
            }
        }
        c.count("operators in any unit of measure");
    }
}
void run_once(h::Ctx &c) {
    units<unc::udouble2e>(c);
    units<unc::udouble2m>(c);
    // chains over many variables: sparse and dense mixed derivatives
    using U = unc::udouble2e;
    h::Rng &r = c.rng;
    for (int rep = 0; rep < 6; ++rep) {
        const int n = 30;
        std::vector<U> x; std::vector<double> m;
        for (int k = 0; k < n; ++k) { m.push_back(r.normal()); x.push_back(U(m.back(), 1.0, std::array<double, 6>{{ 0, 3, 0, 15, 0, 105 }})); }
        std::vector<double> H(size_t(n * n), 0), G(size_t(n), 0);
        U acc(0.0);
        const int terms = rep < 3 ? 20 : 200;
        for (int t = 0; t < terms; ++t) {
            const int i = r.below(n), j = r.below(n);
            const double w = r.range(-3, 3);
            // alternate the association so that every merge order appears
            if (r.chance(0.5)) acc = acc + U(w) * (x[size_t(i)] * x[size_t(j)]);
            else acc = (x[size_t(i)] * U(w)) * x[size_t(j)] + acc;
            H[size_t(i * n + j)] += w; H[size_t(j * n + i)] += w;
            G[size_t(i)] += w * m[size_t(j)]; G[size_t(j)] += w * m[size_t(i)];
        }
        for (int i = 0; i < n; ++i) {
            c.check(std::fabs(acc.grad(x[size_t(i)]) - G[size_t(i)]) < 1e-11, "quadratic-form-grad", [&] { return "x" + std::to_string(i); });
            for (int j = 0; j < n; ++j)
                c.check(std::fabs(acc.hess(x[size_t(i)], x[size_t(j)]) - H[size_t(i * n + j)]) < 1e-11, "quadratic-form-hess", [&] { return std::to_string(i) + "," + std::to_string(j) + " got " + h::num(acc.hess(x[size_t(i)], x[size_t(j)])) + " want " + h::num(H[size_t(i * n + j)]); });
        }
        c.count("quadratic form terms", uint64_t(terms));
    }
}
