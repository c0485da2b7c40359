// C10: moments and covariances of UReal2 against exact enumeration of the
// second-order polynomial on discrete distributions.
#include "lib.hpp"
#include <uncertainties/impl.hpp>
#include "enumdist.hpp"
using namespace prog;
using Q = quad;
using en::LD;

struct Judge {
    h::Ctx &c;
    std::string hist;
    en::Moments q, d, a;   // quad shadow, double shadow, magnitudes
    double K;
    double tol(LD x, LD y, LD mag) const { return K * double(mag) + 200 * std::fabs(double(x - y)) + 1e-300; }
    void cmp(const char *what, size_t r, double got, LD want, double t) {
        c.eval();
        if (!(std::fabs(double(LD(got) - want)) <= t))
            c.viol(what, std::string(what) + " of r" + std::to_string(r) + " got " + h::num(got) + " want " + h::num(double(want)) + " tol " + h::num(t) + " in " + hist);
    }
    template<class U> void judge(const std::vector<U> &R) {
        for (size_t r = 0; r < R.size(); ++r) {
            const U &x = R[r];
            const double t1 = tol(q.m1[r], d.m1[r], a.m1[r]);
            const double t2 = 8 * tol(q.m2[r], d.m2[r], a.r2[r]), t3 = 20 * tol(q.m3[r], d.m3[r], a.r3[r]), t4 = 60 * tol(q.m4[r], d.m4[r], a.r4[r]);
            const double m1 = x.m(1), m2 = x.m(2), m3 = x.m(3), m4 = x.m(4);
            cmp("m1", r, m1, q.m1[r], t1);
            cmp("m2", r, m2, q.m2[r], t2);
            cmp("m3", r, m3, q.m3[r], t3);
            cmp("m4", r, m4, q.m4[r], t4);
            cmp("var", r, var(x), q.m2[r], t2);
            const double v = double(q.m2[r]);
            if (v > 1e4 * t2) {
                const double s = std::sqrt(v), rel = t2 / v;
                cmp("sdev", r, x.s(), std::sqrt(q.m2[r]), s * rel + 1e-15 * s);
                cmp("sdev()", r, unc::sdev(x), std::sqrt(q.m2[r]), s * rel + 1e-15 * s);
                const LD sk = q.m3[r] / q.m2[r] / std::sqrt(q.m2[r]), ku = q.m4[r] / q.m2[r] / q.m2[r];
                cmp("skewness", r, x.skew(), sk, t3 / v / s + 3 * rel * std::fabs(double(sk)) + 1e-14 * (1 + std::fabs(double(sk))));
                cmp("kurtosis", r, x.kurt(), ku, t4 / v / v + 4 * rel * double(ku) + 1e-14 * double(ku));
                c.count("spread " + std::string(double(a.r2[r]) / v < 10 ? "ordinary" : "cancelling"));
            }
            for (size_t w = 0; w < R.size(); ++w) {
                const double t = 8 * (K * std::sqrt(double(a.r2[r]) * double(a.r2[w])) + 200 * std::fabs(double(q.c2[r * R.size() + w] - d.c2[r * R.size() + w]))) + 1e-300;
                cmp("cov", r, cov(x, R[w]), q.c2[r * R.size() + w], t);
            }
        }
    }
};

template<class U> void program_case(h::Ctx &c) {
    h::Rng &r = c.rng;
    Cfg cfg;
    cfg.second = true;
    cfg.maxvars = r.range(1, r.chance(0.2) ? 6 : 5);
    cfg.regs = r.range(2, 5);
    cfg.len = r.range(2, 16);
    cfg.nmom = 3;
    if (r.chance(0.5)) cfg.arith = true;
    if (r.chance(0.2)) { cfg.slo = -5; cfg.shi = 1; }
    std::vector<en::Dist> ds;
    momsets().clear();
    for (int k = 0; k < 3; ++k) { ds.push_back(en::random_dist(r, cfg.maxvars >= 6 ? 3 : cfg.maxvars == 5 ? 4 : 5)); momsets().push_back(en::momset(ds.back())); }
    Gen<Q> g(r, cfg);
    g.generate();
    const Program &p = g.p;
    ShExec<double> D(cfg);
    LibExec<U> L(cfg);
    ShExec<Q> S(cfg);
    for (auto &i : p.ins) { h::where(i.str()); S.run(i); D.run(i); L.run(i); }
    std::vector<const en::Dist *> dist(size_t(cfg.maxvars), nullptr);
    size_t combos = 1;
    for (int k = 0; k < p.nvars; ++k) { dist[size_t(k)] = &ds[size_t(p.mom[size_t(k)])]; combos *= dist[size_t(k)]->z.size(); }
    if (combos > 4000) { c.count("too many combinations"); return; }
    std::vector<en::Poly> P, PD, PA;
    for (int k = 0; k < cfg.regs; ++k) {
        P.push_back(en::poly(S.R[size_t(k)])); PD.push_back(en::poly(D.R[size_t(k)])); PA.push_back(en::polyabs(S.R[size_t(k)]));
    }
    h::where("moments of " + p.str());
    c.count("enumerated points", combos);
    Judge j { c, p.str(), en::enumerate(P, dist, false), en::enumerate(PD, dist, false), en::enumerate(PA, dist, true), 4e3 * 2.2e-16 };
    j.judge(L.R);
    c.distinct(p.hash());
    c.sample(p.str());
}

// random sparse quadratic forms, exact coefficients
template<class U> void form_case(h::Ctx &c) {
    h::Rng &r = c.rng;
    const int N = r.range(1, 7);
    const int maxpt = N <= 3 ? 5 : N <= 5 ? 3 : 2;
    std::vector<en::Dist> ds;
    std::vector<U> x;
    std::vector<const en::Dist *> dist;
    std::vector<double> sg;
    const int K = r.chance(0.2) ? r.range(-90, 90) : 0;   // common scale of the variables
    for (int i = 0; i < N; ++i) ds.push_back(en::random_dist(r, maxpt));
    size_t combos = 1;
    for (int i = 0; i < N; ++i) {
        dist.push_back(&ds[size_t(i)]);
        combos *= ds[size_t(i)].z.size();
        const MomSet m = en::momset(ds[size_t(i)]);
        const double s = std::ldexp(1.0, K + (r.chance(0.5) ? 0 : r.range(-3, 3)));
        sg.push_back(s);
        if (r.chance(0.5)) {
            std::array<double, 6> k; for (int q = 0; q < 6; ++q) k[size_t(q)] = m.m[size_t(q)];
            x.push_back(U(0.0, s, k, -1.0));
        } else {
            std::array<double, 7> k; k[0] = s * s; for (int q = 0; q < 6; ++q) k[size_t(q + 1)] = m.m[size_t(q)] * std::pow(s, q + 3);
            x.push_back(U(0.0, k, -1.0));
        }
    }
    const int M = r.range(1, 3);
    std::vector<U> R;
    std::vector<en::Poly> P, PA;
    std::string hist = "N=" + std::to_string(N) + " K=" + std::to_string(K);
    for (int f = 0; f < M; ++f) {
        const double pg = r.pick(std::vector<double>{ 0, 0.3, 0.7, 1 }), pd = r.pick(std::vector<double>{ 0, 0.3, 0.7, 1 }), pt = r.pick(std::vector<double>{ 0, 0.2, 0.4, 0.7, 1 });
        en::Poly p;
        p.g.assign(size_t(N), 0); p.H.assign(size_t(N * N), 0);
        U y(0.0);
        std::vector<std::pair<int, int>> order;
        for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) order.emplace_back(i, j);
        r.shuffle(order);
        int edges = 0;
        for (int i = 0; i < N; ++i) if (r.chance(pg)) {
            const double k = r.range(-3, 3) * 0.5;
            p.g[size_t(i)] = k * sg[size_t(i)];
            y = y + U(k) * x[size_t(i)];
            hist += " " + h::num(k) + "*x" + std::to_string(i);
        }
        for (auto &o : order) if (r.chance(o.first == o.second ? pd : pt)) {
            const double k = r.range(-3, 3) * 0.5;
            const size_t i = size_t(o.first), j = size_t(o.second);
            if (i == j) p.H[i * size_t(N) + i] += 2 * k * sg[i] * sg[i];
            else { p.H[i * size_t(N) + j] += k * sg[i] * sg[j]; p.H[j * size_t(N) + i] += k * sg[i] * sg[j]; if (k != 0) ++edges; }
            const U t = r.chance(0.5) ? x[i] * x[j] : x[j] * x[i];
            y = r.chance(0.5) ? y + U(k) * t : t * U(k) + y;
            hist += " " + h::num(k) + "*x" + std::to_string(i) + "*x" + std::to_string(j);
        }
        hist += ";";
        c.count("form with " + std::to_string(edges > 10 ? 10 : edges) + (edges > 10 ? "+ pairs" : " pairs"));
        R.push_back(y); P.push_back(p);
        for (auto &q : p.g) q = std::fabs(q);
        for (auto &q : p.H) q = std::fabs(q);
        PA.push_back(p);
    }
    c.distinct(h::hash_str(hist));
    c.sample(hist);
    h::where(hist);
    c.count("enumerated points", combos);
    const en::Moments q = en::enumerate(P, dist, false);
    Judge j { c, hist, q, q, en::enumerate(PA, dist, true), 1e3 * 2.2e-16 };
    j.judge(R);
    // the moments are homogeneous, at any scale of the result
    if (K == 0) for (size_t f = 0; f < R.size(); ++f) {
        const int k = r.range(-180, 180);
        const U y = r.chance(0.5) ? R[f] * U(std::ldexp(1.0, k)) : R[f] / U(std::ldexp(1.0, -k));
        h::where(hist + " times 2^" + std::to_string(k));
        const double mag[4] = { double(j.a.m1[f]), double(j.a.r2[f]), double(j.a.r3[f]), double(j.a.r4[f]) };
        for (int n = 1; n <= 4; ++n) j.cmp(("scaled m" + std::to_string(n)).c_str(), f, y.m(n), std::ldexp(LD(R[f].m(n)), n * k), std::ldexp(60 * j.K * mag[n - 1], n * k));
        j.cmp("scaled var", f, var(y), std::ldexp(LD(var(R[f])), 2 * k), std::ldexp(60 * j.K * mag[1], 2 * k));
        for (size_t w = 0; w < R.size(); ++w)
            j.cmp("scaled cov", f, cov(y, R[w]), std::ldexp(LD(cov(R[f], R[w])), k), std::ldexp(60 * j.K * std::sqrt(double(j.a.r2[f]) * double(j.a.r2[w])), k));
        if (var(R[f]) > 1e-6 * mag[1]) {
            j.cmp("scaled skewness", f, y.skew(), R[f].skew(), 1e-6 * (1 + std::fabs(R[f].skew())));
            j.cmp("scaled kurtosis", f, y.kurt(), R[f].kurt(), 1e-6 * (1 + std::fabs(R[f].kurt())));
        }
        c.count("scaled results");
    }
}

// many variables: independent blocks, each enumerated; cumulants add up.
// Or normal variables, all interacting: cumulants from traces.
template<class U> void big_case(h::Ctx &c, int N, int bs, bool normal) {
    h::Rng &r = c.rng;
    std::vector<en::Dist> ds;
    std::vector<double> sg;
    std::vector<U> x;
    for (int i = 0; i < N; ++i) {
        ds.push_back(en::random_dist(r, 4));
        const MomSet m = normal ? MomSet { {{0, 3, 0, 15, 0, 105}}, {}, {} } : en::momset(ds.back());
        std::array<double, 6> k; for (int q = 0; q < 6; ++q) k[size_t(q)] = m.m[size_t(q)];
        sg.push_back(r.chance(0.5) ? 1.0 : std::ldexp(1.0, r.range(-2, 2)));
        x.push_back(U(0.0, sg.back(), k, -1.0));
    }
    std::vector<int> perm; for (int i = 0; i < N; ++i) perm.push_back(i);
    r.shuffle(perm);                       // block b: variables perm[b*bs ..]
    std::vector<int> blk(static_cast<size_t>(N)), pos(blk);
    for (int i = 0; i < N; ++i) { blk[size_t(perm[size_t(i)])] = i / bs; pos[size_t(perm[size_t(i)])] = i % bs; }
    const int nb = (N + bs - 1) / bs, M = 2;
    std::vector<U> R;
    std::vector<std::vector<LD>> G, H;
    for (int f = 0; f < M; ++f) {
        std::vector<LD> g(size_t(N), 0), hh(size_t(N * N), 0);
        const double pg = r.pick(std::vector<double>{ 0, 0.5, 1 }), pd = r.pick(std::vector<double>{ 0, 0.3, 1 }), pt = r.pick(std::vector<double>{ 0.1, 0.5, 1 });
        std::vector<U> parts;
        for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) if (blk[size_t(i)] == blk[size_t(j)] && r.chance(i == j ? pd : pt)) {
            const double k = r.range(-3, 3) * 0.5;
            hh[size_t(i * N + j)] += k * sg[size_t(i)] * sg[size_t(j)];
            hh[size_t(j * N + i)] += k * sg[size_t(i)] * sg[size_t(j)];
            parts.push_back(U(k) * (r.chance(0.5) ? x[size_t(i)] * x[size_t(j)] : x[size_t(j)] * x[size_t(i)]));
        }
        for (int i = 0; i < N; ++i) if (r.chance(pg)) {
            const double k = r.range(-3, 3) * 0.5;
            g[size_t(i)] += k * sg[size_t(i)];
            parts.push_back(x[size_t(i)] * U(k));
        }
        r.shuffle(parts);
        U y(0.0);
        if (r.chance(0.5)) for (auto &p : parts) y = r.chance(0.5) ? y + p : p + y;
        else { // balanced tree
            while (parts.size() > 1) {
                std::vector<U> nx;
                for (size_t k = 0; k + 1 < parts.size(); k += 2) nx.push_back(parts[k] + parts[k + 1]);
                if (parts.size() % 2) nx.push_back(parts.back());
                parts.swap(nx);
            }
            if (!parts.empty()) y = parts[0];
        }
        R.push_back(y); G.push_back(g); H.push_back(hh);
    }
    h::where("moments of a form in " + std::to_string(N) + " variables");
    std::vector<LD> k1(2, 0), k2(2, 0), k3(2, 0), k4(2, 0), a1(2, 0), a2(2, 0), a4(2, 0);
    LD c12 = 0;
    if (normal) for (int f = 0; f < M; ++f) {
        const auto &g = G[size_t(f)], &A = H[size_t(f)];
        auto mul = [&](const std::vector<LD> &X, const std::vector<LD> &Y) {
            std::vector<LD> Z(size_t(N * N), 0);
            for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) for (int j = 0; j < N; ++j) Z[size_t(i * N + j)] += X[size_t(i * N + k)] * Y[size_t(k * N + j)];
            return Z;
        };
        auto tr = [&](const std::vector<LD> &X) { LD s = 0; for (int i = 0; i < N; ++i) s += X[size_t(i * N + i)]; return s; };
        auto q = [&](const std::vector<LD> &v, const std::vector<LD> &X) { LD s = 0; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) s += v[size_t(i)] * X[size_t(i * N + j)] * v[size_t(j)]; return s; };
        auto dot = [&](const std::vector<LD> &u, const std::vector<LD> &v) { LD s = 0; for (size_t i = 0; i < u.size(); ++i) s += u[i] * v[i]; return s; };
        auto ab = [&](std::vector<LD> v) { for (auto &z : v) z = std::fabs(z); return v; };
        auto cum = [&](const std::vector<LD> &v, const std::vector<LD> &X, LD &c1, LD &c2, LD &c3, LD &c4) {
            const auto X2 = mul(X, X);
            c1 = tr(X) / 2; c2 = tr(X2) / 2 + dot(v, v); c3 = tr(mul(X2, X)) + 3 * q(v, X); c4 = 3 * tr(mul(X2, X2)) + 12 * q(v, X2);
        };
        cum(g, A, k1[size_t(f)], k2[size_t(f)], k3[size_t(f)], k4[size_t(f)]);
        LD b1, b2, b3, b4;
        cum(ab(g), ab(A), b1, b2, b3, b4);
        a1[size_t(f)] = b1; a2[size_t(f)] = b2 + b1 * b1; a4[size_t(f)] = b4 + 3 * b2 * b2 + 4 * b3 * b1 + 6 * b2 * b1 * b1 + b1 * b1 * b1 * b1;
        if (f == 1) { c12 = dot(G[0], G[1]); for (size_t i = 0; i < A.size(); ++i) c12 += H[0][i] * H[1][i] / 2; }
    } else for (int b = 0; b < nb; ++b) {
        std::vector<int> v;
        for (int i = 0; i < N; ++i) if (blk[size_t(i)] == b) v.push_back(i);
        std::vector<const en::Dist *> dist;
        for (int i : v) dist.push_back(&ds[size_t(i)]);
        std::vector<en::Poly> P, PA;
        for (int f = 0; f < M; ++f) {
            en::Poly p, pa;
            for (int i : v) {
                p.g.push_back(G[size_t(f)][size_t(i)]); pa.g.push_back(std::fabs(p.g.back()));
                for (int j : v) { p.H.push_back(H[size_t(f)][size_t(i * N + j)]); pa.H.push_back(std::fabs(p.H.back())); }
            }
            P.push_back(p); PA.push_back(pa);
        }
        const en::Moments q = en::enumerate(P, dist, false), a = en::enumerate(PA, dist, true);
        for (size_t f = 0; f < 2; ++f) {
            k1[f] += q.m1[f]; k2[f] += q.m2[f]; k3[f] += q.m3[f]; k4[f] += q.m4[f] - 3 * q.m2[f] * q.m2[f];
            // sizes, as if the blocks were all aligned
            a1[f] += a.m1[f]; a2[f] = std::pow(std::sqrt(a2[f]) + std::sqrt(a.r2[f]), LD(2)); a4[f] = std::pow(std::pow(a4[f], LD(0.25)) + std::pow(a.r4[f], LD(0.25)), LD(4));
        }
        c12 += q.c2[1];
    }
    const double E = 1e3 * 2.2e-16;
    const std::string hist = std::string(normal ? "normal" : "blocks") + " N=" + std::to_string(N) + " block=" + std::to_string(bs);
    uint64_t hs = h::hash_str(hist);
    for (auto &hv : H) for (auto z : hv) hs = h::mix(hs, h::bits(double(z)));
    for (auto &hv : G) for (auto z : hv) hs = h::mix(hs, h::bits(double(z)));
    c.distinct(hs);
    Judge j { c, hist, {}, {}, {}, E };
    for (size_t f = 0; f < 2; ++f) {
        const U &y = R[f];
        j.cmp("m1", f, y.m(1), k1[f], E * double(a1[f]) + 1e-300);
        j.cmp("m2", f, y.m(2), k2[f], 8 * E * double(a2[f]) + 1e-300);
        j.cmp("m3", f, y.m(3), k3[f], 20 * E * std::pow(double(a4[f]), 0.75) + 1e-300);
        j.cmp("m4", f, y.m(4), k4[f] + 3 * k2[f] * k2[f], 60 * E * double(a4[f]) + 1e-300);
    }
    j.cmp("cov", 0, cov(R[0], R[1]), c12, 8 * E * std::sqrt(double(a2[0] * a2[1])) + 1e-300);
    j.cmp("cov", 1, cov(R[1], R[0]), c12, 8 * E * std::sqrt(double(a2[0] * a2[1])) + 1e-300);
    c.count(normal ? "forms in many normal variables" : "forms in many blocks");
}

void run_case(h::Ctx &c) {
    const bool e = c.rng.chance(0.5);
    if (c.idx % 64 == 5) {
        const bool normal = c.rng.chance(0.5);
        const int N = normal ? c.rng.range(6, c.rng.chance(0.1) ? 20 : 10) : c.rng.range(6, 20), bs = normal ? N : c.rng.range(1, 4);
        if (e) big_case<unc::udouble2e>(c, N, bs, normal); else big_case<unc::udouble2m>(c, N, bs, normal);
        return;
    }
    if (c.rng.chance(0.4)) { if (e) program_case<unc::udouble2e>(c); else program_case<unc::udouble2m>(c); }
    else if (e) form_case<unc::udouble2e>(c); else form_case<unc::udouble2m>(c);
}

void run_once(h::Ctx &c) {
    // documented example: sum of squares of normals is a chi-square
    using U = unc::udouble2m;
    for (int k = 1; k <= 12; ++k) {
        U s(0.0);
        for (int i = 0; i < k; ++i) { const U z = unc::distr::normal<U>(0, 1); s = s + z * z; }
        const U w = unc::distr::chisquare<U>(k);
        c.check(std::fabs(s.n() - k) < 1e-12 && std::fabs(s.s() - w.s()) < 1e-12 && std::fabs(s.skew() - w.skew()) < 1e-11 && std::fabs(s.kurt() - w.kurt()) < 1e-10, "chisquare-from-normals",
            [&] { return std::to_string(k) + ": " + h::num(s.n()) + " " + h::num(s.s()) + " " + h::num(s.skew()) + " " + h::num(s.kurt()); });
        c.count("chi-square from normals");
    }
    big_case<unc::udouble2m>(c, 24, 24, true);
    big_case<unc::udouble2e>(c, 40, 4, false);
}
