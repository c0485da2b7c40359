// C12: acceptance of moments against the eigenvalues of the Hankel matrix
// computed independently in quad precision, and read back of the moments.
#include "distjudge.hpp"
#include <uncertainties/impl.hpp>
#include <array>

// eigenvalues of a symmetric 5x5 matrix by Jacobi rotations
static void eig5(Q A[5][5], Q w[5]) {
    for (int sweep = 0; sweep < 60; ++sweep) {
        Q off = 0;
        for (int i = 0; i < 5; ++i) for (int j = 0; j < i; ++j) off += A[i][j] * A[i][j];
        if (off == 0) break;
        for (int p = 0; p < 5; ++p) for (int q = p + 1; q < 5; ++q) {
            if (A[p][q] == 0) continue;
            const Q th = (A[q][q] - A[p][p]) / (2 * A[p][q]);
            const Q t = (th >= 0 ? Q(1) : Q(-1)) / (fabsq(th) + sqrtq(th * th + 1)), c = 1 / sqrtq(t * t + 1), s = t * c;
            for (int k = 0; k < 5; ++k) { const Q x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
            for (int k = 0; k < 5; ++k) { const Q x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; }
        }
    }
    for (int i = 0; i < 5; ++i) w[i] = A[i][i];
}
// min eigenvalue / max eigenvalue of the moment matrix; m[0..8]
static double ratio(const std::vector<Q> &m) {
    Q A[5][5], w[5];
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) A[i][j] = m[size_t(i + j)];
    eig5(A, w);
    Q mn = w[0], mx = w[0];
    for (int i = 1; i < 5; ++i) { if (w[i] < mn) mn = w[i]; if (w[i] > mx) mx = w[i]; }
    return double(mn / mx);
}
static std::vector<Q> mixture(h::Rng &r) { // raw moments 0..8 of a mixture of points, normals and uniforms, then standardized
    const int n = r.range(2, 9);
    std::vector<Q> m(9, 0);
    Q W = 0;
    for (int i = 0; i < n; ++i) {
        const Q w = r.uni(0.1, 1), c = r.normal() * 1.5;
        const int kind = r.below(3);
        const Q s = r.uni(0.2, 1.5);
        static const double nm[9] = { 1, 0, 1, 0, 3, 0, 15, 0, 105 };
        for (int k = 0; k <= 8; ++k) {
            Q e = 0, B = 1;
            for (int j = 0; j <= k; ++j) {
                const Q zj = kind == 0 ? Q(j == 0) : kind == 1 ? Q(nm[j]) * powq(s, j) : (j % 2 ? Q(0) : powq(s, j) / (j + 1));
                e += B * zj * (k - j ? powq(c, k - j) : Q(1));
                B = B * (k - j) / (j + 1);
            }
            m[size_t(k)] += w * e;
        }
        W += w;
    }
    for (auto &x : m) x /= W;
    std::vector<Q> cm(9, 0);
    for (int k = 0; k <= 8; ++k) { Q B = 1; for (int j = 0; j <= k; ++j) { cm[size_t(k)] += B * m[size_t(j)] * (k - j ? powq(-m[1], k - j) : Q(1)); B = B * (k - j) / (j + 1); } }
    const Q s = sqrtq(cm[2]);
    Q p = 1;
    for (int k = 0; k <= 8; ++k) { cm[size_t(k)] /= p; p *= s; }
    cm[0] = 1; cm[1] = 0; cm[2] = 1;
    return cm;
}
// standardized moments of a symmetric or general set of points whose weights may
// be negative: often there is no distribution with these moments
static bool points(h::Rng &r, bool symmetric, bool negative, std::vector<Q> &cm) {
    const int n = r.range(2, 6);
    std::vector<Q> x, w;
    for (int i = 0; i < n; ++i) {
        const Q a = r.normal() * 1.5, b = r.uni(0.1, 1) * (negative && r.chance(0.4) ? -0.3 : 1);
        x.push_back(a); w.push_back(b);
        if (symmetric) { x.push_back(-a); w.push_back(b); }
    }
    std::vector<Q> m(9, 0);
    Q W = 0, mu = 0;
    for (size_t i = 0; i < x.size(); ++i) { W += w[i]; mu += w[i] * x[i]; }
    if (!(W > 0.1Q)) return false;
    mu /= W;
    if (symmetric) mu = 0;
    for (int k = 0; k <= 8; ++k) for (size_t i = 0; i < x.size(); ++i) m[size_t(k)] += w[i] / W * (k ? powq(x[i] - mu, k) : Q(1));
    if (symmetric) for (int k = 1; k < 9; k += 2) m[size_t(k)] = 0;
    if (!(m[2] > 0.05Q)) return false;
    const Q s = sqrtq(m[2]);
    Q p = 1;
    for (int k = 0; k <= 8; ++k) { m[size_t(k)] /= p; p *= s; }
    m[0] = 1; m[1] = 0; m[2] = 1;
    cm = m;
    return true;
}
enum Out { OK, IA, OTHER };
template<class F> static Out outcome(F f) {
    try { f(); } catch (const std::invalid_argument &) { return IA; } catch (...) { return OTHER; }
    return OK;
}
static const char *const oname[] = { "accepted", "std::invalid_argument", "other exception" };

template<class U> static void one(h::Ctx &c, const char *tn) {
    typedef typename U::real_type R;
    h::Rng &r = c.rng;
    const double eps = double(std::numeric_limits<R>::epsilon()), margin = 2000 * eps;
    std::vector<Q> z = mixture(r);
    const int family = r.below(8);
    if (family == 0) { // symmetric: the odd and the even moments are separate conditions
        for (int k = 3; k <= 8; k += 2) z[size_t(k)] = 0;
        const int how = r.below(5);
        if (how == 0) z[4] = Q(r.uni(0, 2));
        else if (how == 1) z[6] = z[4] * z[4] * Q(r.uni(0.3, 1.5));
        else if (how == 2) z[8] = z[4] > 1 ? z[4] * z[4] + (z[6] - z[4]) * (z[6] - z[4]) / (z[4] - 1) * Q(r.uni(-1, 2)) : Q(1); // the determinant of the even ones
        else if (how == 3) z[8] *= Q(r.uni(0.1, 20));
        c.count("symmetric");
    } else if (family == 1) { // some moments zero
        for (int k = 3; k <= 8; ++k) if (r.chance(0.3)) z[size_t(k)] = 0;
        c.count("with zeros");
    } else if (family == 2 || family == 3) {
        const bool sym = r.chance(0.4), neg = r.chance(0.8);
        if (points(r, sym, neg, z)) c.count(neg ? "points with negative weights" : "points");
    } else if (family == 4) { // normal with one or two moments changed
        for (int k = 3; k <= 8; ++k) z[size_t(k)] = k == 4 ? 3 : k == 6 ? 15 : k == 8 ? 105 : 0;
        for (int j = r.range(1, 2); j--; ) { const int k = r.range(3, 8); z[size_t(k)] += Q(r.normal() * std::pow(2.0, k - 3)); }
        c.count("near the normal");
    } else if (r.chance(0.6)) { // perturb: possibly not realizable
        const int k = r.range(3, 8);
        const int how = r.below(4);
        if (how == 0) z[size_t(k)] *= Q(r.uni(0.3, 1.2));
        else if (how == 1) z[4] = 1 + z[3] * z[3] + Q(r.normal() * 0.3);
        else if (how == 2) z[size_t(k)] = -z[size_t(k)];
        else for (int i = 3; i <= 8; ++i) z[size_t(i)] += Q(r.normal() * 0.1 * double(z[size_t(i)]));
    }
    const bool central = r.chance(0.5);
    R s = R(r.chance(0.3) ? 1.0 : sizeof(R) == 4 ? r.logu(-3, 3) : r.chance(0.5) ? r.logu(-1, 1) : r.logu(-30, 30));
    std::array<R, 6> m6; std::array<R, 7> m7;
    std::vector<Q> M(9);
    M[0] = 1; M[1] = 0;
    if (central) {
        Q p = Q(s) * Q(s);
        for (int k = 2; k <= 8; ++k) { m7[size_t(k - 2)] = R(z[size_t(k)] * p); M[size_t(k)] = Q(m7[size_t(k - 2)]); p *= Q(s); }
        if (r.chance(0.08)) { // no variance, with or without higher moments
            m7[0] = 0; M[2] = 0;
            const double keep = r.pick(std::vector<double>{ 0, 0.3, 1 });
            for (int k = 3; k <= 8; ++k) if (!r.chance(keep)) { m7[size_t(k - 2)] = 0; M[size_t(k)] = 0; }
            c.count("zero variance");
        }
    } else {
        M[2] = 1;
        for (int k = 3; k <= 8; ++k) { m6[size_t(k - 3)] = R(z[size_t(k)]); M[size_t(k)] = Q(m6[size_t(k - 3)]); }
    }
    for (auto &x : z) if (!(fabsq(x) < 1e12Q)) { c.count("out of range"); return; }
    // in some unit of measure near the standard deviation
    double rt = ratio(M), rtlo = rt, rthi = rt;
    if (central && M[2] > 0) {
        const Q sd = sqrtq(M[2]);
        rtlo = INFINITY; rthi = -INFINITY;
        for (Q u : { sd, sd / 2, sd / 1.4Q, exp2q(floorq(log2q(sd))) }) {
            std::vector<Q> S(M);
            Q p = 1;
            for (auto &x : S) { x /= p; p *= u; }
            const double q = ratio(S);
            rtlo = std::min(rtlo, q); rthi = std::max(rthi, q);
        }
        rt = rthi < 0 ? rthi : rtlo;
    }
    const R mu = R(r.normal() * 3 * (r.chance(0.5) ? double(s) : 1.0));
    auto make = [&](R th) { return central ? U(mu, m7, th) : U(mu, s, m6, th); };
    std::ostringstream o; o.precision(21); o << tn << (central ? " central" : " standardized");
    for (auto &x : M) o << " " << (long double)(x);
    o << " s " << (long double)s << " eigenvalue ratio " << rt;
    const std::string d = o.str();
    h::where(d);
    c.distinct(h::hash_str(d));
    c.sample(d);
    auto want = [&](const char *key, Out got, Out w, double th) {
        c.eval();
        if (got != w) c.viol(key, d + " threshold " + h::num(th) + ": " + oname[got] + " instead of " + oname[w]);
    };
    const Out o0 = outcome([&] { make(R(0)); });
    if (rtlo > margin) { want("realizable-rejected", o0, OK, 0); c.count("realizable"); }
    else if (rthi < -margin) { want("unrealizable-accepted", o0, IA, 0); c.count("not realizable"); }
    else { c.count("on the border"); c.check(o0 != OTHER, "wrong-exception", [&] { return d; }); }
    // the default is 0
    const Out od = outcome([&] { if (central) U(mu, m7); else U(mu, s, m6); });
    c.check(od == o0, "default-threshold", [&] { return d; });
    // a positive threshold only enlarges the accepted set, continuously
    Out prev = o0;
    for (int e = -12; e <= 0; e += 1) {
        const double th = std::pow(10.0, e);
        const Out ot = outcome([&] { make(R(th)); });
        if (prev == OK) want("threshold-not-monotone", ot, OK, th);
        if (rtlo > -th / 2 + margin) want("threshold-rejects", ot, OK, th);
        if (rthi < -th * 2 - margin) { want("threshold-accepts-too-much", ot, IA, th); c.count("rejected in spite of a threshold"); }
        prev = ot;
    }
    // disabled
    const double neg = -r.logu(-6, 3);
    if (central && !(M[2] > 0)) return;
    want("negative-threshold", outcome([&] { make(R(neg)); }), OK, neg);
    // negative standard deviation: rejected anyway
    if (!central) {
        want("negative-s", outcome([&] { U(mu, -s, m6); }), IA, 0);
        want("negative-s-unchecked", outcome([&] { U(mu, -s, m6, R(-1)); }), IA, -1);
        want("negative-s-threshold", outcome([&] { U(mu, -s, m6, R(0.1)); }), IA, 0.1);
    } else {
        std::array<R, 7> bad = m7;
        bad[0] = -bad[0];
        want("negative-variance", outcome([&] { U(mu, bad); }), IA, 0);
    }
    // read back
    if (o0 == OK && rtlo > margin) {
        Dst dd { "read-back", Q(mu), Q(0), std::vector<Q>(9) };
        dd.s = central ? sqrtq(Q(m7[0])) : Q(s);
        Q p = 1;
        for (int k = 0; k <= 8; ++k) { dd.z[size_t(k)] = M[size_t(k)] / p; if (central) p *= dd.s; }
        judge(c, make(R(0)), dd, d);
        c.count("read back");
    }
}
void run_case(h::Ctx &c) {
    switch (c.rng.below(6)) {
    case 0: case 1: one<unc::UReal2E<double>>(c, "2e double"); break;
    case 2: one<unc::UReal2M<double>>(c, "2m double"); break;
    case 3: one<unc::UReal2M<float>>(c, "2m float"); break;
    case 4: one<unc::UReal2E<long double>>(c, "2e long double"); break;
    case 5: one<unc::UReal2M<double>>(c, "2m double"); break;
    }
}
void run_once(h::Ctx &c) {
    using U = unc::udouble2e;
    // even moments of the wrong sign, one at a time; kurtosis below the bound
    for (int k = 0; k < 6; k += 1) {
        std::array<double, 6> m {{0, 3, 0, 15, 0, 105}};
        if (k % 2) m[size_t(k)] = -m[size_t(k)]; else m[size_t(k)] = 50;
        h::where("wrong moment " + std::to_string(k + 3));
        c.check(outcome([&] { U(0, 1, m); }) == IA, "unrealizable-accepted", [&] { return "moment " + std::to_string(k + 3); });
    }
    // no variance: the other moments must be zero too
    c.check(outcome([&] { U(1, {{0, 0, 0, 0, 0, 0, 0}}); }) == OK, "realizable-rejected", [] { return std::string("all zero"); });
    for (size_t k = 1; k < 6; ++k) for (double v : { -1., 1., 1e-3, 1e3 }) {
        std::array<double, 7> m {{0, 0, 0, 0, 0, 0, 0}};
        m[k] = v;
        c.check(outcome([&] { U(1, m); }) == IA, "unrealizable-accepted", [&] { return "zero variance, moment " + std::to_string(k + 2) + " = " + h::num(v); });
    }
}
