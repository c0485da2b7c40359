// C06: threads. Built twice: with ThreadSanitizer (races), and without
// (stress: duplicated identities, wrong results).
#include "obs.hpp"
#include <uncertainties/ureals.hpp>
#include <uncertainties/impl.hpp>
#include <thread>
#include <atomic>
#include <algorithm>
using namespace prog;
using UD = unc::udouble;
using E = unc::udouble2e;
using M = unc::udouble2m;

struct Barrier { // spinning: all the threads are released at the same time
    std::atomic<int> n; const int total;
    Barrier(int t): n(0), total(t) {}
    void wait() { n.fetch_add(1); while (n.load(std::memory_order_acquire) < total) std::this_thread::yield(); }
};
template<class F> static void parallel(int T, F f) {
    Barrier b(T);
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&b, &f, t] { b.wait(); f(t); });
    for (auto &x : th) x.join();
}
// a spread of delays before each operation, to vary the interleaving
static void jitter(h::Rng &r) {
    const int k = r.below(6);
    if (k == 0) std::this_thread::yield();
    else if (k == 1) for (volatile int i = 0; i < 200; ++i);
}
typedef std::vector<double> Res;
static bool same(const Res &a, const Res &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!obs::close(a[i], b[i], 1e-12, 1e-14)) return false;
    return true;
}
static std::string show(const Res &a) { std::string s; for (size_t i = 0; i < a.size() && i < 40; ++i) s += h::num(a[i]) + " "; return s; }
static void txt(Res &o, const std::string &s) { o.push_back(double(h::hash_str(s) >> 11)); }

// ---- every function of the library, each callable alone ---------------------
typedef std::function<void(Res &, std::vector<long long> &)> Fun;
template<class U> static void put(Res &o, const U &x) { o.push_back(double(Ops<U>::n(x))); o.push_back(double(x.s())); }
static std::vector<std::pair<std::string, Fun>> functions() {
    std::vector<std::pair<std::string, Fun>> v;
    static const double arg[3] = { 0.4, 1.7, -0.6 };
    for (int f = 0; f < sh::N_OP1; ++f) for (int k = 0; k < 3; ++k) if (domain1<double>(f, arg[k])) {
        const double a = arg[k];
        const std::string n = sh::op1_name[f];
        v.emplace_back(n, [f, a](Res &o, std::vector<long long> &id) { UD x(a, 0.1); id.push_back(x.indepid()); put(o, lib1<UD>(f, x)); });
        v.emplace_back(n + " 2e", [f, a](Res &o, std::vector<long long> &id) { E x(a, 0.1, {{0, 3, 0, 15, 0, 105}}, -1); id.push_back(x.indepid()); const E y = lib1<E>(f, x); put(o, y); o.push_back(y.m(3)); o.push_back(y.m(4)); });
        v.emplace_back(n + " 2m", [f, a](Res &o, std::vector<long long> &id) { M x(a, 0.1, {{2, 9, 44, 265, 1854, 14833}}, -1); id.push_back(x.indepid()); const M y = lib1<M>(f, x); put(o, y); o.push_back(y.m(1)); });
        break;
    }
    for (int f = 0; f < sh::N_OP2; ++f) {
        const std::string n = sh::op2_name[f];
        v.emplace_back(n, [f](Res &o, std::vector<long long> &id) { UD x(1.3, 0.1), y(2.4, 0.2); id.push_back(x.indepid()); id.push_back(y.indepid()); put(o, lib2<UD>(f, x, y)); });
        v.emplace_back(n + " 2e", [f](Res &o, std::vector<long long> &id) { E x = unc::distr::normal<E>(1.3, 0.1), y = unc::distr::uniform<E>(2, 3); id.push_back(x.indepid()); id.push_back(y.indepid()); const E z = lib2<E>(f, x, y); put(o, z); o.push_back(z.m(4)); });
    }
    v.emplace_back("normal", [](Res &o, std::vector<long long> &id) { M x = unc::distr::normal<M>(1, 2); id.push_back(x.indepid()); put(o, x); put(o, x * x); o.push_back((x * x).kurt()); });
    v.emplace_back("chisquare", [](Res &o, std::vector<long long> &id) { M x = unc::distr::chisquare<M>(3); id.push_back(x.indepid()); put(o, x); put(o, x * x); o.push_back((x * x).kurt()); });
    v.emplace_back("uniform", [](Res &o, std::vector<long long> &id) { E x = unc::distr::uniform<E>(1, 2); id.push_back(x.indepid()); put(o, x); put(o, x * x); o.push_back((x * x).skew()); });
    v.emplace_back("float distr", [](Res &o, std::vector<long long> &id) { using F = unc::ufloat2m; F a = unc::distr::normal<F>(1, 2), b = unc::distr::chisquare<F>(3), c = unc::distr::uniform<F>(0, 1); id.push_back(a.indepid()); id.push_back(b.indepid()); id.push_back(c.indepid()); o.push_back(a.kurt()); o.push_back(b.kurt()); o.push_back(c.kurt()); });
    v.emplace_back("long double distr", [](Res &o, std::vector<long long> &id) { using F = unc::UReal2E<long double>; F a = unc::distr::normal<F>(1, 2), b = unc::distr::chisquare<F>(3), c = unc::distr::uniform<F>(0, 1); id.push_back(a.indepid()); id.push_back(b.indepid()); id.push_back(c.indepid()); o.push_back(double(a.kurt())); o.push_back(double(b.kurt())); o.push_back(double(c.kurt())); });
    v.emplace_back("moments", [](Res &o, std::vector<long long> &id) { E x(0, {{1, 0, 3, 0, 15, 0, 105}}); id.push_back(x.indepid()); put(o, x * x); });
    v.emplace_back("format", [](Res &o, std::vector<long long> &) { txt(o, unc::format(UD(1.234, 0.056))); txt(o, UD(-123456, 78).format(2.0f, " +/- ")); txt(o, unc::format(3.5)); std::ostringstream s; s << UD(0.001, 0.00002); txt(o, s.str()); });
    v.emplace_back("format 2", [](Res &o, std::vector<long long> &) { E x = unc::distr::normal<E>(1, 0.2); txt(o, unc::format(x * x)); std::ostringstream s; s << exp(x); txt(o, s.str()); });
    v.emplace_back("ureals", [](Res &o, std::vector<long long> &) { const std::vector<double> m { 1, 2, 3 }, c { 4, 1, 0.5, 1, 3, 0.2, 0.5, 0.2, 2 }; auto x = unc::ureals<std::vector<UD>>(m, c); for (auto &q : x) put(o, q); o.push_back(cov(x[0], x[1])); o.push_back(cov(x[2], x[1])); });
    v.emplace_back("matrices", [](Res &o, std::vector<long long> &) { UD a(1, 2), b(3, 4); std::vector<UD> x { a, a + b, a * b }; for (double q : unc::cov_matrix<std::vector<double>>(x)) o.push_back(q); for (double q : unc::corr_matrix<std::vector<double>>(x)) o.push_back(q); for (double q : unc::corr2cov<std::vector<double>>(std::vector<double>{ 1, 2 }, std::vector<double>{ 1, 0.5, 0.5, 1 })) o.push_back(q); });
    v.emplace_back("factories", [](Res &o, std::vector<long long> &) { auto f = unc::uunary<double>([](double x) { return x * x; }); auto g = unc::ubinary2<double, unc::Prop::est>([](double x, double y) { return x * y + x; }); put(o, f(UD(2, 1))); const E x = unc::distr::normal<E>(1, 0.5); put(o, g(x, unc::distr::normal<E>(2, 0.5))); });
    v.emplace_back("conversions", [](Res &o, std::vector<long long> &id) { UD x(1, 2); id.push_back(x.indepid()); unc::UReal<float> f = x; unc::UReal<long double> l = x * x; o.push_back(f.s()); o.push_back(double(l.s())); const E e = unc::distr::normal<E>(1, 2); put(o, M(e * e)); });
    v.emplace_back("in-place", [](Res &o, std::vector<long long> &) { UD x(1, 2), y(3, 4); x += y; x *= x; x -= 3; x /= y; put(o, x); });
    v.emplace_back("nary", [](Res &o, std::vector<long long> &) { std::vector<UD> x { { 1, 2 }, { 3, 4 } }; std::vector<double> d { 1, 2 }; put(o, nary(x.begin(), x.end(), 7.0, d.begin())); });
    v.emplace_back("rejected", [](Res &o, std::vector<long long> &) { int k = 0; try { UD(1, -1); } catch (const std::invalid_argument &) { ++k; } try { E(0, 1, {{0, 0.5, 0, 1, 0, 1}}); } catch (const std::invalid_argument &) { ++k; } try { UD(2).grad(UD(3)); } catch (const std::invalid_argument &) { ++k; } o.push_back(k); });
    v.emplace_back("check", [](Res &o, std::vector<long long> &) { E x(0, 1, {{0, 3, 0, 15, 0, 105}}); put(o, x * x); });
    return v;
}

// 1. first use of every function, concurrently: once per process
static void first_use(h::Ctx &c, int T) {
    const auto fs = functions();
    momsets();
    std::vector<std::vector<Res>> out(size_t(T), std::vector<Res>(fs.size()));
    std::vector<std::vector<long long>> ids { size_t(T) };
    const uint64_t seed = c.rng.next();
    const bool aligned = c.rng.chance(0.5); // all the threads in the same order, or each in its own
    parallel(T, [&](int t) {
        h::Rng r(h::mix(seed, aligned ? 0 : uint64_t(t)));
        std::vector<size_t> ord(fs.size());
        for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
        r.shuffle(ord);
        for (size_t i : ord) fs[i].second(out[size_t(t)][i], ids[size_t(t)]);
    });
    for (size_t i = 0; i < fs.size(); ++i) {
        Res seq; std::vector<long long> dummy;
        fs[i].second(seq, dummy);
        for (int t = 0; t < T; ++t) c.check(same(out[size_t(t)][i], seq), "first-use-result:" + fs[i].first, [&] { return "thread " + std::to_string(t) + ": " + show(out[size_t(t)][i]) + " sequential: " + show(seq); });
    }
    std::vector<long long> all;
    for (auto &v : ids) all.insert(all.end(), v.begin(), v.end());
    std::sort(all.begin(), all.end());
    c.check(std::adjacent_find(all.begin(), all.end()) == all.end() && all[0] > 0, "duplicated-identity", [] { return std::string("first use"); });
    c.count("functions first used concurrently", fs.size());
    c.count("processes");
    c.distinct(seed);
    c.sample("first use of " + std::to_string(fs.size()) + " functions by " + std::to_string(T) + " threads, " + (aligned ? "same order" : "each in its own order"));
}
// 2. creation storm
static void storm(h::Ctx &c, int T, int N) {
    std::vector<std::vector<long long>> ids { size_t(T) };
    std::atomic<int> go(0);
    parallel(T, [&](int t) {
        auto &v = ids[size_t(t)];
        v.reserve(size_t(N) * 2);
        for (int i = 0; i < N; ++i) {
            switch ((i + t) % (i % 8 ? 1 : 6)) {
            case 0: v.push_back(UD(1, 2).indepid()); break;
            case 1: v.push_back(E(1, 2, {{0, 3, 0, 15, 0, 105}}, -1).indepid()); break;
            case 2: v.push_back(M(1, {{1, 0, 3, 0, 15, 0, 105}}, -1).indepid()); break;
            case 3: v.push_back(unc::ufloat(1, 2).indepid()); break;
            case 4: v.push_back(unc::distr::normal<M>(0, 1).indepid()); break;
            case 5: v.push_back(unc::UReal<long double>(1, 2).indepid()); break;
            }
        }
    });
    std::vector<long long> all;
    for (auto &v : ids) all.insert(all.end(), v.begin(), v.end());
    std::vector<long long> unsorted = all;
    std::sort(all.begin(), all.end());
    c.check(std::adjacent_find(all.begin(), all.end()) == all.end() && all[0] > 0, "duplicated-identity", [&] { return "creation by " + std::to_string(T) + " threads: " + std::to_string(*std::adjacent_find(all.begin(), all.end())); });
    // how interleaved the threads were: switches of the creating thread in order of id
    std::vector<std::pair<long long, int>> who;
    for (int t = 0; t < T; ++t) for (auto i : ids[size_t(t)]) who.emplace_back(i, t);
    std::sort(who.begin(), who.end());
    uint64_t sw = 0, hsh = 1;
    for (size_t i = 1; i < who.size(); ++i) if (who[i].second != who[i - 1].second) { ++sw; hsh = h::mix(hsh, uint64_t(who[i].second) * 1000003 + i); }
    c.count("identities created", all.size());
    c.count("switches between creating threads", sw);
    c.distinct(hsh);
    c.sample(std::to_string(T) + " threads created " + std::to_string(all.size()) + " variables, " + std::to_string(sw) + " switches of the creating thread in order of identity");
}
// 3. own variables, whole programs
template<class U> static Res run_program(const Program &p, const Cfg &cfg, std::vector<long long> &ids) {
    LibExec<U> L(cfg);
    Res o;
    for (auto &i : p.ins) { L.run(i); if (i.kind == NEWVAR && i.s != 0) ids.push_back(L.indep.back().indepid()); }
    for (auto &x : L.R) {
        put(o, x);
        for (auto &y : L.R) o.push_back(double(cov(x, y)));
        for (auto &y : L.indep) if (y.s() != 0) o.push_back(double(x.grad(y)));
    }
    return o;
}
static void programs(h::Ctx &c, int T) {
    std::vector<Program> ps;
    std::vector<Cfg> cf;
    std::vector<int> ty;
    for (int t = 0; t < T; ++t) {
        Cfg cfg; cfg.len = 15; cfg.maxvars = 4; cfg.regs = 4;
        const int k = c.rng.below(3);
        cfg.second = k > 0; cfg.nmom = 4;
        if (t > 0 && c.rng.chance(0.5)) { ps.push_back(ps.back()); cf.push_back(cf.back()); ty.push_back(ty.back()); continue; } // the same code paths
        Gen<quad> g(c.rng, cfg); g.generate();
        ps.push_back(g.p); cf.push_back(cfg); ty.push_back(k);
    }
    std::vector<Res> out { size_t(T) };
    std::vector<std::vector<long long>> ids { size_t(T) };
    auto run = [&](int t, std::vector<long long> &id) {
        const size_t i = size_t(t);
        return ty[i] == 0 ? run_program<UD>(ps[i], cf[i], id) : ty[i] == 1 ? run_program<E>(ps[i], cf[i], id) : run_program<M>(ps[i], cf[i], id);
    };
    parallel(T, [&](int t) { out[size_t(t)] = run(t, ids[size_t(t)]); });
    std::vector<long long> all;
    for (auto &v : ids) all.insert(all.end(), v.begin(), v.end());
    std::sort(all.begin(), all.end());
    c.check(std::adjacent_find(all.begin(), all.end()) == all.end(), "duplicated-identity", [] { return std::string("programs"); });
    for (int t = 0; t < T; ++t) {
        std::vector<long long> dummy;
        const Res s = run(t, dummy);
        c.check(same(out[size_t(t)], s), "concurrent-result", [&] { return ps[size_t(t)].str() + " concurrent " + show(out[size_t(t)]) + " sequential " + show(s); });
        c.distinct(ps[size_t(t)].hash());
    }
    c.count("programs run concurrently", uint64_t(T));
}
// 4. shared variables, read only
template<class U> static void read_all(const std::vector<U> &S, size_t i, size_t j, int what, Res &o) {
    const U &x = S[i], &y = S[j];
    switch (what) {
    case 0: o.push_back(double(x.n())); o.push_back(double(x.s())); break;
    case 1: o.push_back(double(var(x))); o.push_back(double(unc::sdev(x))); o.push_back(double(unc::nom(x))); break;
    case 2: o.push_back(double(cov(x, y))); o.push_back(double(cov(y, x))); break;
    case 3: o.push_back(double(corr(x, y))); break;
    case 4: txt(o, unc::format(x)); txt(o, x.format(3.0f)); break;
    case 5: { std::ostringstream s; s << x << y; txt(o, s.str()); break; }
    case 6: { U k = x; put(o, k); k = y; put(o, k); break; }
    case 7: put(o, U(x + y)); break;
    case 8: put(o, U(x * y - x)); break;
    case 9: o.push_back(x.isindep()); o.push_back(double(x.indepid())); o.push_back(isfinite(x)); break;
    case 10: o.push_back(double(x.grad(S[0]))); o.push_back(double(y.grad(S[1]))); break;
    case 11: put(o, U(sin(x))); put(o, U(exp(y * 0.1))); break;
    case 12: for (auto q : unc::cov_matrix<std::vector<double>>(S)) o.push_back(q); break;
    case 13: for (auto q : unc::corr_matrix<std::vector<double>>(S)) o.push_back(q); break;
    case 14: for (auto q : unc::nom_vector<std::vector<double>>(S)) o.push_back(q); break;
    case 15: { U k(1.5); k = k + x; put(o, k); o.push_back(double(cov(k, y))); break; }
    }
}
static void more(const std::vector<UD> &S, size_t i, size_t j, Res &o) {
    UD z = S[i]; z += S[j]; z *= S[i]; put(o, z);
    unc::UReal<float> f = S[i]; unc::UReal<long double> l = S[j]; o.push_back(double(f.s())); o.push_back(double(l.s()));
    put(o, change_nom(S[i], 3.0));
    const UD k = nary(S.begin(), S.end(), 1.0, std::vector<double>(S.size(), 0.5).begin()); put(o, k);
}
template<unc::Prop P> static void more(const std::vector<unc::UReal2<double, P>> &S, size_t i, size_t j, Res &o) {
    for (int k = 1; k <= 4; ++k) o.push_back(S[i].m(k));
    o.push_back(S[i].skew()); o.push_back(S[j].kurt()); o.push_back(S[i].hess(S[0], S[1])); o.push_back(S[j].hess(S[1], S[1]));
    const M m(S[i]); const E e(S[j]); o.push_back(m.n()); o.push_back(e.n());
    unc::UReal2<double, P> z = S[i]; binary_assign(z, S[j], 1.0, 2.0, 3.0, 0.1, 0.2, 0.3); put(o, z);
}
template<class U> static void shared_reads(h::Ctx &c, int T, std::vector<U> S) {
    std::vector<U> &V = S;
    V.push_back(V[0] + V[1]); V.push_back(V[0] * V[1]); V.push_back(sin(V[0]) / V[1]); V.push_back(V[2] - V[3] * V[4]); V.push_back(-V[5]);
    if (c.rng.chance(0.3)) for (auto &x : V) (void)x.s(); // already cached, or not
    const std::vector<U> &K = V;
    const int L = 60;
    const uint64_t seed = c.rng.next();
    std::vector<Res> out { size_t(T) };
    auto work = [&](int t, Res &o) {
        h::Rng r(h::mix(seed, uint64_t(t)));
        for (int k = 0; k < L; ++k) {
            const size_t i = size_t(r.below(int(K.size()))), j = size_t(r.below(int(K.size())));
            const int w = r.below(18);
            if (w < 16) read_all<U>(K, i, j, w, o); else more(K, i, j, o);
        }
    };
    parallel(T, [&](int t) { work(t, out[size_t(t)]); });
    for (int t = 0; t < T; ++t) {
        Res s; work(t, s);
        c.check(same(out[size_t(t)], s), "shared-read-result", [&] { return "thread " + std::to_string(t) + " concurrent " + show(out[size_t(t)]) + " sequential " + show(s); });
    }
    c.count("operations on shared variables", uint64_t(T * L));
    c.distinct(seed);
}
void run_case(h::Ctx &c) {
    static bool first = true;
    const int T = c.rng.pick(std::vector<int>{ 2, 3, 4, 8 });
    if (first) { first = false; h::where("first use"); first_use(c, T); return; }
#if defined(__SANITIZE_THREAD__)
    const int N = 200;
#else
    const int N = 20000;
#endif
    switch (c.rng.below(6)) {
    case 0: h::where("creation"); storm(c, T, N); break;
    case 1: case 2: h::where("programs"); programs(c, T); break;
    case 3: h::where("shared first order"); shared_reads<UD>(c, T, { UD(1.2, 0.3), UD(2.1, 0.4), UD(0.7), UD(3, 0.1) }); break;
    case 4: h::where("shared est"); shared_reads<E>(c, T, { unc::distr::normal<E>(1.2, 0.3), unc::distr::uniform<E>(2, 3), E(0.7), unc::distr::chisquare<E>(3) }); break;
    case 5: h::where("shared mean"); shared_reads<M>(c, T, { unc::distr::normal<M>(1.2, 0.3), unc::distr::uniform<M>(2, 3), M(0.7), unc::distr::chisquare<M>(3) }); break;
    }
}
void run_once(h::Ctx &) {}
