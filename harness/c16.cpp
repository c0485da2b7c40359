// C16: hostile but valid workloads over the whole interface. The same source is
// built with ASan+UBSan+debug containers, without sanitizers for valgrind, and
// without sanitizers with poisoned heap and stack (H_POISON), where every case
// is executed under two different poisons and has to give the same bits.
#include <uncertainties/ureals.hpp>
#include "lib.hpp"
#include <uncertainties/impl.hpp>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <unordered_map>
#include <algorithm>
#include <iomanip>
#include <malloc.h>
#ifndef REAL
#define REAL double
#endif
using namespace prog;
typedef REAL Real;
typedef long double LD;
using UD = unc::UReal<Real>;
using E = unc::UReal2<Real, unc::Prop::est>;
using M = unc::UReal2<Real, unc::Prop::mean>;

#ifdef H_POISON
static int g_poison = 0;
static void __attribute__((noinline)) dirty() {
    volatile unsigned char b[12000];
    std::memset((void *)b, g_poison, sizeof b);
    asm volatile("" : : "r"(b) : "memory");
}
static void set_poison(int p) { g_poison = p; mallopt(M_PERTURB, p ^ 0xff); }
#else
static void dirty() {}
#endif

struct Out {
    std::vector<double> v;
    h::Ctx &c;
    Out(h::Ctx &x): c(x) {}
    // the comparison makes valgrind look at the bits
    void d(double x) { if (x < 0) ++neg; else ++pos; if (x != x) ++nan; v.push_back(x); }
    void t(const std::string &s) { double k = 0; for (unsigned char ch : s) { k = k * 1.0000001 + ch; if (ch == '?') ++neg; } d(k); }
    uint64_t digest() const { uint64_t k = 7; for (double x : v) k = h::mix(k, x != x ? 12345 : h::bits(x)); return k; }
    int neg = 0, pos = 0, nan = 0;
};

template<class R> static void put(Out &o, const unc::UReal<R> &x) {
    o.d(double(x.n())); o.d(double(x.s())); o.d(double(var(x))); o.d(x.isindep());
    o.d(x.indepid() == unc::invalid_id); // the identities themselves depend on the history
}
template<class R, unc::Prop P> static void put(Out &o, const unc::UReal2<R, P> &x) {
    o.d(double(x.first_order_n())); o.d(double(x.n())); o.d(double(var(x))); o.d(x.isindep());
    for (int i = 1; i <= 4; ++i) o.d(double(x.m(i)));
    if (var(x) > 0) { o.d(double(x.s())); o.d(double(x.skew())); o.d(double(x.kurt())); }
}
template<class U> static U fresh(h::Rng &r) { return Ops<U>::make(Real(r.normal()), Real(r.logu(-2, 1)), r.below(4)); }
template<class R> static void cross(Out &o, const unc::UReal<R> &x, const unc::UReal<R> &y) {
    o.d(double(cov(x, y)));
    if (x.s() > 0 && y.s() > 0) o.d(double(corr(x, y)));
    if (y.isindep() && y.s() > 0) o.d(double(x.grad(y)));
}
template<class R, unc::Prop P> static void cross(Out &o, const unc::UReal2<R, P> &x, const unc::UReal2<R, P> &y) {
    o.d(double(cov(x, y)));
    if (y.isindep() && y.indepid() != 0) {
        o.d(double(x.grad(y))); o.d(double(x.hess(y, y)));
        if (x.isindep() && x.indepid() != 0 && x.indepid() != y.indepid()) o.d(double((x * y).hess(x, y)));
    }
}

template<class U> static void wl_program(Out &o, h::Rng &r) {
    Cfg cfg;
    cfg.len = r.range(5, 25); cfg.maxvars = r.range(1, 5); cfg.regs = 5;
    cfg.second = Ops<U>::second; cfg.nmom = 4; cfg.float_in = true;
    Gen<LD> g(r, cfg);
    g.inplace_bias = r.chance(0.3) ? 0.5 : 0;
    g.generate();
    LibExec<U> L(cfg);
    for (auto &i : g.p.ins) { dirty(); L.run(i); if (r.chance(0.2)) put(o, L.R[size_t(i.dst)]); }
    dirty();
    for (auto &x : L.R) { put(o, x); for (auto &y : L.R) cross(o, x, y); for (auto &y : L.indep) if (y.s() != 0) o.d(double(x.grad(y))); }
    o.c.count("instructions", g.p.ins.size());
    o.c.distinct(g.p.hash());
}
template<class U> static bool less_n(const U &a, const U &b) { return Ops<U>::n(a) < Ops<U>::n(b); }
struct ByN { template<class U> bool operator()(const U &a, const U &b) const { return less_n(a, b); } };
template<class U, class C> static void container_ops(Out &o, h::Rng &r, C &v) {
    for (int k = 0; k < 12; ++k) {
        dirty();
        const int n = int(v.size());
        auto it = v.begin();
        if (n) std::advance(it, r.below(n));
        switch (r.below(11)) {
        case 0: v.push_back(fresh<U>(r)); break;
        case 1: v.insert(it, fresh<U>(r)); break;
        case 2: if (n) v.erase(it); break;
        case 3: if (n) { U x = *it; v.push_back(x); v.push_back(std::move(x)); x = U(Real(1)); put(o, x); } break;
        case 4: if (n) v.push_back(v.front() + *it); break;
        case 5: if (n) v.push_back(U(v.front() * *it)); break;
        case 6: { C w(v); w.swap(v); C z(std::move(w)); put(o, z.empty() ? U() : z.back()); break; }
        case 7: if (n) *it = *it; break;
        case 8: if (n > 1) { using std::swap; swap(*it, v.front()); } break;
        case 9: v.resize(size_t(r.below(6))); break;
        case 10: std::reverse(v.begin(), v.end()); break;
        }
    }
    for (auto &x : v) put(o, x);
    const C &cv = v;
    { std::vector<Real> mat(v.size() * v.size()); unc::cov_matrix(cv.begin(), cv.end(), mat.begin()); for (auto &x : mat) o.d(double(x)); }
    for (auto &x : unc::nom_vector<std::vector<Real>>(cv)) o.d(double(x));
}
template<class U> static void wl_containers(Out &o, h::Rng &r) {
    { std::vector<U> v; container_ops<U>(o, r, v); dirty(); std::sort(v.begin(), v.end(), less_n<U>); std::stable_sort(v.begin(), v.end(), [](const U &a, const U &b) { return less_n<U>(b, a); }); if (v.size() > 2) std::rotate(v.begin(), v.begin() + 1, v.end()); U s = std::accumulate(v.begin(), v.end(), U(Real(0))); put(o, s); std::vector<U> w(v.size()); std::transform(v.begin(), v.end(), w.begin(), [](const U &x) { return U(x * x); }); for (auto &x : w) put(o, x); v.assign(5, fresh<U>(r)); v.shrink_to_fit(); v.emplace_back(Real(3)); for (auto &x : v) put(o, x); }
    { std::deque<U> v; container_ops<U>(o, r, v); }
    { std::list<U> v; container_ops<U>(o, r, v); v.sort(less_n<U>); for (auto &x : v) put(o, x); }
    { dirty(); std::map<int, U> m; for (int i = 0; i < 6; ++i) m[r.below(4)] = fresh<U>(r); m[7]; for (auto &x : m) put(o, x.second); std::map<int, U> k(m); m.erase(m.begin()); for (auto &x : k) put(o, x.second); }
    { dirty(); std::unordered_map<int, U> m; for (int i = 0; i < 40; ++i) m.emplace(i, fresh<U>(r)); U s(Real(0)); for (int i = 0; i < 40; i += 3) { s = s + m.at(i); m.erase(i); } put(o, s); }
    { dirty(); std::priority_queue<U, std::vector<U>, ByN> q; for (int i = 0; i < 9; ++i) q.push(fresh<U>(r)); while (!q.empty()) { put(o, q.top()); q.pop(); } }
    { dirty(); std::unique_ptr<U> p(new U(fresh<U>(r))); const U h0 = *p; U *raw = new U(*p * *p); std::function<U(const U &)> f = [h0](const U &x) { return U(x - h0); }; U d = f(*raw); delete raw; p.reset(); put(o, d); std::array<U, 3> a { { d, U(), U(Real(2)) } }; std::array<U, 3> b = a; std::swap(a, b); put(o, b[0]); std::pair<U, U> pr(a[0], b[2]); put(o, pr.first); }
    o.c.count("containers");
}
template<class U> static void wl_format(Out &o, h::Rng &r) {
    for (int k = 0; k < 6; ++k) {
        dirty();
        const Real n = Real((r.chance(0.5) ? 1 : -1) * r.logu(-8, 8)), s = Real(r.chance(0.2) ? 0 : std::fabs(double(n)) * r.logu(-4, 4));
        const U x = Ops<U>::make(n, s, 0);
        const float dig = r.chance(0.5) ? float(r.range(2, 5)) : float(r.uni(1.01, 5));
        o.t(unc::format(x)); o.t(unc::format(x, dig)); o.t(x.format(dig, " pm "));
        std::ostringstream ss; ss << std::setw(r.below(30)) << x; o.t(ss.str());
        o.t(unc::format(U(n), dig)); o.t(unc::format(double(n)));
        o.t(unc::format(U(x * x), dig));
    }
    { // any ratio, many digits
        const double lo = std::log10(double(std::numeric_limits<Real>::min())), hi = std::log10(double(std::numeric_limits<Real>::max()));
        const double cap = sizeof(Real) > 8 ? 300 : 1e9; // the exponents of long double are covered up to the range of double
        for (int k = 0; k < 3; ++k) {
            dirty();
            auto any = [&] { return Real(r.uni(1, 9.9) * std::pow(10.0, r.uni(std::max(lo, -cap) + 1, std::min(hi, cap) - 2))); };
            const Real n = (r.chance(0.5) ? 1 : -1) * any(), s = any();
            const UD x(n, s);
            const float dig = r.chance(0.2) ? float(r.range(30, 400)) : float(r.uni(1.01, 20));
            o.t(unc::format(x, dig)); o.t(x.format(dig, std::string(size_t(r.below(300)), '~')));
            std::ostringstream ss; ss << std::setw(r.below(400)) << std::left << x; o.t(ss.str());
            o.t(unc::format(U(n), dig)); o.t(unc::format(n));
            o.c.count("formatted with any exponents");
        }
    }
    for (double z : { 0.0, double(INFINITY), -double(INFINITY), double(NAN) }) { o.t(unc::format(U(Real(z)))); }
    o.t(unc::format(UD(Real(INFINITY), Real(1)))); o.t(unc::format(UD(Real(1), Real(INFINITY)))); o.t(unc::format(UD(Real(NAN), Real(NAN))));
    o.t(unc::format(UD(Real(0), Real(1)))); o.t(unc::format(UD(Real(0), Real(0.099)))); o.t(unc::format(UD(std::numeric_limits<Real>::min(), std::numeric_limits<Real>::min()))); o.t(unc::format(UD(std::numeric_limits<Real>::max() / 100, std::numeric_limits<Real>::max() / 100)));
    o.t(unc::format(42)); o.t(unc::format(-1.5f));
    o.c.count("formatted texts", 60);
}
template<class U> struct Reject { static void run(Out &o, h::Rng &r) {
    int k = 0;
    const U x = fresh<U>(r), y = fresh<U>(r), z = x * y, c(Real(1));
    try { Ops<U>::make(Real(1), Real(-1), 0); } catch (const std::invalid_argument &) { ++k; }
    try { z.grad(z); } catch (const std::invalid_argument &) { ++k; }
    try { z.grad(c); } catch (const std::invalid_argument &) { ++k; }
    try { unc::format(x, 0.5f); } catch (const std::invalid_argument &) { ++k; }
    try { unc::ureals<std::vector<UD>>(std::vector<Real>(3), std::vector<Real>(8)); } catch (const std::invalid_argument &) { ++k; }
    try { unc::ureals<std::vector<UD>>(std::vector<Real>{ 1, 2 }, std::vector<Real>{ 1, 3, 3, 1 }); } catch (const std::runtime_error &) { ++k; }
    try { unc::corr2cov<std::vector<Real>>(std::vector<Real>(2), std::vector<Real>(3)); } catch (const std::invalid_argument &) { ++k; }
    try { unc::distr::chisquare<E>(-1); } catch (const std::invalid_argument &) { ++k; }
    try { unc::distr::uniform<M>(1, 0); } catch (const std::invalid_argument &) { ++k; }
    try { unc::distr::normal<M>(1, -1); } catch (const std::invalid_argument &) { ++k; }
    try { E(0, 1, {{0, Real(0.5), 0, 1, 0, 1}}); } catch (const std::invalid_argument &) { ++k; }
    try { E(0, {{1, 0, Real(0.5), 0, 1, 0, 1}}); } catch (const std::invalid_argument &) { ++k; }
    try { E(x_(r)).hess(E(1), E(2)); } catch (const std::invalid_argument &) { ++k; }
    o.d(k); put(o, z); put(o, x);
    o.c.count("exceptions caught", uint64_t(k));
}
static E x_(h::Rng &r) { return fresh<E>(r); } };
static void wl_misc(Out &o, h::Rng &r) {
    dirty();
    { // correlated variables
        const int n = r.range(0, 8);
        std::vector<Real> a(n * n + 0u), cv { a }, mu(a.begin(), a.begin() + n);
        for (auto &x : a) x = Real(r.normal());
        for (auto &x : mu) x = Real(r.normal());
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) cv[size_t(i * n + j)] += (k ? 0 : -cv[size_t(i * n + j)]) + a[size_t(i * n + k)] * a[size_t(j * n + k)];
        for (int i = 0; i < n; ++i) cv[size_t(i * n + i)] += Real(0.5); // far from singular
        auto x = unc::ureals<std::vector<UD>>(mu, cv);
        for (auto &q : x) put(o, q);
        dirty();
        const auto m = unc::cov_matrix<std::vector<Real>>(x);
        for (auto q : m) o.d(double(q));
        std::vector<Real> s; for (auto &q : x) s.push_back(q.s());
        const auto cr = unc::corr_matrix<std::vector<Real>>(x);
        for (auto q : cr) o.d(double(q));
        for (auto q : unc::corr2cov<std::vector<Real>>(s, cr)) o.d(double(q));
        { std::vector<Real> mat(x.size() * x.size()); unc::corr_matrix(x.data(), x.data() + n, mat.begin()); for (auto q : mat) o.d(double(q)); }
    }
    { // distributions
        dirty();
        const M a = unc::distr::normal<M>(Real(r.normal()), Real(r.logu(-3, 3))), b = unc::distr::chisquare<M>(r.range(0, 30)), c = unc::distr::uniform<M>(Real(-r.uni()), Real(r.uni()));
        const E d = unc::distr::normal<E>(Real(r.normal()), Real(0)), e = unc::distr::chisquare<E>(r.range(1, 30)), f = unc::distr::uniform<E>(Real(1), Real(1));
        put(o, a); put(o, b); put(o, c); put(o, d); put(o, e); put(o, f);
        put(o, M(a * b + c * c)); put(o, E(d * e - f * e));
        const std::array<Real, 7> cm { { Real(4), 0, Real(48), 0, Real(960), 0, Real(26880) } };
        put(o, M(M(1, cm) * c));
        put(o, M(2, cm, Real(-1)));
    }
    { // conversions
        dirty();
        const UD x = fresh<UD>(r), y = fresh<UD>(r), z = x * y;
        const unc::UReal<float> f = z; const unc::UReal<double> d = z; const unc::UReal<long double> l = x;
        put(o, f); put(o, d); put(o, l); put(o, unc::UReal<float>(f * f)); put(o, unc::UReal<long double>(l - unc::UReal<long double>(z)));
        const E p = fresh<E>(r), q = fresh<E>(r); const E w = p * q + p;
        const M m(w); const unc::UReal2<float, unc::Prop::mean> mf_(w); const unc::UReal2<long double, unc::Prop::est> el(w);
        put(o, m); put(o, mf_); put(o, el); put(o, unc::UReal2<float, unc::Prop::mean>(mf_ * mf_));
    }
    { // factories: copied, moved, destroyed
        dirty();
        const double k = r.uni(1, 2);
        std::function<UD(const UD &)> f; std::function<UD(const UD &, const UD &)> g;
        std::function<E(const E &)> f2; std::function<M(const M &, const M &)> g2;
        {
            std::vector<double> data { k, k * k };
            auto f0 = unc::uunary<Real>([data](const Real &x) { return Real(data[0]) * x * x; }, [data](const Real &x) { return Real(2 * data[0]) * x; });
            auto f1 = unc::uunary<Real>([data](const Real &x) { return Real(data[1]) * x; });
            auto g0 = unc::ubinary<Real>([data](const Real &x, const Real &y) { return x * y; }, [data](const Real &, const Real &y) { return y; }, [data](const Real &x, const Real &) { return Real(x * data[0] / data[0]); });
            f = r.chance(0.5) ? std::function<UD(const UD &)>(f0) : std::function<UD(const UD &)>(f1);
            g = g0; auto gg = std::move(g0); g = gg;
            f2 = unc::uunary2<Real, unc::Prop::est>([data](const Real &x) { return Real(data[0]) * x * x; });
            g2 = unc::ubinary2<Real, unc::Prop::mean>([data](const Real &x, const Real &y) { return Real(data[0]) * x * x + y; });
        }
        dirty();
        const UD x = fresh<UD>(r), y = fresh<UD>(r);
        put(o, f(x)); put(o, f(f(x))); put(o, g(x, y)); put(o, g(f(x), g(y, y)));
        const E e = fresh<E>(r); const M a = fresh<M>(r), b = fresh<M>(r);
        put(o, f2(e)); put(o, f2(f2(e))); put(o, g2(a, b)); put(o, g2(g2(a, b), a));
    }
    { // low level
        dirty();
        UD x = fresh<UD>(r), y = fresh<UD>(r), z = x + y;
        std::vector<UD> v { x, y, z, UD(1) }; std::vector<Real> d { 1, 2, 3, 4 };
        put(o, UD(nary(v.begin(), v.end(), Real(1), d.begin()))); put(o, UD(nary(v.begin(), v.begin(), Real(1), d.begin())));
        x += x; x *= x; x -= z; x /= UD(2); put(o, x); z *= z; z += z; put(o, z); z -= z; put(o, z); put(o, change_nom(z, Real(3)));
        E a = fresh<E>(r), b = fresh<E>(r);
        binary_assign(a, b, Real(1), Real(2), Real(3), Real(4), Real(5), Real(6)); put(o, a);
        binary_assign(a, a, Real(1), Real(2), Real(3), Real(4), Real(5), Real(6)); put(o, a);
        o.d(isfinite(x)); o.d(isnormal(y)); o.d(isfinite(a)); o.d(isnormal(a));
    }
    { // many variables
        dirty();
        UD s(0); for (int i = 0; i < 150; ++i) s += UD(Real(i), Real(1)); put(o, s);
        UD t = s; for (int i = 0; i < 5; ++i) t = t * Real(0.5) + s; put(o, t); cross(o, s, t);
        E p(0); for (int i = 0; i < 8; ++i) p = p + fresh<E>(r); p = p * p; put(o, p); p = p * p; put(o, p); p = E(0); put(o, p);
    }
    Reject<UD>::run(o, r); Reject<E>::run(o, r);
    o.c.count("miscellaneous workloads");
}
static void work(Out &o, h::Rng r) {
    switch (r.below(10)) {
    case 0: case 1: h::where("program"); wl_program<UD>(o, r); break;
    case 2: h::where("program 2e"); wl_program<E>(o, r); break;
    case 3: h::where("program 2m"); wl_program<M>(o, r); break;
    case 4: h::where("containers"); wl_containers<UD>(o, r); break;
    case 5: h::where("containers 2e"); wl_containers<E>(o, r); break;
    case 6: h::where("format"); wl_format<UD>(o, r); break;
    case 7: h::where("format 2m"); wl_format<M>(o, r); break;
    default: h::where("misc"); wl_misc(o, r); break;
    }
}
void run_case(h::Ctx &c) {
    const uint64_t seed = c.rng.next();
#ifdef H_POISON
    static const char *first = std::getenv("H_POISON_FIRST");
    set_poison(first ? std::atoi(first) : 0);
#endif
    Out a(c);
    work(a, h::Rng(seed));
    c.eval(a.v.size());
    c.count("values observed", a.v.size());
    c.count("nan values", uint64_t(a.nan));
    c.sample(std::string(h::g_where) + ": " + std::to_string(a.v.size()) + " values, first " + (a.v.empty() ? "" : h::num(a.v[0])));
#ifdef H_POISON
    static const int pats[] = { 0xff, 0x7f, 0x40, 0x55, 0xbf };
    const int p = pats[c.idx % 5];
    set_poison(p);
    dirty();
    Out b(c);
    work(b, h::Rng(seed));
    c.check(a.digest() == b.digest(), "depends-on-memory", [&] {
        size_t i = 0; while (i < a.v.size() && i < b.v.size() && (h::bits(a.v[i]) == h::bits(b.v[i]) || (a.v[i] != a.v[i] && b.v[i] != b.v[i]))) ++i;
        return std::string(h::g_where) + ": value " + std::to_string(i) + " of " + std::to_string(a.v.size()) + ": " + (i < a.v.size() ? h::num(a.v[i]) : "") + " with poison " + (first ? first : "0") + ", " + (i < b.v.size() ? h::num(b.v[i]) : "") + " with poison " + std::to_string(p);
    });
    set_poison(0);
#endif
    // identifies the results of this case, compared between processes
    c.distinct(h::mix(uint64_t(c.idx) + 77, a.digest()));
}
void run_once(h::Ctx &) {}
