// C19: misuse, exceptions of user functions and exhausted memory. Memory
// requests of the library (operator new, and malloc used by Eigen) are counted
// and can be made to fail at any index.
#include "obs.hpp"
#include <uncertainties/ureals.hpp>
#include <uncertainties/impl.hpp>
#include <new>
#include <memory>
#include <typeinfo>
#include <iomanip>
#if PART == 1
#define REAL double
#elif PART == 2
#define REAL float
#else
#define REAL long double
#endif
typedef REAL Real;
using namespace prog;
using UD = unc::UReal<Real>;
using E = unc::UReal2<Real, unc::Prop::est>;
using M = unc::UReal2<Real, unc::Prop::mean>;

// ---- memory ------------------------------------------------------------------
static bool armed = false, persistent = false, failed = false;
static long countdown = 0;
static long live = 0;
static uint64_t nalloc = 0;
static bool deny() {
    ++nalloc;
    if (!armed) return false;
    if (countdown > 0 && --countdown == 0) { failed = true; if (!persistent) armed = false; else countdown = -1; return true; }
    if (countdown < 0) return true;
    return false;
}
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void *__wrap_malloc(size_t n) { if (deny()) return nullptr; void *p = __real_malloc(n); if (p) ++live; return p; }
extern "C" void __wrap_free(void *p) { if (p) --live; __real_free(p); }
void *operator new(size_t n) { if (deny()) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { if (p) --live; __real_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

static const char *kind_of(const std::exception &e) {
    if (dynamic_cast<const std::invalid_argument *>(&e)) return "invalid_argument";
    if (dynamic_cast<const std::bad_alloc *>(&e)) return "bad_alloc";
    if (dynamic_cast<const std::runtime_error *>(&e)) return "runtime_error";
    return typeid(e).name();
}
struct Boom { int k; };

// ---- what an operation gave, without allocating ------------------------------
struct Val {
    double v[24]; int n = 0;
    void d(double x) { if (n < 24) v[n++] = x; }
    bool same(const Val &o) const { if (n != o.n) return false; for (int i = 0; i < n; ++i) if (!obs::close(v[i], o.v[i], 1e-12, 1e-300)) return false; return true; }
};
static void put(Val &o, const std::string &s) { o.d(double(s.size())); double k = 0; for (unsigned char c : s) k = k * 1.001 + c; o.d(k); }
template<class R> static void put(Val &o, const unc::UReal<R> &x) { o.d(double(x.n())); o.d(double(x.s())); o.d(x.isindep()); }
template<class R, unc::Prop P> static void put(Val &o, const unc::UReal2<R, P> &x) { o.d(double(x.n())); o.d(double(x.first_order_n())); o.d(double(var(x))); o.d(double(x.m(4))); o.d(x.isindep()); }

template<class U> struct World {
    std::vector<U> x;      // operands
    std::vector<U> ind;    // independent variables
    std::vector<U> none;
    std::vector<obs::Obs> want;
    void build(h::Rng &r) {
        for (int i = 0; i < 4; ++i) { ind.push_back(Ops<U>::make(Real(0.5 + 0.3 * i + r.uni() * 0.2), Real(0.1 + r.uni()), r.below(4))); x.push_back(ind.back()); }
        x.push_back(x[0] * x[1] + x[2]);
        x.push_back(x[4] * x[4] - x[3]);
        x.push_back(x[1] + x[1]);
        x.push_back(U(Real(2.5)));
        for (int i = 0; i < 3; ++i) { const U &a = x[size_t(r.below(int(x.size())))], &b = x[size_t(r.below(int(x.size())))]; x.push_back(r.chance(0.5) ? U(a * b) : U(a - b)); }
        if (r.chance(0.5)) for (auto &y : x) (void)y.s();
        for (auto &y : x) want.push_back(obs::observe(y, none, ind));
    }
    std::string changed(int except = -1) const {
        for (size_t i = 0; i < x.size(); ++i) if (int(i) != except) {
            const std::string d = obs::diff(want[i], obs::observe(x[i], none, ind), 1e-13, 1e-300);
            if (!d.empty()) return "variable " + std::to_string(i) + ": " + d;
        }
        return "";
    }
};

typedef std::function<void(Val &)> Op;
// documented: what an operation may throw when memory is not exhausted ("" = nothing)
struct Named { std::string name; Op f; const char *throws; int target; };

template<class U> struct Second { static void add(std::vector<Named> &, const World<U> &, h::Rng &) {} };
template<class U> static void common(std::vector<Named> &v, World<U> &w, h::Rng &r) {
    auto P = [&] { return &w.x[size_t(r.below(int(w.x.size())))]; };
    const U *a = P(), *b = P(), *c = P();
    for (int k = 0; k < 4; ++k) {
        const int f = r.below(sh::N_OP1);
        const double at = double(Ops<U>::n(*a));
        if (domain1<double>(f, at)) v.push_back({ sh::op1_name[f], [=](Val &o) { put(o, lib1<U>(f, *a)); }, "", -1 });
        a = P();
    }
    for (int k = 0; k < 5; ++k) {
        const int f = k < 3 ? r.below(4) : r.below(sh::N_OP2);
        if (domain2<double>(f, double(Ops<U>::n(*a)), double(Ops<U>::n(*b)), a == b, false)) v.push_back({ sh::op2_name[f], [=](Val &o) { put(o, lib2<U>(f, *a, *b)); }, "", -1 });
        a = P(); b = P();
    }
    v.push_back({ "copy", [=](Val &o) { U k(*a); put(o, k); }, "", -1 });
    v.push_back({ "expression", [=](Val &o) { const U k = (*a + *b) * *c - *a; put(o, k); }, "", -1 });
    v.push_back({ "assignment", [=](Val &o) { U k(*a); k = *b; put(o, k); k = *c + k; put(o, k); }, "", -1 });
    v.push_back({ "vector", [=](Val &o) { std::vector<U> k; k.push_back(*a); k.push_back(*b); k.push_back(*c); k.push_back(*a * *b); put(o, k.back()); }, "", -1 });
    v.push_back({ "new", [=](Val &o) { std::unique_ptr<U> k(new U(*a + *b)); put(o, *k); }, "", -1 });
    v.push_back({ "construction", [=](Val &o) { put(o, Ops<U>::make(Real(1), Real(2), 1)); }, "", -1 });
    const float dig = float(r.uni(1.1, 6));
    v.push_back({ "format", [=](Val &o) { put(o, unc::format(*a, dig)); }, "", -1 });
    v.push_back({ "format member", [=](Val &o) { put(o, a->format(dig, " plus or minus a long separator ")); }, "", -1 });
    v.push_back({ "cov_matrix", [=, &w](Val &o) { for (Real q : unc::cov_matrix<std::vector<Real>>(w.x)) o.d(double(q)); }, "", -1 });
    v.push_back({ "corr_matrix", [=](Val &o) { const U k[2] = { *a, *b }; Real m[4]; unc::corr_matrix(k, k + 2, m); for (Real q : m) o.d(double(q)); }, "", -1 });
    v.push_back({ "nom_vector", [=, &w](Val &o) { for (Real q : unc::nom_vector<std::vector<Real>>(w.x)) o.d(double(q)); }, "", -1 });
    // misuse
    const U *dep = &w.x[4], *cst = &w.x[7];
    v.push_back({ "negative s", [=](Val &) { Ops<U>::make(Real(1), Real(-2), 1); }, "invalid_argument", -1 });
    v.push_back({ "grad dependent", [=](Val &) { a->grad(*dep); }, "invalid_argument", -1 });
    v.push_back({ "grad constant", [=](Val &) { a->grad(*cst); }, "invalid_argument", -1 });
    v.push_back({ "format digits", [=](Val &) { unc::format(*a, 0.75f); }, "invalid_argument", -1 });
    // in-place: the target may change, nothing else
    for (int k = 0; k < 2; ++k) {
        const int t = r.below(int(w.x.size())), op = r.below(4);
        Ins i; i.op = op; i.temp = r.chance(0.5);
        U *tp = &w.x[size_t(t)];
        if (tp == b || (op == sh::DIV && std::fabs(double(Ops<U>::n(*b))) < 1e-3)) continue;
        v.push_back({ "in-place", [=](Val &) { Ops<U>::inplace(i, *tp, b); }, "", t });
    }
    { const int t = r.below(int(w.x.size())); U *tp = &w.x[size_t(t)]; if (tp != b) v.push_back({ "copy assignment", [=](Val &) { *tp = *b; }, "", t }); }
}
static void specific(std::vector<Named> &v, World<UD> &w, h::Rng &r) {
    auto P = [&] { return &w.x[size_t(r.below(int(w.x.size())))]; };
    const UD *a = P(), *b = P();
    typedef std::vector<Real> V;
    v.push_back({ "ureals", [=](Val &o) { for (auto &q : unc::ureals<std::vector<UD>>(V{ 1, 2, 3 }, V{ 4, 1, 0.5f, 1, 3, 0.25f, 0.5f, 0.25f, 2 })) put(o, q); }, "", -1 });
    v.push_back({ "ureals size", [=](Val &) { unc::ureals<std::vector<UD>>(V{ 1, 2, 3 }, V{ 4, 1, 0.5f, 1 }); }, "invalid_argument", -1 });
    v.push_back({ "ureals indefinite", [=](Val &) { unc::ureals<std::vector<UD>>(V{ 1, 2 }, V{ 1, 3, 3, 1 }); }, "runtime_error", -1 });
    v.push_back({ "corr2cov", [=](Val &o) { for (Real q : unc::corr2cov<V>(V{ 1, 2 }, V{ 1, 0.5f, 0.5f, 1 })) o.d(double(q)); }, "", -1 });
    v.push_back({ "corr2cov size", [=](Val &) { unc::corr2cov<V>(V{ 1, 2 }, V{ 1, 0.5f, 0.5f }); }, "invalid_argument", -1 });
    v.push_back({ "nary", [=, &w](Val &o) { Real d[16]; for (int i = 0; i < 16; ++i) d[i] = Real(i + 1); put(o, nary(w.x.begin(), w.x.end(), Real(1), d)); }, "", -1 });
    v.push_back({ "change_nom", [=](Val &o) { put(o, change_nom(*a, Real(3))); }, "", -1 });
    v.push_back({ "conversion", [=](Val &o) { unc::UReal<double> d = *a; unc::UReal<float> f = *b; unc::UReal<long double> l = *a; put(o, d); put(o, f); put(o, l); }, "", -1 });
    v.push_back({ "factories", [=](Val &o) {
        std::string big(200, 'x');
        unc::UUnary<Real> f = unc::uunary<Real>([big](const Real &x) { return Real(x * x + Real(big.size())); });
        unc::UBinary<Real> g = unc::ubinary<Real>([big](const Real &x, const Real &y) { return Real(x * y + Real(big.size())); }, [](const Real &, const Real &y) { return y; }, [](const Real &x, const Real &) { return x; });
        unc::UBinary<Real> k = g;
        put(o, f(*a)); put(o, k(*a, *b));
    }, "", -1 });
}
template<unc::Prop P_> static void specific(std::vector<Named> &v, World<unc::UReal2<Real, P_>> &w, h::Rng &r) {
    typedef unc::UReal2<Real, P_> U;
    auto P = [&] { return &w.x[size_t(r.below(int(w.x.size())))]; };
    const U *a = P(), *b = P();
    v.push_back({ "check moments", [=](Val &o) { put(o, U(Real(1), Real(2), {{0, 3, 0, 15, 0, 105}})); }, "", -1 });
    v.push_back({ "central moments", [=](Val &o) { put(o, U(Real(1), {{1, 0, 3, 0, 15, 0, 105}})); }, "", -1 });
    v.push_back({ "invalid moments", [=](Val &) { U(Real(1), Real(2), {{0, Real(0.5), 0, 15, 0, 105}}); }, "invalid_argument", -1 });
    v.push_back({ "invalid central moments", [=](Val &) { U(Real(1), {{-1, 0, 3, 0, 15, 0, 105}}); }, "invalid_argument", -1 });
    v.push_back({ "distributions", [=](Val &o) { put(o, unc::distr::normal<U>(1, 2)); put(o, unc::distr::chisquare<U>(3)); put(o, unc::distr::uniform<U>(1, 2)); }, "", -1 });
    v.push_back({ "distribution parameters", [=](Val &) { switch (a - b) { case 0: unc::distr::normal<U>(1, -2); break; case 1: unc::distr::uniform<U>(2, 1); break; default: unc::distr::chisquare<U>(-3); } }, "invalid_argument", -1 });
    const U *dep = &w.x[4], *cst = &w.x[7], *i0 = &w.x[1], *i1 = &w.x[6];
    v.push_back({ "hess dependent", [=](Val &) { a->hess(*i0, *dep); }, "invalid_argument", -1 });
    v.push_back({ "hess constant", [=](Val &) { a->hess(*cst, *i0); }, "invalid_argument", -1 });
    v.push_back({ "hess different dependency", [=](Val &) { a->hess(*i0, *i1); }, "invalid_argument", -1 });
    v.push_back({ "mode conversion", [=](Val &o) { put(o, M(*a)); put(o, E(*b)); put(o, unc::UReal2<float, P_>(*a)); }, "", -1 });
    v.push_back({ "factories", [=](Val &o) {
        std::string big(200, 'x');
        unc::UUnary2<Real, P_> f = unc::uunary2<Real, P_>([big](const Real &x) { return Real(x * x + Real(big.size())); }, [](const Real &x) { return Real(2 * x); }, [](const Real &) { return Real(2); });
        unc::UBinary2<Real, P_> g = unc::ubinary2<Real, P_>([big](const Real &x, const Real &y) { return Real(x * y); }, Real(0.125));
        unc::UBinary2<Real, P_> k = g;
        put(o, f(*a)); put(o, k(*a, *b));
    }, "", -1 });
}
template<class U> static void streams(std::vector<Named> &v, World<U> &w, h::Rng &r) {
    const U *a = &w.x[size_t(r.below(int(w.x.size())))];
    v.push_back({ "stream", [=](Val &o) { std::ostringstream s; s << *a; (void)o; }, "", -1 });
}

template<class U> static void injection(h::Ctx &c) {
    World<U> w;
    w.build(c.rng);
    std::vector<Named> ops;
    common<U>(ops, w, c.rng); specific(ops, w, c.rng); streams(ops, w, c.rng);
    for (auto &n : ops) {
        h::where(n.name);
        const obs::Obs tw = n.target >= 0 ? obs::observe(w.x[size_t(n.target)], w.none, w.ind) : obs::Obs();
        const std::unique_ptr<U> saved(n.target >= 0 ? new U(w.x[size_t(n.target)]) : nullptr);
        auto restore = [&] { if (n.target >= 0) w.x[size_t(n.target)] = *saved; };
        // reference execution
        Val ref;
        // the kind of exception is no std::string: it would be counted as a block
        const char *thrown = "";
        auto exec = [&](Val &o) -> const char * {
            try { n.f(o); return ""; }
            catch (const Boom &) { armed = false; return "Boom"; }
            catch (const std::exception &e) { armed = false; return kind_of(e); }
        };
        exec(ref); restore(); ref = Val(); // first use: static data
        const long l0 = live;
        const uint64_t a0 = nalloc;
        thrown = exec(ref);
        const uint64_t N = nalloc - a0;
        const long l1 = live;
        restore();
        c.check(thrown == n.throws, "exception-type:" + n.name, [&] { return std::string("threw '") + thrown + "' instead of '" + n.throws + "'"; });
        if (n.target < 0) c.check(l1 == l0, "leak:" + n.name, [&] { return std::to_string(l1 - l0) + " blocks"; });
        std::string d = w.changed();
        c.check(d.empty(), "side-effect:" + n.name, [&] { return d; });
        c.count("operations");
        // every allocation in turn (a sample, when there are many)
        std::vector<uint64_t> ks;
        for (uint64_t k = 1; k <= N; ++k) ks.push_back(k);
        if (ks.size() > 24 && !c.thorough) { c.rng.shuffle(ks); ks.resize(24); }
        for (uint64_t k : ks) for (int p = 0; p < 2; ++p) {
            Val o;
            if (n.target >= 0) restore();
            const long la = live;
            persistent = p; failed = false; countdown = long(k); armed = true;
            const char *const t0 = exec(o);
            const long lb = live;
            armed = false; persistent = false;
            c.count("allocation failures injected", failed);
            if (!failed) continue;
            const std::string t = t0;
            // a stream swallows the exception and sets badbit
            c.check(t == "bad_alloc" || t == n.throws, "bad_alloc-exception:" + n.name, [&] { return "allocation " + std::to_string(k) + " of " + std::to_string(N) + " failed, threw '" + t + "'"; });
            if (t == "" && n.throws[0] == 0 && n.target < 0) c.check(o.same(ref), "bad_alloc-wrong-result:" + n.name, [&] { return "allocation " + std::to_string(k) + " of " + std::to_string(N) + " failed, no exception and a wrong result"; });
            if (n.target < 0) c.check(la == lb, "bad_alloc-leak:" + n.name, [&] { return std::to_string(lb - la) + " blocks after allocation " + std::to_string(k) + " of " + std::to_string(N) + " failed"; });
            d = w.changed(n.target);
            c.check(d.empty(), "bad_alloc-side-effect:" + n.name, [&] { return d + " after allocation " + std::to_string(k) + " of " + std::to_string(N) + " failed"; });
            c.distinct(h::mix(h::hash_str(n.name), k * 2 + uint64_t(p)));
        }
        restore();
        // still usable
        Val again;
        const std::string t2 = exec(again); 
        c.check(t2 == n.throws && again.same(ref), "unusable-after-failure:" + n.name, [&] { return "'" + t2 + "'"; });
        restore();
    }
    const std::string d = w.changed();
    c.check(d.empty(), "side-effect", [&] { return d; });
    c.sample(std::to_string(ops.size()) + " operations, last " + ops.back().name);
}
// ---- user functions that throw ------------------------------------------------
static int boom_at = 0, calls = 0;
static void tick() { if (++calls == boom_at) throw Boom { calls }; }
template<class U> static void thrower(h::Ctx &c, const char *name, World<U> &w, const std::function<U(const U &, const U &)> &f) {
    h::where(std::string("throwing ") + name);
    const U &a = w.x[size_t(c.rng.below(int(w.x.size())))], &b = w.x[size_t(c.rng.below(int(w.x.size())))];
    Val ref;
    boom_at = 0; calls = 0;
    put(ref, f(a, b));
    const int N = calls;
    for (int k = 1; k <= N; ++k) {
        const long l0 = live;
        int got = 0;
        boom_at = k; calls = 0;
        try { f(a, b); } catch (const Boom &x) { got = x.k; } catch (...) { got = -1; }
        boom_at = 0;
        const long l1 = live;
        c.check(got == k, std::string("user-exception:") + name, [&] { return "call " + std::to_string(k) + " threw, caught " + std::to_string(got); });
        c.check(l0 == l1, std::string("user-exception-leak:") + name, [&] { return std::to_string(l1 - l0) + " blocks"; });
        const std::string d = w.changed();
        c.check(d.empty(), std::string("user-exception-side-effect:") + name, [&] { return d; });
        c.count("exceptions of user functions");
        c.distinct(h::mix(h::hash_str(name), uint64_t(k) + 1000));
    }
    Val again; calls = 0;
    put(again, f(a, b));
    c.check(again.same(ref), std::string("unusable-after-failure:") + name, [] { return std::string(); });
    (void)name;
}
static const Real st = Real(0.125);
static Real F(const Real &x) { tick(); return x * x; }
static Real dF(const Real &x) { tick(); return 2 * x; }
static Real ddF(const Real &) { tick(); return 2; }
static Real G(const Real &x, const Real &y) { tick(); return x * x * y; }
static Real Gx(const Real &x, const Real &y) { tick(); return 2 * x * y; }
static Real Gy(const Real &x, const Real &) { tick(); return x * x; }
static Real Gxx(const Real &, const Real &y) { tick(); return 2 * y; }
static Real Gyy(const Real &, const Real &) { tick(); return 0; }
static Real Gxy(const Real &x, const Real &) { tick(); return 2 * x; }
static void throwers(h::Ctx &c, World<UD> &w) {
    const auto f1 = unc::uunary<Real>(F, dF), f2 = unc::uunary<Real>(F, st);
    const auto g1 = unc::ubinary<Real>(G, Gx, Gy), g2 = unc::ubinary<Real>(G, st);
    thrower<UD>(c, "uunary", w, [&](const UD &x, const UD &) { return f1(x); });
    thrower<UD>(c, "uunary numeric", w, [&](const UD &x, const UD &) { return f2(x); });
    thrower<UD>(c, "ubinary", w, [&](const UD &x, const UD &y) { return g1(x, y); });
    thrower<UD>(c, "ubinary numeric", w, [&](const UD &x, const UD &y) { return g2(x, y); });
    thrower<UD>(c, "nested", w, [&](const UD &x, const UD &y) { return f1(g1(x, y) + f2(y)); });
}
template<unc::Prop P> static void throwers(h::Ctx &c, World<unc::UReal2<Real, P>> &w) {
    typedef unc::UReal2<Real, P> U;
    const auto f1 = unc::uunary2<Real, P>(F, dF, ddF), f2 = unc::uunary2<Real, P>(F, dF, st), f3 = unc::uunary2<Real, P>(F, st);
    const auto g1 = unc::ubinary2<Real, P>(G, Gx, Gy, Gxx, Gyy, Gxy), g2 = unc::ubinary2<Real, P>(G, Gx, Gy, st), g3 = unc::ubinary2<Real, P>(G, st);
    thrower<U>(c, "uunary2", w, [&](const U &x, const U &) { return f1(x); });
    thrower<U>(c, "uunary2 numeric 2nd", w, [&](const U &x, const U &) { return f2(x); });
    thrower<U>(c, "uunary2 numeric", w, [&](const U &x, const U &) { return f3(x); });
    thrower<U>(c, "ubinary2", w, [&](const U &x, const U &y) { return g1(x, y); });
    thrower<U>(c, "ubinary2 numeric 2nd", w, [&](const U &x, const U &y) { return g2(x, y); });
    thrower<U>(c, "ubinary2 numeric", w, [&](const U &x, const U &y) { return g3(x, y); });
}
template<class U> static void user_exceptions(h::Ctx &c) {
    World<U> w;
    w.build(c.rng);
    throwers(c, w);
}
// ---- documented misuse with arbitrary other arguments ---------------------------
template<class F_> static void must_throw(h::Ctx &c, const char *name, const std::string &args, F_ f, const char *what = "invalid_argument") {
    const char *gotp = "nothing";
    h::where(name);
    const long l0 = live;
    { try { f(); } catch (const std::exception &e) { gotp = kind_of(e); } catch (...) { gotp = "something else"; } }
    const long l1 = live;
    const std::string got = gotp;
    c.check(l0 == l1, std::string("misuse-leak:") + name, [&] { return std::to_string(l1 - l0) + " blocks: " + args; });
    c.check(got == what, std::string("misuse:") + name, [&] { return "threw " + got + ": " + args; });
    c.count(std::string("misuse ") + name);
}
static Real wild(h::Rng &r) { // any number at all
    switch (r.below(10)) {
    case 0: return 0;
    case 1: return std::numeric_limits<Real>::infinity();
    case 2: return -std::numeric_limits<Real>::infinity();
    case 3: return std::numeric_limits<Real>::quiet_NaN();
    case 4: return std::numeric_limits<Real>::denorm_min();
    case 5: return -std::numeric_limits<Real>::max();
    case 6: return std::numeric_limits<Real>::max();
    default: return Real(r.normal() * r.logu(-10, 10));
    }
}
static Real neg(h::Rng &r) {
    switch (r.below(6)) {
    case 0: return -std::numeric_limits<Real>::denorm_min();
    case 1: return -std::numeric_limits<Real>::infinity();
    case 2: return -std::numeric_limits<Real>::max();
    default: return -Real(r.logu(-30, 30));
    }
}
static std::string n(Real x) { return h::num(double(x)); }
template<class U> static U anyvar(const World<U> &w, h::Rng &r) { return w.x[size_t(r.below(int(w.x.size())))]; }
template<unc::Prop P> static void misuse2(h::Ctx &c, const World<unc::UReal2<Real, P>> &w) {
    typedef unc::UReal2<Real, P> U;
    h::Rng &r = c.rng;
    const Real m = wild(r), s = neg(r), th = r.chance(0.3) ? Real(-1) : r.chance(0.5) ? Real(0) : Real(r.uni());
    std::array<Real, 6> k; // also with valid moments
    if (r.chance(0.4)) k = {{0, 3, 0, 15, 0, 105}}; else for (auto &q : k) q = wild(r);
    must_throw(c, "s < 0", n(m) + " " + n(s) + " threshold " + n(th), [&] { U(m, s, k, th); });
    // impossible moments: kurtosis < 1 + skewness^2, by a wide margin
    const Real sk = Real(r.normal()), ku = Real((1 + double(sk) * double(sk)) * r.uni(-1, 0.7));
    const std::array<Real, 6> bad {{ sk, ku, Real(r.normal() * 10), Real(r.uni(0, 30)), Real(r.normal() * 50), Real(r.uni(0, 300)) }};
    const Real sp = Real(r.logu(-3, 3));
    must_throw(c, "standardized moments", "skew " + n(sk) + " kurt " + n(ku), [&] { U(m, sp, bad); });
    const std::array<Real, 7> cb {{ sp * sp, sk * sp * sp * sp, ku * sp * sp * sp * sp, bad[2], bad[3], bad[4], bad[5] }};
    if (sp > 0.3 && sp < 3) must_throw(c, "central moments", "skew " + n(sk) + " kurt " + n(ku) + " s " + n(sp), [&] { U(m, cb); });
    const Real nv = -Real(r.logu(-3, 3));
    must_throw(c, "negative variance", n(nv), [&] { U(m, {{ nv, 0, 3, 0, 15, 0, 105 }}); });
    const Real sg = neg(r);
    must_throw(c, "normal", n(m) + " " + n(sg), [&] { unc::distr::normal<U>(m, sg); });
    const int kk = r.chance(0.1) ? std::numeric_limits<int>::min() : -1 - r.below(1000);
    must_throw(c, "chisquare", std::to_string(kk), [&] { unc::distr::chisquare<U>(kk); });
    Real lo, hi;
    switch (r.below(4)) {
    case 0: hi = Real(r.normal() * r.logu(-5, 5)); lo = std::nextafter(hi, std::numeric_limits<Real>::infinity()); break;
    case 1: hi = Real(r.range(0, 2)) * std::numeric_limits<Real>::denorm_min(); lo = hi + std::numeric_limits<Real>::denorm_min() * Real(r.range(1, 3)); break;
    default: hi = Real(r.normal() * r.logu(-5, 5)); lo = hi + Real(r.logu(-3, 5)); if (!(lo > hi)) lo = std::nextafter(hi, std::numeric_limits<Real>::infinity());
    }
    must_throw(c, "uniform", n(lo) + " > " + n(hi), [&] { unc::distr::uniform<U>(lo, hi); });
    const U a = anyvar(w, r), x = anyvar(w, r), y = anyvar(w, r);
    auto ok = [](const U &v) { return v.isindep() && v.indepid() != 0; };
    if (!ok(x)) must_throw(c, "grad", "", [&] { a.grad(x); });
    if (!ok(x) || !ok(y)) must_throw(c, "hess", "", [&] { a.hess(x, y); });
    else if (x.indepid() == y.indepid() && double(var(x)) > 0) { // not x - x: its multiples are the same variable
        const U z = x * Real(1.5), q = x * x;
        must_throw(c, "hess different dependency", "first", [&] { a.hess(x, z); });
        must_throw(c, "hess different dependency", "first, reversed", [&] { a.hess(z, x); });
        // at zero x and x + x x have the same first derivative
        const U z0 = Ops<U>::make(Real(0), Real(r.logu(-2, 2)), r.below(4)), z1 = z0 + Real(r.uni(0.1, 2)) * (z0 * z0), z2 = z0 - z0 * z0;
        must_throw(c, "hess different second derivative", "1", [&] { a.hess(z0, z1); });
        must_throw(c, "hess different second derivative", "2", [&] { z1.hess(z1, z0); });
        must_throw(c, "hess different second derivative", "3", [&] { z1.hess(z1, z2); });
        const U z3 = z0 * z0, z4 = z3 + z0; // same second derivative
        must_throw(c, "hess different first derivative", "1", [&] { z0.hess(z4, z3); });
        must_throw(c, "hess different first derivative", "2", [&] { z0.hess(z3, z4); });
        const U e = x + Real(0.25) * (q - Real(2) * Ops<U>::n(x) * x); // same first derivative, different second one
        if (obs::close(double(x.grad(e)), 1, 0)) must_throw(c, "hess different dependency", "second", [&] { a.hess(x, e); });
    }
}
static void misuse(h::Ctx &c) {
    h::Rng &r = c.rng;
    World<UD> w; w.build(r);
    World<E> we; we.build(r);
    World<M> wm; wm.build(r);
    for (int k = 0; k < 20; ++k) {
        const Real m = wild(r), s = neg(r);
        must_throw(c, "UReal s < 0", n(m) + " " + n(s), [&] { UD(m, s); });
        const UD a = anyvar(w, r), x = anyvar(w, r);
        if (!(x.isindep() && x.indepid() != 0)) { must_throw(c, "UReal grad", "", [&] { a.grad(x); }); must_throw(c, "UReal grad", "of itself", [&] { x.grad(x); }); }
        float dig;
        switch (r.below(5)) { case 0: dig = 0; break; case 1: dig = -std::numeric_limits<float>::infinity(); break; case 2: dig = std::nextafter(1.f, 0.f); break; case 3: dig = float(-r.logu(-5, 5)); break; default: dig = float(r.uni(0, 0.999)); }
        UD t = a;
        switch (r.below(4)) { case 0: t = UD(wild(r)); break; case 1: t = UD(wild(r), Real(1)); break; case 2: t = UD(Real(1), Real(r.logu(-5, 5))); break; }
        must_throw(c, "format", h::num(dig), [&] { unc::format(t, dig); });
        must_throw(c, "format", h::num(dig) + " member", [&] { t.format(dig, "+-"); });
        must_throw(c, "format", h::num(dig) + " second order", [&] { unc::format(anyvar(we, r), dig); });
        must_throw(c, "format", h::num(dig) + " number", [&] { unc::format(double(m), dig); });
        const size_t nn = size_t(r.below(6)), n2 = r.chance(0.3) ? (nn + 1) * (nn + 1) : r.chance(0.3) ? nn : size_t(r.below(40));
        if (nn * nn != n2) {
            std::vector<Real> mu(nn), cv(n2); // arbitrary contents
            for (auto &q : mu) q = wild(r);
            for (auto &q : cv) q = wild(r);
            must_throw(c, "ureals", std::to_string(nn) + " " + std::to_string(n2), [&] { unc::ureals<std::vector<UD>>(mu, cv); });
            must_throw(c, "corr2cov", std::to_string(nn) + " " + std::to_string(n2), [&] { unc::corr2cov<std::vector<Real>>(mu, cv); });
        }
        misuse2(c, we); misuse2(c, wm);
    }
    const std::string d = w.changed() + we.changed() + wm.changed();
    c.check(d.empty(), "misuse-side-effect", [&] { return d; });
}
void run_case(h::Ctx &c) {
    switch (c.rng.below(10)) {
    case 0: case 1: injection<UD>(c); break;
    case 2: injection<E>(c); break;
    case 3: injection<M>(c); break;
    case 4: case 5: user_exceptions<UD>(c); break;
    case 6: user_exceptions<E>(c); break;
    case 7: user_exceptions<M>(c); break;
    default: misuse(c); break;
    }
}
void run_once(h::Ctx &) {}
