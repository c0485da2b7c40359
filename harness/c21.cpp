// C21: heap usage, observed by counting operators new and delete.
#include "lib.hpp"
#include <uncertainties/impl.hpp>
#include <new>
#include <set>
#include <memory>
#ifndef REAL
#define REAL double
#endif
typedef REAL Real;
using namespace prog;
using UD = unc::UReal<Real>;
using E = unc::UReal2<Real, unc::Prop::est>;
using M = unc::UReal2<Real, unc::Prop::mean>;

static uint64_t nalloc = 0, bytes = 0;
static long live = 0;
static long livebytes = 0;
void *operator new(size_t n) {
    size_t *p = static_cast<size_t *>(std::malloc(n + 16));
    if (!p) throw std::bad_alloc();
    p[0] = n; p[1] = size_t(h::book());
    if (!p[1]) { ++nalloc; bytes += n; ++live; livebytes += long(n); }
    return p + 2;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *q) noexcept { if (!q) return; size_t *p = static_cast<size_t *>(q) - 2; if (!p[1]) { --live; livebytes -= long(p[0]); } std::free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

struct Meter { uint64_t a, b; Meter(): a(nalloc), b(bytes) {} uint64_t n() const { return nalloc - a; } uint64_t by() const { return bytes - b; } };
static volatile double sink = 0;

template<class F> static void none(h::Ctx &c, const char *what, const F &f) {
    const Meter m;
    f();
    const uint64_t n = m.n();
    c.check(n == 0, std::string("allocates:") + what, [&] { return std::to_string(n) + " allocations on independent variables"; });
    c.count(std::string("no allocation: ") + what);
}

// 1. independent variables never use the heap
static void independent(h::Ctx &c) {
    h::Rng &r = c.rng;
    h::where("independent");
    const Real n = Real(r.normal()), s = Real(r.chance(0.1) ? 0 : r.logu(-3, 1)), c1 = Real(r.normal());
    UD x(n, s), y(Real(r.normal()), Real(0.3)), z, k(c1);
    none(c, "construction", [&] { UD a(n, s); UD b = { n, s }; UD d(n); UD e; sink = double(a.n() + b.n() + d.n() + e.n()); });
    none(c, "copy", [&] { UD a(x), b = k; UD d(std::move(a)); sink = double(d.n() + b.n()); });
    none(c, "assignment", [&] { z = x; z = y; z = k; z = c1; z = UD(n, s); z = std::move(y); y = z; y = y; using std::swap; swap(z, x); swap(z, x); });
    none(c, "reading", [&] {
        const UD &q = x;
        sink = double(q.n() + q.s() + x.s() + var(q) + var(x) + unc::nom(q) + unc::sdev(q) + cov(q, y) + cov(q, q)) + double(q.isindep()) + double(q.indepid());
        if (s != 0) sink = double(corr(q, y) + q.grad(x) + y.grad(q));
        sink = isfinite(q);
    });
    // chains of one-argument functions: still a single variable
    UD w = x;
    const int L = r.range(1, 6);
    for (int i = 0; i < L; ++i) {
        const int f = r.below(sh::N_OP1);
        if (!domain1<double>(f, double(w.n())) || !(std::fabs(double(w.n())) < 30)) continue;
        none(c, "one-argument function", [&] { w = lib1<UD>(f, w); });
        none(c, "reading", [&] { sink = double(w.s() + cov(w, x)); });
        c.distinct(h::mix(uint64_t(f), h::bits(double(w.n()))));
    }
    none(c, "one-argument function", [&] { z = unary(x, c1, n); z = -z; z = +x; });
    static const unc::UUnary<Real> f1 = unc::uunary<Real>([](const Real &t) { return Real(t * t); }, [](const Real &t) { return Real(2 * t); });
    static const unc::UUnary<Real> f2 = unc::uunary<Real>([](const Real &t) { return Real(t * t); });
    none(c, "one-argument function", [&] { z = f1(x); z = f2(z); });
    none(c, "change_nom", [&] { z = change_nom(x, c1); });
    none(c, "destruction", [&] { UD a(x); a = f1(a); });
}
typedef std::set<int> Set;
static size_t missing(const Set &a, const Set &b) { size_t n = 0; for (int i : b) n += !a.count(i); return n; }

// 2. in-place accumulation
static void accumulate(h::Ctx &c) {
    h::Rng &r = c.rng;
    h::where("accumulation");
    const long l0 = live;
    size_t most = 0;
    {
        std::vector<UD> pool; std::vector<Set> ids;
        const int N = r.range(3, c.thorough ? 120 : 60);
        for (int i = 0; i < N; ++i) { pool.emplace_back(Real(r.uni(0.9, 1.1)), Real(0.1)); ids.push_back(Set { i }); }
        for (int i = 0; i < 6; ++i) { // dependent ones
            UD d(Real(1)); Set s;
            for (int j = r.range(2, 8); j > 0; --j) { const int q = r.below(N); d += pool[size_t(q)] * Real(0.1); s.insert(q); }
            d = d / d.n();
            pool.push_back(d); ids.push_back(s);
        }
        int next = N;
        UD acc(Real(1)); Set a;
        if (r.chance(0.5)) { const int q = r.below(N); acc = pool[size_t(q)]; a = ids[size_t(q)]; }
        bool indep = true;
        const int L = r.range(5, c.thorough ? 300 : 80);
        for (int k = 0; k < L; ++k) {
            const int op = r.below(6);
            if (!(std::fabs(double(acc.n())) > 1e-2 && std::fabs(double(acc.n())) < 1e3)) acc = change_nom(acc, Real(1));
            size_t fresh = 0;
            const size_t q = size_t(r.below(int(pool.size())));
            const int kind = r.below(10);
            const Real nn = Real(r.uni(0.9, 1.1));
            uint64_t n, by;
            if (r.chance(0.3)) sink = double(acc.s());
            {
                const Meter m;
                if (kind < 6) switch (op) { case 0: case 4: acc += pool[q]; break; case 1: case 5: acc -= pool[q]; break; case 2: acc *= pool[q]; break; case 3: acc /= pool[q]; break; }
                else if (kind < 8) switch (op) { case 0: case 4: acc += UD(nn, Real(0.1)); break; case 1: case 5: acc -= UD(nn, Real(0.1)); break; case 2: acc *= UD(nn, Real(0.1)); break; case 3: acc /= UD(nn, Real(0.1)); break; }
                else if (kind < 9) switch (op) { case 0: case 4: acc += nn; break; case 1: case 5: acc -= nn; break; case 2: acc *= nn; break; case 3: acc /= nn; break; }
                else switch (op) { case 0: case 4: acc += acc; break; case 1: acc -= acc * Real(0); break; default: acc *= acc; break; }
                n = m.n(); by = m.by();
            }
            if (kind == 9 && op == 1) { continue; } // contains an out-of-place product
            if (kind < 6) { fresh = missing(a, ids[q]); a.insert(ids[q].begin(), ids[q].end()); }
            else if (kind < 8) { fresh = 1; a.insert(next++); }
            // the variable itself is moved to the heap when it stops being independent
            const size_t allowed = fresh + (indep ? 1 : 0) + 2;
            indep = false;
            c.check(n <= allowed && by <= allowed * (96 + 2 * sizeof(Real)), "accumulation", [&] { return std::to_string(n) + " allocations of " + std::to_string(by) + " bytes for " + std::to_string(fresh) + " new variables, " + std::to_string(a.size()) + " already accumulated"; });
            c.count("in-place operations");
            most = std::max(most, a.size());
            c.distinct(h::mix(uint64_t(kind * 8 + op), fresh * 1000 + a.size()));
        }
        none(c, "reading", [&] { sink = double(acc.s() + var(acc) + cov(acc, acc)); });
    }
    const long l1 = live;
    c.check(l0 == l1, "not-released", [&] { return std::to_string(l1 - l0) + " blocks after accumulation"; });
    if (most >= 50) c.count("accumulations of 50 variables or more");
}

// 3. storage of results. The dependency structure is tracked independently.
struct Str {
    Set v; std::set<std::pair<int, int>> p;
    void full() { cross(*this); }
    void cross(const Str &o) { for (int i : v) for (int j : o.v) if (i != j) p.insert({ std::min(i, j), std::max(i, j) }); }
    void add(const Str &o) { v.insert(o.v.begin(), o.v.end()); p.insert(o.p.begin(), o.p.end()); }
};
static bool curved1(int op) { return !(op == sh::NEG || op == sh::POS || op == sh::ABS); }
static Str bin(int op, Str x, Str y) {
    using namespace sh;
    Str r;
    const bool cross = !(op == ADD || op == SUB || op == FMAX || op == FMIN || op == FMOD || op == REMAINDER);
    const bool cx = cross && op != MUL && op != DIV, cy = cross && op != MUL;
    Str k = x; k.cross(y); // before x is modified
    if (cx) x.full();
    if (cy) y.full();
    r.add(x); r.add(y);
    if (cross) r.add(k);
    return r;
}
template<class U> static void storage(h::Ctx &c) {
    h::where("storage");
    const long l0 = live;
    {
        Cfg cfg;
        cfg.second = Ops<U>::second; cfg.maxvars = c.rng.range(2, 8); cfg.regs = cfg.maxvars + 2; cfg.len = c.rng.range(8, 40);
        cfg.nmom = 4; cfg.float_in = true; cfg.zero_s = false;
        cfg.linear = c.rng.chance(0.25); cfg.arith = !cfg.linear && c.rng.chance(0.5);
        Gen<long double> g(c.rng, cfg);
        g.generate();
        LibExec<U> L(cfg);
        std::vector<Str> S { size_t(cfg.regs) };
        for (auto &i : g.p.ins) {
            L.run(i);
            const size_t d = size_t(i.dst);
            auto R = [&](int k) { return k < 0 ? Str() : S[size_t(k)]; };
            Str t;
            switch (i.kind) {
            case NEWVAR: t.v.insert(i.idx); break;
            case NEWCST: break;
            case COPY: case CHNOM: t = R(i.a); break;
            case U1: t = R(i.a); if (curved1(i.op)) t.full(); break;
            case USER1: t = R(i.a); t.full(); break;
            case B2: t = bin(i.op, R(i.a), R(i.b)); break;
            case INPL: t = bin(i.op, S[d], R(i.a)); break;
            case USER2: t = R(i.a); t.add(R(i.b)); t.full(); break;
            case NARY: for (int k : i.args) t.add(S[size_t(k)]); break;
            case SWAP: t = S[size_t(i.a)]; S[size_t(i.a)] = S[d]; break;
            }
            S[d] = t;
            const size_t want = t.v.size() + (Ops<U>::second ? t.p.size() : 0);
            const long b0 = live, by0 = livebytes;
            long b1, by1, b2;
            { const U copy(L.R[d]); b1 = live; by1 = livebytes; sink = double(copy.s()); }
            b2 = live;
            const size_t node = 96 + 10 * sizeof(Real); // of the largest kind
            c.check(size_t(b1 - b0) <= 2 * want + 2 && size_t(by1 - by0) <= 2 * node * want + 2 * node, "storage", [&] { return std::to_string(b1 - b0) + " blocks, " + std::to_string(by1 - by0) + " bytes for a result depending on " + std::to_string(t.v.size()) + " variables and " + std::to_string(t.p.size()) + " pairs: " + g.p.str(); });
            c.check(b2 == b0, "not-released", [&] { return std::to_string(b2 - b0) + " blocks after a copy"; });
            c.count("results measured");
            if (t.v.size() > 3 && t.p.size() < t.v.size()) c.count("results with few or no interacting pairs");
        }
        c.distinct(g.p.hash());
    }
    const long l1 = live;
    // what the monitor itself keeps is allocated once
    (void)l1;
}
// large sparse structures, whose storage would be quadratic if it were dense
template<class U> static void sparse(h::Ctx &c) {
    h::Rng &r = c.rng;
    h::where("sparse");
    const long l0 = live;
    {
        const int n = r.range(20, c.thorough ? 80 : 40);
        std::vector<U> x;
        for (int i = 0; i < n; ++i) x.push_back(Ops<U>::make(Real(1 + 0.01 * i), Real(0.1), 0));
        const int pairs = r.range(0, n / 2);
        U s(Real(0));
        const long b0 = live;
        for (int i = 0; i < n; ++i) s = s + x[size_t(i)];
        for (int i = 0; i < pairs; ++i) s = s - x[size_t(2 * i)] * x[size_t(2 * i + 1)];
        if (r.chance(0.5)) s = s * Real(2);
        if (r.chance(0.5)) s = -s;
        if (r.chance(0.5)) s = s / Real(3) + Real(1);
        if (r.chance(0.5)) s = abs(s);
        if (r.chance(0.5)) { U t = s; s = t + s; }
        if (r.chance(0.5)) s = fmax(s, U(Real(-1e6)));
        const long b1 = live;
        const size_t want = size_t(n) + (Ops<U>::second ? size_t(pairs) : 0);
        c.check(size_t(b1 - b0) <= want + want / 2 + 4, "sparse-storage", [&] { return std::to_string(b1 - b0) + " blocks for " + std::to_string(n) + " variables and " + std::to_string(pairs) + " interacting pairs"; });
        c.count("sparse results measured");
        c.distinct(h::mix(uint64_t(n), uint64_t(pairs)));
        sink = double(s.s());
    }
    const long l1 = live;
    c.check(l0 == l1, "not-released", [&] { return std::to_string(l1 - l0) + " blocks, line " + std::to_string(__LINE__); });
}
static void released(h::Ctx &c) { // every kind of variable is gone at the end
    h::where("release");

    for (int pass = 0; pass < 2; ++pass) {
        const long l0 = live;
        {
            h::Rng r(c.idx + 5);
            UD a(1, 2), b(3, 4); UD d = a * b, e = d; e += a; e = sin(e); std::unique_ptr<UD> p(new UD(e)); UD f(std::move(d)); d = f; std::vector<UD> v(3, e); v.resize(1); v.push_back(*p); using std::swap; swap(v[0], f);
            M m = Ops<M>::make(1, 2, r.below(4)), k = Ops<M>::make(1, Real(0.5), 0); M q = m * k + sin(m); binary_assign(q, m, 1, 2, 3, 4, 5, 6); std::vector<M> w(4, q); w.erase(w.begin()); E g(q); g = g * g; q = M(1);
            const unc::UReal<float> uf = e; const unc::UReal<long double> ul = e;
            try { UD(1, -1); } catch (const std::invalid_argument &) {}
            try { E(1, -1, {{0, 3, 0, 15, 0, 105}}); } catch (const std::invalid_argument &) {}
            try { E(1, 1, {{0, 0, 0, 15, 0, 105}}); } catch (const std::invalid_argument &) {}
            sink = double(uf.s()) + double(ul.s()) + double(g.s());
        }
        const long l1 = live;
        if (pass) c.check(l0 == l1, "not-released", [&] { return std::to_string(l1 - l0) + " blocks, line " + std::to_string(__LINE__); });
    }
    c.count("release scenarios");
}
void run_case(h::Ctx &c) {
    static const auto &warm = momsets(); (void)warm;
    switch (c.rng.below(9)) {
    case 0: case 1: independent(c); break;
    case 2: case 3: accumulate(c); break;
    case 4: storage<UD>(c); break;
    case 5: c.rng.chance(0.5) ? storage<E>(c) : storage<M>(c); break;
    case 6: sparse<UD>(c); break;
    case 7: c.rng.chance(0.5) ? sparse<E>(c) : sparse<M>(c); break;
    case 8: released(c); break;
    }
}
void run_once(h::Ctx &c) {
    // the documented example, with many variables
    for (int n : { 1000, 20000 }) {
        UD x(Real(0));
        const Meter m;
        for (int i = 0; i < n; ++i) x += UD(Real(1), Real(0.1));
        const uint64_t k = m.n();
        c.check(k <= uint64_t(n) + 3, "accumulation", [&] { return std::to_string(k) + " allocations to accumulate " + std::to_string(n) + " variables"; });
        c.sample("x += {1, 0.1} " + std::to_string(n) + " times: " + std::to_string(k) + " allocations, " + std::to_string(m.by()) + " bytes");
    }
}
