// C18: value semantics. Every live variable is observed around every operation.
#include "obs.hpp"
#include <uncertainties/impl.hpp>
#include <memory>
#include <deque>
#include <list>
#include <map>
#include <algorithm>
#include <functional>
using namespace prog;
using obs::Obs;

template<class U> static double mean_(const U &x) { return double(Ops<U>::n(x)); }
template<class U> static U by_value(U x) { return x; }
template<class U> static U ret_moved(U &&x) { return std::move(x); }
template<class U> struct Holder { U a; std::vector<U> v; Holder(): a(), v() {} };

// change_nom exists for the first order only
template<class Real> static bool chnom(const unc::UReal<Real> &x, double n, unc::UReal<Real> &out) { out = change_nom(x, Real(n)); return true; }
template<class Real, unc::Prop P> static bool chnom(const unc::UReal2<Real, P> &, double, unc::UReal2<Real, P> &) { return false; }
template<class Real> static void inplace_(unc::UReal<Real> &d, int op, const unc::UReal<Real> &x, bool temp) {
    Ins i; i.op = op; i.temp = temp;
    Ops<unc::UReal<Real>>::inplace(i, d, &x);
}
template<class Real, unc::Prop P> static void inplace_(unc::UReal2<Real, P> &d, int op, const unc::UReal2<Real, P> &x, bool temp) {
    Ins i; i.op = op; i.temp = temp;
    Ops<unc::UReal2<Real, P>>::inplace(i, d, &x);
}

template<class U> struct World {
    h::Ctx &c;
    h::Rng &r;
    std::vector<std::unique_ptr<U>> x;      // live variables
    std::vector<Obs> want;                  // what each has to look like
    std::vector<U> ind;                     // independent variables, never touched
    std::vector<U> none;
    std::vector<Obs> wantind;
    std::string hist;
    World(h::Ctx &ctx): c(ctx), r(ctx.rng) {}

    Obs look(const U &u) { return obs::observe(u, none, ind); }
    void fresh(double n, double s) {
        ind.push_back(Ops<U>::make(n, s, r.below(4)));
    }
    size_t pick() { return size_t(r.below(int(x.size()))); }
    void push(U *p, const Obs &o) { x.emplace_back(p); want.push_back(o); }
    void verify(const char *op, int changed) {
        for (size_t i = 0; i < x.size(); ++i) {
            const std::string d = obs::diff(want[i], look(*x[i]), 1e-13, 1e-300);
            c.eval(want[i].v.size());
            if (!d.empty()) c.viol(std::string(int(i) == changed ? "content:" : "side-effect:") + op, "variable " + std::to_string(i) + ": " + d + " after " + hist);
        }
        for (size_t i = 0; i < ind.size(); ++i) {
            const std::string d = obs::diff(wantind[i], look(ind[i]), 1e-13, 1e-300);
            if (!d.empty()) c.viol(std::string("side-effect:") + op, "independent variable " + std::to_string(i) + ": " + d + " after " + hist);
        }
    }
    void same(const char *op, const U &copy, const U &src) {
        const double v = double(var(src)), k = double(cov(copy, src));
        c.check(obs::close(k, double(cov(src, src)), 1e-12, 1e-300), std::string("correlation:") + op, [&] { return "cov with the source " + h::num(k) + " var " + h::num(v) + " after " + hist; });
    }
    bool ok1(int op, double a) { return domain1<double>(op, a) && std::fabs(a) < 20; }

    void step() {
        const int roll = r.below(30);
        const size_t i = pick(), j = pick();
        const char *op = "";
        int ch = -1;
        char buf[96];
        auto note = [&](const char *o) { op = o; std::snprintf(buf, sizeof buf, "%s %zu %zu; ", o, i, j); hist += buf; h::where(hist.size() > 400 ? hist.substr(hist.size() - 400) : hist); };
        switch (roll) {
        case 0: case 1: if (x.size() >= 7) return;
            note("copy-construct"); push(new U(*x[i]), want[i]); same(op, *x.back(), *x[i]); ch = int(x.size()) - 1; break;
        case 2: case 3: note("copy-assign"); *x[j] = *x[i]; want[j] = want[i]; same(op, *x[j], *x[i]); ch = int(j); break;
        case 4: { note("self-assign"); U &a = *x[i]; const U &b = *x[i]; a = b; ch = int(i); break; }
        case 5: { note("move-construct"); U *p = new U(std::move(*x[i])); x[i].reset(p); ch = int(i); break; }
        case 6: { if (i == j) return; note("move-assign"); *x[j] = std::move(*x[i]); want[j] = want[i];
                  *x[i] = *x[j]; ch = int(j); break; } // a moved-from variable can be assigned
        case 7: { if (i == j) return; note("swap"); using std::swap; swap(*x[i], *x[j]); std::swap(want[i], want[j]); ch = int(i); break; }
        case 8: { note("self-swap"); using std::swap; swap(*x[i], *x[i]); ch = int(i); break; }
        case 9: if (x.size() < 3) return;
            note("destroy"); x.erase(x.begin() + long(i)); want.erase(want.begin() + long(i)); break;
        case 10: { const double n = r.normal() * 2; note("change_nom");
            U t; if (!chnom(*x[i], n, t)) return;
            Obs o = want[i]; for (auto &q : o.v) if (q.first == "n" || q.first == "nom") q.second = n;
            *x[j] = t; want[j] = o; ch = int(j);
            if (i != j) same(op, *x[j], *x[i]);
            break; }
        case 11: { note("by-value"); *x[j] = by_value(*x[i]); want[j] = want[i]; ch = int(j); break; }
        case 12: { note("through-temporary"); *x[j] = ret_moved(by_value(*x[i])); want[j] = want[i]; ch = int(j); break; }
        case 13: { note("capture"); const U &src = *x[i]; std::function<U()> f = [src] { return src; };
            std::function<U()> g = f; f = nullptr; *x[j] = g(); want[j] = want[i]; ch = int(j); break; }
        case 14: { note("vector"); std::vector<U> v; for (auto &p : x) v.push_back(*p);
            std::vector<size_t> idx(x.size()); for (size_t k = 0; k < idx.size(); ++k) idx[k] = k;
            std::rotate(v.begin(), v.begin() + long(i), v.end()); std::rotate(idx.begin(), idx.begin() + long(i), idx.end());
            std::reverse(v.begin(), v.end()); std::reverse(idx.begin(), idx.end());
            v.insert(v.begin() + long(j), v[0]); idx.insert(idx.begin() + long(j), idx[0]);
            v.insert(v.begin(), *x[i]); idx.insert(idx.begin(), i);
            v.erase(v.begin() + 1); idx.erase(idx.begin() + 1);
            for (size_t k = 0; k < v.size(); ++k) {
                const std::string d = obs::diff(want[idx[k]], look(v[k]), 1e-13, 1e-300);
                c.check(d.empty(), "content:vector", [&] { return d + " after " + hist; });
            }
            break; }
        case 15: { note("sort"); std::deque<std::pair<double, size_t>> key; std::vector<U> v;
            for (size_t k = 0; k < x.size(); ++k) { v.push_back(*x[k]); key.emplace_back(mean_(*x[k]), k); }
            std::stable_sort(v.begin(), v.end(), [](const U &a, const U &b) { return mean_(a) < mean_(b); });
            std::stable_sort(key.begin(), key.end(), [](const std::pair<double, size_t> &a, const std::pair<double, size_t> &b) { return a.first < b.first; });
            for (size_t k = 0; k < v.size(); ++k) {
                const std::string d = obs::diff(want[key[k].second], look(v[k]), 1e-13, 1e-300);
                c.check(d.empty(), "content:sort", [&] { return d + " after " + hist; });
            }
            break; }
        case 16: { note("map"); std::map<int, U> m; for (size_t k = 0; k < x.size(); ++k) m[int(k) * 7 % 5] = *x[k];
            std::map<int, U> m2 = m; m.clear();
            for (size_t k = 0; k < x.size(); ++k) {
                size_t last = k; for (size_t q = 0; q < x.size(); ++q) if (int(q) * 7 % 5 == int(k) * 7 % 5) last = q;
                const std::string d = obs::diff(want[last], look(m2[int(k) * 7 % 5]), 1e-13, 1e-300);
                c.check(d.empty(), "content:map", [&] { return d + " after " + hist; });
            }
            break; }
        case 17: { note("struct"); Holder<U> a; a.a = *x[i]; a.v.assign(3, *x[j]); Holder<U> b = a; a = Holder<U>(); Holder<U> d = std::move(b);
            const std::string d1 = obs::diff(want[i], look(d.a), 1e-13, 1e-300), d2 = obs::diff(want[j], look(d.v[2]), 1e-13, 1e-300);
            c.check(d1.empty() && d2.empty(), "content:struct", [&] { return d1 + d2 + " after " + hist; });
            break; }
        case 18: { note("remove_if"); std::list<U> l; for (auto &p : x) l.push_back(*p); const double n = mean_(*x[i]);
            l.remove_if([&](const U &u) { return mean_(u) != n; });
            for (auto &u : l) { const std::string d = obs::diff(want[i], look(u), 1e-13, 1e-300); if (mean_(u) == n && l.size() == 1) c.check(d.empty(), "content:list", [&] { return d + " after " + hist; }); }
            break; }
        case 19: { // reads of every kind, also non-const
            note("read"); U &u = *x[i]; (void)u.s(); (void)var(u); (void)unc::sdev(u); (void)unc::format(u); (void)u.format(3.0f); (void)cov(u, *x[j]); (void)corr(u, *x[j]);
            if (u.isindep() && u.indepid() != 0 && double(u.s()) != 0) (void)x[j]->grad(u);
            std::ostringstream o; o << u; (void)isfinite(u); (void)isnormal(u);
            break; }
        case 20: case 21: { const int f = r.below(sh::N_OP1); if (!ok1(f, mean_(*x[i]))) return;
            note(sh::op1_name[f]); U t = lib1<U>(f, *x[i]);
            if (std::fabs(mean_(t)) > 50) return;
            *x[j] = t; want[j] = look(*x[j]); ch = int(j); break; }
        case 22: case 23: case 24: case 25: { const int f = r.chance(0.6) ? r.below(4) : r.range(4, sh::N_OP2 - 1);
            if (std::fabs(mean_(*x[i])) > 20 || std::fabs(mean_(*x[j])) > 20 || !domain2<double>(f, mean_(*x[i]), mean_(*x[j]), i == j, false)) return;
            note(sh::op2_name[f]); U t = lib2<U>(f, *x[i], *x[j]);
            if (std::fabs(mean_(t)) > 50) return;
            if (r.chance(0.5) && x.size() < 7) { push(new U(t), look(t)); ch = int(x.size()) - 1; }
            else { const size_t d = pick(); *x[d] = t; want[d] = look(t); ch = int(d); }
            break; }
        case 26: case 27: case 28: { const int f = r.below(4);
            if (std::fabs(mean_(*x[i])) > 7 || std::fabs(mean_(*x[j])) > 7 || !domain2<double>(f, mean_(*x[j]), mean_(*x[i]), i == j, false)) return;
            note("in-place"); const U before = *x[j]; const Obs ob = want[j];
            inplace_(*x[j], f, *x[i], r.chance(0.4)); want[j] = look(*x[j]); ch = int(j);
            const std::string d = obs::diff(ob, look(before), 1e-13, 1e-300);
            c.check(d.empty(), "side-effect:in-place", [&] { return "copy taken before: " + d + " after " + hist; });
            break; }
        case 29: { // source destroyed right after the copy, and memory reused
            note("copy-of-destroyed"); U *p = new U(*x[i]); U q = *p; delete p; std::unique_ptr<U> other(new U(*x[j])); 
            const std::string d = obs::diff(want[i], look(q), 1e-13, 1e-300);
            c.check(d.empty(), "content:copy-of-destroyed", [&] { return d + " after " + hist; });
            *x[j] = q; want[j] = want[i]; ch = int(j);
            break; }
        }
        c.count(std::string("op ") + op);
        verify(op, ch);
    }
};

template<class U> static void history(h::Ctx &c) {
    World<U> w(c);
    h::Rng &r = c.rng;
    const bool big = c.idx % 256 == 7;  // many variables
    const int n = big ? (Ops<U>::second ? r.range(8, 14) : r.range(16, 40)) : r.range(1, 4);
    if (big) c.count("histories with many variables");
    for (int i = 0; i < n; ++i) w.fresh(r.chance(0.5) ? r.range(-2, 3) : r.normal() * 2, r.chance(0.3) ? 1.0 : r.logu(-2, 0));
    w.ind.reserve(8);
    for (auto &u : w.ind) w.wantind.push_back(w.look(u));
    for (int i = 0; i < n; ++i) w.push(new U(w.ind[size_t(i)]), w.wantind[size_t(i)]);
    { U k(r.normal()); w.push(new U(k), w.look(k)); }
    if (big) { U k(0.0); for (auto &u : w.ind) k = k + u; w.push(new U(k), w.look(k)); }
    { U k = w.ind[0] * w.ind[size_t(n - 1)]; w.push(new U(k), w.look(k)); }
    const int steps = r.range(5, 30);
    for (int s = 0; s < steps; ++s) w.step();
    c.distinct(h::hash_str(w.hist) ^ h::bits(mean_(w.ind[0])));
    c.sample(w.hist);
}

#ifndef PART
#define PART 0
#endif
void run_case(h::Ctx &c) {
#if PART == 1
    history<unc::udouble>(c);
#else
    if (c.rng.chance(0.5)) history<unc::udouble2e>(c); else history<unc::udouble2m>(c);
#endif
}
void run_once(h::Ctx &c) {
    // initializer lists, assignment from temporaries depending on the target
    std::vector<unc::udouble> v { { 1, 0.5 }, { 2, 0.25 }, 3 };
    const unc::udouble a = v[0], b = v[1];
    v[0] = v[0] + v[1];
    v[1] = v[0] - v[1];
    c.check(std::fabs(cov(v[1], a) - 0.25) < 1e-15 && std::fabs(cov(v[1], b)) < 1e-15 && v[1].n() == 1, "assign-from-own-temporary", [] { return std::string(); });
    c.check(a.n() == 1 && b.n() == 2 && a.s() == 0.5 && b.s() == 0.25, "content:copies", [] { return std::string(); });
}
