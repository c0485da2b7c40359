// C11: lock-step execution of every program in the two propagation modes.
#include "obs.hpp"
#include <uncertainties/impl.hpp>
using namespace prog;
#ifndef REAL
#define REAL double
#endif
using Real = REAL;
using E = unc::UReal2E<Real>;
using M = unc::UReal2M<Real>;
using Q = quad;
static const double REL = sizeof(Real) == 4 ? 1e-4 : 1e-9;
static const double EPS = std::numeric_limits<Real>::epsilon();

template<class U> static void law(h::Ctx &c, const U &x, int sign, const std::string &p) {
    const double mu = double(x.first_order_n()), b = double(x.m(1)), n = double(x.n()), w = double(unc::nom(x));
    const double t = 4 * EPS * (std::fabs(mu) + std::fabs(b));
    c.check(std::fabs(n - (mu + sign * b)) <= t, sign > 0 ? "mean-mode-n" : "est-mode-n",
        [&] { return "n() " + h::num(n) + " first_order_n " + h::num(mu) + " m(1) " + h::num(b) + " after " + p; });
    c.check(n == w, "nom-differs", [&] { return h::num(n) + " " + h::num(w) + " after " + p; });
    c.count(b == 0 ? "values without correction" : "values with correction");
}

void run_case(h::Ctx &c) {
    h::Rng &r = c.rng;
    Cfg cfg;
    cfg.second = true; cfg.maxvars = r.range(1, 4); cfg.regs = r.range(2, 4); cfg.len = r.range(2, 14); cfg.nmom = 4;
    if (r.chance(0.4)) cfg.arith = true;
    if (sizeof(Real) == 4) { cfg.float_in = true; cfg.slo = -2; cfg.vmax = 20; }
    if (c.idx % 256 == 7) { // many variables
        cfg.maxvars = r.range(8, 14); cfg.regs = r.range(6, 9); cfg.len = cfg.regs + r.range(8, 25);
        c.count("programs with many variables");
    }
    Gen<Q> g(r, cfg);
    g.generate();
    const Program &p = g.p;
    LibExec<E> LE(cfg);
    LibExec<M> LM(cfg);
    ShExec<Q> S(cfg);
    std::string done;
    auto compare = [&](size_t i) {
        // magnitude below which differences are rounding
        double mag = 0;
        for (auto &q : S.R[i].ga) mag += double(q) * double(q);
        for (auto &q : S.R[i].Ha) mag += double(q) * double(q);
        const obs::Obs a = obs::observe(LE.R[i], LE.R, LE.indep), b = obs::observe(LM.R[i], LM.R, LM.indep);
        const std::string d = obs::diff(a, b, REL, 1e-10 * EPS, "n");
        c.eval(a.v.size() + a.k.size());
        if (!d.empty()) c.viol("modes-differ:" + d.substr(0, d.find_first_of(" (")), "r" + std::to_string(i) + ": " + d + " (est -> mean) after " + done);
        law(c, LE.R[i], -1, done);
        law(c, LM.R[i], 1, done);
        // conversions
        const M m(LE.R[i]);
        const E e(LM.R[i]);
        const E ee(m);
        const M mm(e);
        const std::string d1 = obs::diff(b, obs::observe(m, LM.R, LM.indep), REL, 1e-10 * EPS);
        const std::string d2 = obs::diff(a, obs::observe(e, LE.R, LE.indep), REL, 1e-10 * EPS);
        const std::string d3 = obs::diff(a, obs::observe(ee, LE.R, LE.indep), REL, 1e-10 * EPS);
        const std::string d4 = obs::diff(b, obs::observe(mm, LM.R, LM.indep), REL, 1e-10 * EPS);
        c.eval(4 * a.v.size());
        const std::string dd[4] = { d1, d2, d3, d4 };
        static const char *nm[4] = { "est->mean", "mean->est", "est->mean->est", "mean->est->mean" };
        for (int k = 0; k < 4; ++k) if (!dd[k].empty())
            c.viol(std::string("conversion-") + nm[k], dd[k] + " r" + std::to_string(i) + " after " + done);
        (void)mag;
    };
    for (auto &i : p.ins) {
        done += i.str() + "; ";
        h::where(done.size() > 400 ? done.substr(done.size() - 400) : done);
        S.run(i);
        if (i.kind == NEWVAR) {
            // created in one mode, converted to the other: same identity
            if (r.chance(0.5)) { LE.run(i); LM.R[size_t(i.dst)] = M(LE.R[size_t(i.dst)]); LM.indep.push_back(LM.R[size_t(i.dst)]); }
            else { LM.run(i); LE.R[size_t(i.dst)] = E(LM.R[size_t(i.dst)]); LE.indep.push_back(LE.R[size_t(i.dst)]); }
        } else {
            LE.run(i);
            LM.run(i);
        }
        c.count(std::string("op ") + kind_name[i.kind]);
        compare(size_t(i.dst));
        // sometimes continue with a converted variable
        if (r.chance(0.15)) LM.R[size_t(i.dst)] = M(LE.R[size_t(i.dst)]);
        else if (r.chance(0.15)) LE.R[size_t(i.dst)] = E(LM.R[size_t(i.dst)]);
        else if (r.chance(0.05)) LE.R[size_t(i.dst)] = E(M(LE.R[size_t(i.dst)]));
    }
    for (size_t i = 0; i < LE.R.size(); ++i) compare(i);
    c.distinct(p.hash());
    c.sample(p.str());
}
void run_once(h::Ctx &c) {
    const E x(1, 2, {{0, 3, 0, 15, 0, 105}});
    const M y(x);
    const E x2 = x * x;
    const M y2 = y * y;
    c.check(std::fabs(double(x2.n()) - -3) < 1e-5 && std::fabs(double(y2.n()) - 5) < 1e-5, "square", [&] { return h::num(double(x2.n())) + " " + h::num(double(y2.n())); });
    c.check(E::prop_mode == unc::Prop::est && M::prop_mode == unc::Prop::mean, "prop_mode", [] { return std::string(); });
}
