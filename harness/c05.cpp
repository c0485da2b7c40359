// C05: identities. Several translation units, variables with static storage.
#include "lib.hpp"
#include <uncertainties/ureals.hpp>
#include "c05.hpp"
using namespace prog;
using Q = quad;

std::vector<std::pair<std::string, unc::Id>> &early_ids() {
    static std::vector<std::pair<std::string, unc::Id>> v;
    return v;
}

namespace {
struct Early {
    unc::udouble a { 1, 1 };
    unc::UReal<long double> b { 2, 1 };
    unc::udouble2e c { 1, 1, {{ 0, 3, 0, 15, 0, 105 }} };
    unc::udouble2m d { 1, {{ 1, 0, 3, 0, 15, 0, 105 }} };
    Early() {
        early_ids().emplace_back("main/udouble", a.indepid());
        early_ids().emplace_back("main/long double", b.indepid());
        early_ids().emplace_back("main/udouble2e", c.indepid());
        early_ids().emplace_back("main/udouble2m", d.indepid());
    }
} early;
unc::udouble static1 { 1, 2 }, static2 = unc::udouble(3, 4), static3 = static1 + static2;
}

std::unordered_set<long long> seen;
void fresh(h::Ctx &c, const char *how, unc::Id id, bool indep) {
    c.eval(3);
    c.count(std::string("created ") + how);
    c.check(indep, std::string("new-not-independent:") + how, [&] { return std::string(how); });
    c.check(id != 0 && id != unc::invalid_id, std::string("new-without-identity:") + how, [&] { return std::to_string(id); });
    c.check(seen.insert(id).second, std::string("identity-not-unique:") + how, [&] { return std::to_string(id); });
}

unc::Id create(h::Ctx &c);      // c05d.cpp
void conversions(h::Ctx &c);   // c05c.cpp

// dependency sets
template<class U> void depsets(h::Ctx &c, const Program &p) {
    ShExec<Q> S(p.cfg);
    LibExec<U> L(p.cfg);
    struct D { std::set<int> s; };
    std::vector<std::set<int>> dep(size_t(p.cfg.regs));
    auto hist = [&](size_t k) { std::string s; for (size_t q = 0; q <= k; ++q) s += p.ins[q].str() + "; "; return s; };
    for (size_t k = 0; k < p.ins.size(); ++k) {
        const Ins &i = p.ins[k];
        h::where(i.str());
        S.run(i); L.run(i);
        std::set<int> d;
        auto add = [&](int r) { if (r >= 0) d.insert(dep[size_t(r)].begin(), dep[size_t(r)].end()); };
        switch (i.kind) {
        case NEWVAR: d.insert(i.idx); fresh(c, Ops<U>::second ? "program, second order" : "program, first order", L.indep.back().indepid(), L.indep.back().isindep()); break;
        case NEWCST: break;
        case COPY: case U1: case USER1: case CHNOM: add(i.a); break;
        case B2: case USER2: add(i.a); add(i.b); break;
        case INPL: add(i.dst); add(i.a); break;
        case NARY: for (int a : i.args) add(a); break;
        case SWAP: std::swap(dep[size_t(i.dst)], dep[size_t(i.a)]); continue;
        }
        dep[size_t(i.dst)] = d;
        for (int r = 0; r < p.cfg.regs; ++r) {
            const auto &ds = dep[size_t(r)];
            const U &x = L.R[size_t(r)];
            int nz = 0;
            for (int v : ds) {
                const double g = double(S.R[size_t(r)].g[size_t(v)]);
                const double cv = double(cov(x, L.indep[size_t(v)]));
                if (std::fabs(g) > 1e-9 && std::fabs(cv) > 1e-12) ++nz;
            }
            c.eval(2);
            auto bad = [&](const char *key) { c.viol(std::string(key) + ":" + kind_name[i.kind], "r" + std::to_string(r) + " indepid " + std::to_string(x.indepid()) + " isindep " + std::to_string(x.isindep()) + " depends on " + std::to_string(ds.size()) + " in " + hist(k)); };
            if (ds.empty()) { c.count("depends on 0"); if (!(x.isindep() && x.indepid() == 0 && x.s() == 0)) bad("constant-with-identity"); }
            else if (ds.size() == 1 && nz == 1) { c.count("depends on 1"); if (!(x.isindep() && x.indepid() == L.indep[size_t(*ds.begin())].indepid())) bad("single-variable-identity"); }
            else if (nz >= 2) { c.count("depends on 2+"); if (!(!x.isindep() && x.indepid() == unc::invalid_id)) bad("dependent-reported-independent"); }
            for (int v = 0; v < int(L.indep.size()); ++v) if (!ds.count(v)) {
                const double cv = double(cov(x, L.indep[size_t(v)]));
                double m = 0;
                if (Ops<U>::second) { for (auto &g : S.R[size_t(r)].ga) m += double(g); for (auto &g : S.R[size_t(r)].Ha) m += 8 * double(g); }
                c.eval();
                if (!(std::fabs(cv) <= 1e-12 * m * p.sig[size_t(v)])) bad("spurious-covariance");
            }
        }
    }
}

void run_case(h::Ctx &c) {
    h::Rng &r = c.rng;
    Cfg cfg;
    cfg.maxvars = r.range(1, 6); cfg.regs = r.range(2, 5); cfg.len = r.range(3, 25);
    cfg.zero_s = false;
    cfg.second = r.chance(0.4);
    cfg.nmom = cfg.second ? 4 : 1;
    if (r.chance(0.5)) cfg.arith = true;
    Gen<Q> g(r, cfg);
    g.generate();
    c.distinct(g.p.hash());
    c.sample(g.p.str());
    if (!cfg.second) depsets<unc::udouble>(c, g.p);
    else if (r.chance(0.5)) depsets<unc::udouble2e>(c, g.p);
    else depsets<unc::udouble2m>(c, g.p);
    for (int k = r.below(8); k > 0; --k) create(c);
    if (r.chance(0.3)) conversions(c);
}

void run_once(h::Ctx &c) {
    // static initialization, before main, in three source files
    std::vector<std::pair<std::string, unc::Id>> all = early_ids();
    all.emplace_back("static1", static1.indepid());
    all.emplace_back("static2", static2.indepid());
    other_tu_statics(all);
    c.check(all.size() >= 10, "static-missing", [&] { return std::to_string(all.size()); });
    for (auto &a : all) fresh(c, ("static " + a.first).c_str(), a.second, true);
    c.check(std::fabs(static3.s() - std::sqrt(20.0)) < 1e-14 && static3.indepid() == unc::invalid_id, "static-computation", [] { return std::string(); });
    c.check(cov(static1, static2) == 0, "static-correlated", [] { return std::string(); });
    // the ids of the static variables are not given again
    for (int k = 0; k < 200; ++k) create(c);
    for (int k = 0; k < 300; ++k) conversions(c);
    std::vector<unc::udouble> keep;
    for (int k = 0; k < 20000; ++k) {
        create(c);
        if (k % 100 == 0) { // uncorrelated with everything that exists
            unc::udouble x(1, 1);
            for (auto &y : keep) c.check(cov(x, y) == 0 && corr(y, x) == 0, "new-correlated", [] { return std::string(); });
            keep.push_back(x);
            fresh(c, "kept", x.indepid(), x.isindep());
        }
    }
    // statics are unaffected by everything done since
    c.check(static1.s() == 2 && early.a.s() == 1 && cov(early.a, static1) == 0 && cov(keep[0], static1) == 0, "static-changed", [] { return std::string(); });
}
