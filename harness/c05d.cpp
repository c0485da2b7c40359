// C05: creation by every constructor
#define H_NO_MAIN
#include "lib.hpp"
#include <uncertainties/ureals.hpp>
#include "c05.hpp"
void fresh(h::Ctx &c, const char *how, unc::Id id, bool indep);
static const std::array<double, 6> nrm {{ 0, 3, 0, 15, 0, 105 }};

// creation by every constructor
unc::Id create(h::Ctx &c) {
    h::Rng &r = c.rng;
    const double n = r.normal(), s = r.logu(-3, 3);
#define FRESH(how, expr) { const auto x = expr; fresh(c, how, x.indepid(), x.isindep()); return x.indepid(); }
    switch (r.below(18)) {
    case 0: FRESH("UReal<double>", unc::udouble(n, s))
    case 1: FRESH("UReal<float>", unc::ufloat(float(n), float(s)))
    case 2: FRESH("UReal<long double>", unc::UReal<long double>(n, s))
    case 3: FRESH("UReal2E<double> std", unc::udouble2e(n, s, nrm))
    case 4: FRESH("UReal2M<double> std", unc::udouble2m(n, s, nrm, -1))
    case 5: FRESH("UReal2E<double> central", (unc::udouble2e(n, std::array<double, 7>{{ 1, 0, 3, 0, 15, 0, 105 }})))
    case 6: FRESH("UReal2M<long double>", (unc::UReal2M<long double>(n, s, {{ 0, 3, 0, 15, 0, 105 }})))
    case 7: FRESH("normal", unc::distr::normal<unc::udouble2e>(n, s))
    case 8: FRESH("chisquare", unc::distr::chisquare<unc::udouble2m>(r.range(1, 30)))
    case 9: FRESH("uniform", unc::distr::uniform<unc::udouble2e>(n, n + s))
    case 10: FRESH("UReal2E<float>", (unc::ufloat2e(float(n), float(s), {{ 0, 3, 0, 15, 0, 105 }})))
    case 11: { // container elements built one by one
        std::vector<unc::udouble> v; for (int k = 0; k < 5; ++k) v.emplace_back(n, s);
        for (auto &x : v) fresh(c, "emplace_back", x.indepid(), x.isindep());
        return v.back().indepid();
    }
    case 12: { // failed constructions in between
        try { unc::udouble bad(n, -s); } catch (const std::invalid_argument &) { c.count("failed construction"); }
        try { unc::udouble2e bad(n, s, {{ 0, 0, 0, 0, 0, 0 }}); } catch (const std::invalid_argument &) { c.count("failed construction"); }
        FRESH("UReal<double> after failure", unc::udouble(n, s))
    }
    case 13: { // generated: one new variable per row
        const auto v = unc::ureals<std::vector<unc::udouble>>(std::vector<double>{ 1, 2 }, std::vector<double>{ 1, 0.5, 0.5, 2 });
        const unc::udouble w(n, s);
        for (auto &x : v) c.check(cov(x, w) == 0, "generated-correlated-with-new", [&] { return std::string("ureals"); });
        fresh(c, "UReal<double> after ureals", w.indepid(), w.isindep());
        return w.indepid();
    }
    case 14: { std::unique_ptr<unc::udouble> p(new unc::udouble(n, s)); fresh(c, "heap", p->indepid(), p->isindep()); return p->indepid(); }
    case 15: { const std::map<int, unc::udouble> m { { 1, unc::udouble(n, s) }, { 2, unc::udouble(n, s) } };
        for (auto &x : m) fresh(c, "map", x.second.indepid(), x.second.isindep());
        return m.at(2).indepid(); }
    case 16: FRESH("other source file", other_tu_make(n, s))
    default: FRESH("other source file 2", other_tu_make2(n, s))
    }
}

