// what needs Eigen, and mixtures
#ifdef C22_REV
#include <uncertainties/ureals.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/ureal.hpp>
#include <uncertainties/stat.hpp>
#else
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/distr.hpp>
#endif
#include "c22.hpp"
#include <map>
// explicit instantiation of the classes
namespace uncertainties {
template class UReal<long double>;
template class UReal2<float, Prop::mean>;
template class UReal2<long double, Prop::est>;
}
namespace c22 {
using namespace uncertainties;
static udouble early(1, 0.5);
static const udouble2e early2(1, 0.5, {{ 0, 3, 0, 15, 0, 105 }});
void other() {
    ctx = "other:";
    const std::vector<double> mu { 1, 2, 3 }, c { 2, 0.5, 0.25, 0.5, 1, -0.125, 0.25, -0.125, 3 };
    const auto v = ureals<std::vector<udouble>>(mu, c);
    for (auto &x : v) { N(ctx + "ureals", x.n(), 1); N(ctx + "ureals", x.s(), 1); for (auto &y : v) N(ctx + "ureals cov", cov(x, y), 1); T(ctx + "ureals id", x.isindep() ? "indep" : "dep"); }
    X(ctx + "ureals size", [&] { ureals<std::vector<udouble>>(mu, mu); });
    X(ctx + "ureals negative", [&] { ureals<std::vector<udouble>>(std::vector<double>{ 1 }, std::vector<double>{ -1 }); });
    const auto e = ureals<std::vector<udouble>>(std::vector<double>(), std::vector<double>());
    N(ctx + "ureals empty", double(e.size()), 1);
    const udouble late(1, 0.5);
    T(ctx + "early", early.indepid() > 0 && late.indepid() != early.indepid() ? "distinct" : "equal");
    T(ctx + "early cov", cov(early, late) == 0 ? "0" : "not 0");
    T(ctx + "early2", early2.indepid() > 0 && early2.indepid() != late.indepid() && early2.indepid() != early.indepid() ? "distinct" : "equal");
    std::map<Id, int> ids;
    for (int i = 0; i < 1000; ++i) { ids[udouble(1, 1).indepid()]++; ids[udouble2m(1, 1, {{ 0, 3, 0, 15, 0, 105 }}).indepid()]++; }
    N(ctx + "ids", double(ids.size()), 1);
    // long computations
    udouble s(0.0);
    udouble2e s2(0.0);
    for (int i = 1; i <= 60; ++i) {
        const udouble x(i, 0.1 * i);
        s += x / double(i);
        if (i <= 12) s2 = s2 + distr::normal<udouble2e>(0.1 * i, 0.05) * distr::chisquare<udouble2e>(i);
    }
    N(ctx + "sum", s.n(), 60); N(ctx + "sum", s.s(), 1);
    N(ctx + "sum2", s2.n(), 100); N(ctx + "sum2", s2.s(), 10); N(ctx + "sum2", s2.skew(), 1); N(ctx + "sum2", s2.kurt(), 3);
}
}
