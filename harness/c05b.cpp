// second source file of C05.
#include "c05.hpp"
namespace unc = uncertainties;
static unc::udouble b1 { 1, 1 };
static const unc::udouble b2 { 2, 1 };
static unc::udouble2m b3 { 1, 1, {{ 0, 3, 0, 15, 0, 105 }} };
static const unc::Id early_reg = (early_ids().emplace_back("b/temporary", unc::udouble(1, 1).indepid()), 1);
static std::vector<unc::udouble> bv { unc::udouble(1, 1), unc::udouble(1, 1), unc::udouble(1, 1) };
void other_tu_statics(std::vector<std::pair<std::string, unc::Id>> &v) {
    v.emplace_back("b1", b1.indepid());
    v.emplace_back("b2", b2.indepid());
    v.emplace_back("b3", b3.indepid());
    for (auto &x : bv) v.emplace_back("bv", x.indepid());
    (void)early_reg;
}
unc::udouble other_tu_make(double n, double s) { static thread_local int calls = 0; ++calls; return unc::udouble(n, s); }
unc::udouble2m other_tu_make2(double n, double s) { static unc::udouble first_use(1, 1); return unc::udouble2m(n, s, {{ 0, 3, 0, 15, 0, 105 }}); }
