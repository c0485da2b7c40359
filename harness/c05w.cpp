// C05: identities in a process that creates more than 2^32 variables.
#include "h.hpp"
#include <vector>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>
namespace unc = uncertainties;

// sample of the ids seen, for a quick look up
struct Table {
    std::vector<long long> t;
    std::vector<char> used;
    Table(): t(1 << 16, 0), used(1 << 16, 0) {}
    static size_t h(long long x) { return size_t((uint64_t(x) * 0x9e3779b97f4a7c15ull) >> 48); }
    bool has(long long x) const {
        for (size_t k = h(x); used[k]; k = (k + 1) & 0xffff) if (t[k] == x) return true;
        return false;
    }
    void add(long long x) {
        size_t k = h(x);
        while (used[k]) k = (k + 1) & 0xffff;
        used[k] = 1; t[k] = x;
    }
};

void run_case(h::Ctx &) {}
void run_once(h::Ctx &c) {
    const std::array<double, 6> nrm {{ 0, 3, 0, 15, 0, 105 }};
    Table tab;
    std::vector<unc::udouble> keep;
    const auto first2 = unc::distr::normal<unc::udouble2e>(0, 1);
    tab.add(first2.indepid());
    auto probe = [&](long long at) {
        const unc::udouble x(1, 1), y(2, 2), z = x + y;
        const unc::udouble2e p(1, 1, nrm), q(2, 2, nrm), w = p * q;
        auto m = [&] { return "after " + std::to_string(at) + " variables: ids " + std::to_string((long long)x.indepid()) + ", " + std::to_string((long long)y.indepid()); };
        c.check(x.isindep() && y.isindep() && p.isindep() && q.isindep() && x.indepid() != y.indepid() && p.indepid() != q.indepid() && x.indepid() != p.indepid()
            && x.indepid() != unc::invalid_id && x.indepid() != 0 && p.indepid() != unc::invalid_id && p.indepid() != 0, "identity-after-many", m);
        c.check(std::fabs(z.s() - std::sqrt(5.0)) < 1e-14 && !z.isindep() && cov(x, y) == 0 && std::fabs(cov(z, y) - 4) < 1e-14 && std::fabs(z.grad(x) - 1) < 1e-14, "propagation-after-many", m);
        c.check(std::fabs(var(w) - (4 + 4 + 4)) < 1e-12 && std::fabs(w.hess(p, q) - 1) < 1e-14 && std::fabs(w.grad(p) - 2) < 1e-14 && cov(w, first2) == 0, "second-order-after-many", m);
        for (auto &k : keep) c.check(cov(x, k) == 0 && cov(z, k) == 0 && cov(k, y) == 0, "correlated-after-many", m);
        if (keep.size() < 200) { keep.push_back(x); keep.push_back(z); }
        for (auto i : { x.indepid(), y.indepid(), p.indepid(), q.indepid() }) c.check(!tab.has(i), "repeated-identity", m);
        c.count("probes of a complete computation");
        c.distinct(h::mix(77, uint64_t(at)));
    };
    const long long total = (1ll << 32) + 20000;
    uint64_t bad = 0;
    long long next = 1;
    for (long long k = 0; k < total; ++k) {
        h::g_case = -1;
        const unc::udouble x(double(k & 1023), 1.0);
        const long long id = x.indepid();
        if (tab.has(id) || id == 0 || id == unc::invalid_id) {
            if (bad++ < 3) c.viol("repeated-identity", "variable number " + std::to_string(k) + " got identity " + std::to_string(id) + " again");
            if (bad > 1000) break;
        }
        if (k < 16384) tab.add(id);
        if (k + 1 >= next - 2 && k + 1 <= next + 2) probe(k + 1);
        if (k + 1 == next + 2) next *= 2;
    }
    c.eval(1000000);
    c.count("variables created in one process", uint64_t(total));
    c.sample("4294987296 variables, a complete computation around each power of two");
}
