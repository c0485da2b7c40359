// Everything a user can observe of a variable, through const access only.
#pragma once
#include "lib.hpp"
namespace obs {
struct Obs {
    std::vector<std::pair<std::string, double>> v;  // real observables
    std::vector<std::pair<std::string, long long>> k; // discrete ones
    void add(const std::string &n, double x) { v.emplace_back(n, x); }
    void disc(const std::string &n, long long x) { k.emplace_back(n, x); }
};
template<class Real, class V> Obs observe(const unc::UReal<Real> &x, const V &refs, const V &ind) {
    Obs o;
    o.add("n", double(x.n())); o.add("nom", double(unc::nom(x)));
    o.add("s", double(x.s())); o.add("sdev", double(unc::sdev(x))); o.add("var", double(var(x)));
    o.disc("isindep", x.isindep()); o.disc("indepid", x.indepid());
    for (size_t i = 0; i < refs.size(); ++i) {
        o.add("cov(.,r" + std::to_string(i) + ")", double(cov(x, refs[i])));
        o.add("cov(r" + std::to_string(i) + ",.)", double(cov(refs[i], x)));
    }
    for (size_t i = 0; i < ind.size(); ++i) if (ind[i].s() != 0) {
        o.add("grad(x" + std::to_string(i) + ")", double(x.grad(ind[i])));
        o.add("cov(.,x" + std::to_string(i) + ")", double(cov(x, ind[i])));
    }
    return o;
}
template<class Real, unc::Prop P, class V> Obs observe(const unc::UReal2<Real, P> &x, const V &refs, const V &ind) {
    Obs o;
    o.add("first_order_n", double(x.first_order_n()));
    o.add("n", double(x.n()));
    for (int i = 1; i <= 4; ++i) o.add("m" + std::to_string(i), double(x.m(i)));
    o.add("var", double(var(x)));
    o.disc("isindep", x.isindep()); o.disc("indepid", x.indepid());
    for (size_t i = 0; i < refs.size(); ++i) {
        o.add("cov(.,r" + std::to_string(i) + ")", double(cov(x, refs[i])));
        o.add("cov(r" + std::to_string(i) + ",.)", double(cov(refs[i], x)));
    }
    for (size_t i = 0; i < ind.size(); ++i) if (ind[i].s() != 0) {
        o.add("cov(.,x" + std::to_string(i) + ")", double(cov(x, ind[i])));
        o.add("grad(x" + std::to_string(i) + ")", double(x.grad(ind[i])));
        for (size_t j = 0; j < ind.size(); ++j) if (ind[j].s() != 0)
            o.add("hess(x" + std::to_string(i) + ",x" + std::to_string(j) + ")", double(x.hess(ind[i], ind[j])));
    }
    return o;
}
inline bool close(double a, double b, double rel, double abs_ = 0) {
    if (h::bits(a) == h::bits(b) || a == b || (a != a && b != b)) return true;
    return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs_;
}
// empty string if equal
inline std::string diff(const Obs &a, const Obs &b, double rel, double abs_ = 0, const std::string &skip = "") {
    if (a.v.size() != b.v.size() || a.k.size() != b.k.size()) return "different number of observables";
    for (size_t i = 0; i < a.k.size(); ++i) if (a.k[i].second != b.k[i].second)
        return a.k[i].first + " " + std::to_string(a.k[i].second) + " -> " + std::to_string(b.k[i].second);
    for (size_t i = 0; i < a.v.size(); ++i) {
        if (!skip.empty() && a.v[i].first == skip) continue;
        if (!close(a.v[i].second, b.v[i].second, rel, abs_))
            return a.v[i].first + " " + h::num(a.v[i].second) + " -> " + h::num(b.v[i].second);
    }
    return "";
}
} // namespace obs
