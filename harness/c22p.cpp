// generated programs, read from a file
#ifdef C22_REV
#include <uncertainties/math.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureal.hpp>
#endif
#define H_NO_MAIN
#include "lib.hpp"
#include "c22.hpp"
#include <fstream>
#include <sstream>
namespace c22 {
using namespace prog;
template<class U> static void execute(const Program &p, const std::vector<double> &scale, const std::string &w);
template<class U> struct Moments { static void see(const std::string &, const U &, double) {} };
template<class R, uncertainties::Prop P> struct Moments<uncertainties::UReal2<R, P>> {
    static void see(const std::string &w, const uncertainties::UReal2<R, P> &x, double sc) {
        double k = 1;
        for (int i = 1; i <= 4; ++i) { k *= sc; N(w + " m", x.m(i), 8 * k); }
    }
};
template<class U> static void execute(const Program &p, const std::vector<double> &scale, const std::string &w) {
    LibExec<U> L(p.cfg);
    size_t t = 0;
    for (auto &i : p.ins) {
        L.run(i);
        const double sc = scale[t++];
        const U &x = L.R[size_t(i.dst)];
        const std::string ww = w + " " + std::to_string(t);
        N(ww + " n", double(x.n()), sc);
        N(ww + " v", double(var(x)), sc * sc);
        T(ww + " indep", x.isindep() ? "yes" : "no");
        for (size_t k = 0; k < L.indep.size(); ++k) if (p.sig[k] > 0) N(ww + " g", double(x.grad(L.indep[k])), sc / p.sig[k]);
        Moments<U>::see(ww, x, sc);
    }
    for (size_t i = 0; i < L.R.size(); ++i) for (size_t j = 0; j < i; ++j) N(w + " cov", double(cov(L.R[i], L.R[j])), p.cfg.vmax * p.cfg.vmax);
}
void programs(const char *file) {
    std::ifstream in(file);
    std::string line;
    int k = 0;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        Program p;
        std::vector<double> scale;
        int second; size_t nins; double vm;
        s >> second >> p.cfg.maxvars >> p.cfg.regs >> vm >> nins;
        p.cfg.second = second; p.cfg.vmax = vm;
        for (size_t i = 0; i < nins; ++i) {
            Ins q; size_t m; double sc; int kind, temp;
            s >> kind >> q.op >> q.dst >> q.a >> q.b >> q.idx >> q.mom >> q.n >> q.s >> q.c >> temp;
            q.kind = Kind(kind); q.temp = temp;
            s >> m; q.args.resize(m); for (auto &a : q.args) s >> a;
            s >> m; q.coef.resize(m); for (auto &a : q.coef) s >> a;
            s >> sc; scale.push_back(sc);
            if (q.kind == NEWVAR) p.sig.push_back(q.s);
            p.ins.push_back(q);
        }
        if (!s) { T("bad program file", ""); return; }
        const std::string w = "program " + std::to_string(k++);
        if (!second) execute<uncertainties::udouble>(p, scale, w);
        else if (k % 2) execute<uncertainties::udouble2e>(p, scale, w);
        else execute<uncertainties::udouble2m>(p, scale, w);
    }
    N("programs", k, 1);
}
}
