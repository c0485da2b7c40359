// writes the generated programs, with the scale of the numbers
#include "lib.hpp"
#include <uncertainties/impl.hpp>
#include <cstdio>
using namespace prog;
void run_once(h::Ctx &) {}
void run_case(h::Ctx &c) {
    Cfg cfg;
    cfg.second = c.rng.below(3) != 0;
    cfg.maxvars = c.rng.range(1, cfg.second ? 4 : 6); cfg.regs = c.rng.range(2, 5);
    cfg.len = c.rng.range(3, cfg.second ? 10 : 16);
    cfg.zero_s = !cfg.second; cfg.slo = -2; cfg.shi = 0.5;
    Gen<quad> g(c.rng, cfg);
    g.generate();
    if (g.p.ins.size() < 2) return;
    c.distinct(g.p.hash());
    ShExec<quad> S(cfg);
    std::printf("@PROG %d %d %d %.17g %zu", int(cfg.second), cfg.maxvars, cfg.regs, cfg.vmax, g.p.ins.size());
    for (auto &i : g.p.ins) {
        S.run(i);
        std::printf(" %d %d %d %d %d %d %d %.17g %.17g %.17g %d", int(i.kind), i.op, i.dst, i.a, i.b, i.idx, i.mom, i.n, i.s, i.c, int(i.temp));
        std::printf(" %zu", i.args.size()); for (auto &a : i.args) std::printf(" %d", a);
        std::printf(" %zu", i.coef.size()); for (auto &a : i.coef) std::printf(" %.17g", a);
        const auto &x = S.R[size_t(i.dst)];
        double sc = double(x.va);
        for (auto &q : x.ga) sc += double(q);
        for (auto &q : x.Ha) sc += double(q);
        std::printf(" %.6g", sc);
    }
    std::printf("\n");
}
