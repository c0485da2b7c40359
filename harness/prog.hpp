// Random straight-line programs over uncertain variables: generation (driven
// by the wide-precision shadow, so that every intermediate value stays in the
// smooth domain), execution on the library, on twins and on shadows.
#pragma once
#include <array>
#include <vector>
#include <string>
#include <utility>
#include <memory>
#include <cmath>
#include "h.hpp"
#include "shadow.hpp"

namespace prog {

enum Kind { NEWVAR, NEWCST, COPY, U1, B2, INPL, USER1, USER2, NARY, CHNOM, SWAP, N_KIND };
static const char *const kind_name[] = { "newvar", "newcst", "copy", "u1", "b2", "inpl", "user1", "user2", "nary", "chnom", "swap" };

struct Ins {
    int kind = 0, op = 0, dst = 0;
    int a = -1, b = -1;     // registers; -1: the constant c
    double c = 0;
    double n = 0, s = 0;    // new variables
    int idx = -1;           // index of the independent variable
    int mom = 0;            // which moment set (second order)
    std::vector<int> args;
    std::vector<double> coef;
    bool temp = false;      // pass the operand as a temporary copy
    std::string str() const {
        std::ostringstream o;
        o.precision(17);
        auto R = [&](int r) { std::ostringstream q; q.precision(17); if (r < 0) q << c; else q << "r" << r; return q.str(); };
        switch (kind) {
        case NEWVAR: o << "r" << dst << "=new x" << idx << "{" << n << "," << s << "}"; break;
        case NEWCST: o << "r" << dst << "=" << c; break;
        case COPY: o << "r" << dst << "=r" << a; break;
        case U1: o << "r" << dst << "=" << sh::op1_name[op] << "(r" << a << ")"; break;
        case B2: o << "r" << dst << "=" << sh::op2_name[op] << "(" << R(a) << "," << R(b) << ")"; break;
        case INPL: o << "r" << dst << " " << sh::op2_name[op] << "= " << R(a) << (temp ? "(tmp)" : ""); break;
        case USER1: o << "r" << dst << "=user1(r" << a; for (double k : coef) o << "," << k; o << ")"; break;
        case USER2: o << "r" << dst << "=user2(r" << a << ",r" << b; for (double k : coef) o << "," << k; o << ")"; break;
        case NARY: o << "r" << dst << "=nary("; for (size_t i = 0; i < args.size(); ++i) o << (i ? "," : "") << coef[i] << "*r" << args[i]; o << ")"; break;
        case CHNOM: o << "r" << dst << "=change_nom(r" << a << "," << c << ")"; break;
        case SWAP: o << "swap(r" << dst << ",r" << a << ")"; break;
        }
        return o.str();
    }
    uint64_t shape() const {
        uint64_t x = h::mix(uint64_t(kind) * 64 + uint64_t(op), uint64_t(dst * 100 + a * 10 + b));
        for (int i : args) x = h::mix(x, uint64_t(i));
        return x;
    }
};

struct Cfg {
    int maxvars = 5;
    int regs = 5;
    int len = 20;
    bool second = false;
    bool linear = false;     // only + - and multiplications by numbers
    bool arith = false;      // only + - * /
    bool user = true;        // user functions
    bool nary = true;        // nary, in-place with temporaries, change_nom (first order only)
    bool inplace = true;
    bool float_in = false;   // all inputs representable as float
    bool zero_s = true;      // sometimes zero standard deviation
    double slo = -3, shi = 0.5;
    int nmom = 1;
    double vmax = 50;
};

struct Program {
    Cfg cfg;
    std::vector<Ins> ins;
    int nvars = 0;
    std::vector<double> sig; // standard deviations of the independent variables
    std::vector<double> mu;
    std::vector<int> mom;
    std::string str() const {
        std::string s;
        for (auto &i : ins) { s += i.str(); s += "; "; }
        return s;
    }
    uint64_t hash() const {
        uint64_t x = 17;
        for (auto &i : ins) x = h::mix(x, i.shape() ^ h::bits(i.n) ^ h::bits(i.c) ^ h::bits(i.s));
        return x;
    }
};

// ---- execution on a shadow ------------------------------------------------
template<class T> T poly2(const std::vector<double> &k, const T &x, const T &y) {
    return T(k[0]) + T(k[1]) * x + T(k[2]) * y + T(k[3]) * x * x + T(k[4]) * y * y + T(k[5]) * x * y;
}
template<class T> sh::J2<T> poly2jet(const std::vector<double> &k, const T &x, const T &y) {
    sh::J2<T> j;
    j.f = poly2(k, x, y);
    j.dx = T(k[1]) + 2 * T(k[3]) * x + T(k[5]) * y;
    j.dy = T(k[2]) + 2 * T(k[4]) * y + T(k[5]) * x;
    j.dxx = 2 * T(k[3]); j.dyy = 2 * T(k[4]); j.dxy = T(k[5]);
    return j;
}

template<class T> struct ShExec {
    std::vector<sh::Sh<T>> R;
    int N;
    bool second;
    ShExec(const Cfg &c): R(size_t(c.regs), sh::Sh<T>(c.maxvars, c.second, T(0))), N(c.maxvars), second(c.second) {}
    sh::Sh<T> cst(double c) const { return sh::Sh<T>(N, second, T(c)); }
    sh::Sh<T> opnd(int r, double c) const { return r < 0 ? cst(c) : R[size_t(r)]; }
    static bool is_cst(const sh::Sh<T> &x) {
        for (auto &g : x.ga) if (g != 0) return false;
        for (auto &g : x.Ha) if (g != 0) return false;
        return true;
    }
    void run(const Ins &i) {
        using namespace sh;
        switch (i.kind) {
        case NEWVAR: {
            Sh<T> x(N, second, T(i.n));
            x.g[size_t(i.idx)] = T(i.s); x.ga[size_t(i.idx)] = T(i.s);
            R[size_t(i.dst)] = x;
            break;
        }
        case NEWCST: R[size_t(i.dst)] = cst(i.c); break;
        case COPY: { auto t = R[size_t(i.a)]; R[size_t(i.dst)] = t; break; }
        case U1: {
            const Sh<T> x = R[size_t(i.a)];
            J1<T> j = jet1(i.op, x.v);
            R[size_t(i.dst)] = apply1(x, j.f, j.d, j.dd);
            break;
        }
        case B2: case INPL: {
            const Sh<T> x = i.kind == B2 ? opnd(i.a, i.c) : R[size_t(i.dst)];
            const Sh<T> y = i.kind == B2 ? opnd(i.b, i.c) : opnd(i.a, i.c);
            if (i.kind == B2 && i.a == i.b && i.a >= 0 && (i.op == FMAX || i.op == FMIN)) {
                R[size_t(i.dst)] = x;
                break;
            }
            J2<T> j = jet2(i.op, x.v, y.v, is_cst(y));
            R[size_t(i.dst)] = apply2(x, y, j, T(floor2<T>(i.op, x.v, y.v)), T(cond3<T>(i.op, x, y)));
            break;
        }
        case USER1: {
            const Sh<T> x = R[size_t(i.a)];
            const T f = T(i.coef[0]) + T(i.coef[1]) * x.v + T(i.coef[2]) * x.v * x.v;
            R[size_t(i.dst)] = apply1(x, f, T(T(i.coef[1]) + 2 * T(i.coef[2]) * x.v), T(2 * T(i.coef[2])));
            break;
        }
        case USER2: {
            const Sh<T> x = R[size_t(i.a)], y = R[size_t(i.b)];
            R[size_t(i.dst)] = apply2(x, y, poly2jet(i.coef, x.v, y.v));
            break;
        }
        case NARY: {
            Sh<T> r = cst(0);
            for (size_t k = 0; k < i.args.size(); ++k) {
                const Sh<T> &x = R[size_t(i.args[k])];
                J2<T> j; j.f = r.v + T(i.coef[k]) * x.v; j.dx = T(1); j.dy = T(i.coef[k]); j.dxx = j.dyy = j.dxy = T(0);
                r = apply2(r, x, j);
            }
            R[size_t(i.dst)] = r;
            break;
        }
        case CHNOM: { auto t = R[size_t(i.a)]; t.v = T(i.c); t.va = mf::fabs(t.v); R[size_t(i.dst)] = t; break; }
        case SWAP: std::swap(R[size_t(i.dst)], R[size_t(i.a)]); break;
        }
    }
};

// ---- execution on the library ---------------------------------------------
template<class U> U lib1(int op, const U &x) {
    using namespace sh;
    switch (op) {
    case NEG: return -x;
    case POS: return +x;
    case ABS: return abs(x);
    case EXP: return exp(x);
    case EXP2: return exp2(x);
    case EXPM1: return expm1(x);
    case LOG: return log(x);
    case LOG10: return log10(x);
    case LOG2: return log2(x);
    case LOG1P: return log1p(x);
    case SQRT: return sqrt(x);
    case CBRT: return cbrt(x);
    case SIN: return sin(x);
    case COS: return cos(x);
    case TAN: return tan(x);
    case ASIN: return asin(x);
    case ACOS: return acos(x);
    case ATAN: return atan(x);
    case SINH: return sinh(x);
    case COSH: return cosh(x);
    case TANH: return tanh(x);
    case ASINH: return asinh(x);
    case ACOSH: return acosh(x);
    case ATANH: return atanh(x);
    case ERF: return erf(x);
    case ERFC: return erfc(x);
    }
    std::abort();
}
template<class U> U lib2(int op, const U &x, const U &y) {
    using namespace sh;
    switch (op) {
    case ADD: return x + y;
    case SUB: return x - y;
    case MUL: return x * y;
    case DIV: return x / y;
    case POW: return pow(x, y);
    case HYPOT: return hypot(x, y);
    case ATAN2: return atan2(x, y);
    case FMOD: return fmod(x, y);
    case REMAINDER: return remainder(x, y);
    case FMAX: return fmax(x, y);
    case FMIN: return fmin(x, y);
    }
    std::abort();
}
// with a plain number as one of the operands
template<class U, class Real> U lib2xc(int op, const U &x, const Real &c) {
    using namespace sh;
    switch (op) {
    case ADD: return x + c;
    case SUB: return x - c;
    case MUL: return x * c;
    case DIV: return x / c;
    }
    return lib2<U>(op, x, U(c));
}
template<class U, class Real> U lib2cx(int op, const Real &c, const U &x) {
    using namespace sh;
    switch (op) {
    case ADD: return c + x;
    case SUB: return c - x;
    case MUL: return c * x;
    case DIV: return c / x;
    }
    return lib2<U>(op, U(c), x);
}

// moment sets for second-order variables (standardized 3..8)
struct MomSet { std::array<double, 6> m; std::vector<double> pt, w; };
inline std::vector<MomSet> &momsets() {
    // standardized central moments of: normal; exponential; two-point 1/4-3/4; uniform
    static std::vector<MomSet> v {
        MomSet { {{0, 3, 0, 15, 0, 105}}, {}, {} },
        MomSet { {{2, 9, 44, 265, 1854, 14833}}, {}, {} },
        MomSet { {{1.1547005383792515, 2.3333333333333335, 3.8490017945975055, 6.7777777777777777, 11.675305443612434, 20.259259259259263}}, {}, {} },
        MomSet { {{0, 1.8, 0, 27.0 / 7, 0, 9}}, {}, {} },
    };
    return v;
}

template<class U> struct Ops; // specialized for UReal and UReal2 by lib.hpp

template<class U> struct LibExec {
    using Real = typename U::real_type;
    std::vector<U> R;
    std::vector<U> indep;     // pristine copies of the independent variables
    bool allow_inplace = true;
    LibExec(const Cfg &c): R(size_t(c.regs)), indep() {}
    U opnd(int r, double c) const { return r < 0 ? U(Real(c)) : R[size_t(r)]; }
    void run(const Ins &i);   // not inline: instantiated in ops*.cpp for the usual types
};
template<class U> void LibExec<U>::run(const Ins &i) {
        U &d = R[size_t(i.dst)];
        switch (i.kind) {
        case NEWVAR:
            d = Ops<U>::make(Real(i.n), Real(i.s), i.mom);
            indep.push_back(d);
            break;
        case NEWCST: d = Real(i.c); break;
        case COPY: d = R[size_t(i.a)]; break;
        case U1: d = lib1<U>(i.op, R[size_t(i.a)]); break;
        case B2:
            if (i.a < 0) d = lib2cx<U, Real>(i.op, Real(i.c), R[size_t(i.b)]);
            else if (i.b < 0) d = lib2xc<U, Real>(i.op, R[size_t(i.a)], Real(i.c));
            else d = lib2<U>(i.op, R[size_t(i.a)], R[size_t(i.b)]);
            break;
        case INPL:
            if (allow_inplace) Ops<U>::inplace(i, d, i.a < 0 ? nullptr : &R[size_t(i.a)]);
            else d = lib2<U>(i.op, d, opnd(i.a, i.c));
            break;
        case USER1: d = Ops<U>::user1(R[size_t(i.a)], i.coef); break;
        case USER2: d = Ops<U>::user2(R[size_t(i.a)], R[size_t(i.b)], i.coef); break;
        case NARY: Ops<U>::nary_(d, R, i); break;
        case CHNOM: Ops<U>::chnom(d, R[size_t(i.a)], Real(i.c)); break;
        case SWAP: { using std::swap; swap(d, R[size_t(i.a)]); break; }
        }
    }

// ---- generation -------------------------------------------------------------
inline double q2d(double x) { return x; }
inline double q2d(long double x) { return double(x); }
#ifndef H_NO_QUAD
inline double q2d(quad x) { return double(x); }
#endif

template<class T> bool domain1(int op, const T &xq) {
    using namespace sh;
    const double x = q2d(xq);
    const double ax = std::fabs(x);
    switch (op) {
    case ABS: return ax > 0.01;
    case EXP: case EXP2: case EXPM1: case SINH: case COSH: return ax < 4;
    case LOG: case LOG10: case LOG2: case SQRT: return x > 0.05;
    case LOG1P: return x > -0.9;
    case CBRT: return ax > 0.05;
    case TAN: return std::fabs(std::cos(x)) > 0.2;
    case ASIN: case ACOS: case ATANH: return ax < 0.95;
    case ACOSH: return x > 1.05;
    case TANH: return ax < 4;
    case ERF: case ERFC: return ax < 3;
    }
    return true;
}
template<class T> bool domain2(int op, const T &xq, const T &yq, bool same, bool ycst) {
    using namespace sh;
    const double x = q2d(xq), y = q2d(yq);
    switch (op) {
    case DIV: return std::fabs(y) > 0.05;
    case POW:
        if (x > 0.05) return std::fabs(y) < 6;
        if (!ycst || y != std::floor(y) || std::fabs(y) > 5) return false;
        if (x == 0) return y >= 0;
        return x < -0.05;
    case HYPOT: return std::hypot(x, y) > 0.1;
    case ATAN2:
        return std::hypot(x, y) > 0.1 && !(y <= 0 && std::fabs(x) < 1e-3);
    case FMOD: {
        if (std::fabs(y) < 0.1) return false;
        const double r = std::fabs(x / y), f = r - std::floor(r);
        if (same || r > 100) return false;
        return r < 0.95 || (f > 0.05 && f < 0.95);
    }
    case REMAINDER: {
        if (std::fabs(y) < 0.1) return false;
        const double r = std::fabs(x / y), f = r - std::floor(r);
        return r < 100 && std::fabs(f - 0.5) > 0.05;
    }
    case FMAX: case FMIN: return same || std::fabs(x - y) > 0.01 * (std::fabs(x) + std::fabs(y)) + 1e-6;
    }
    return true;
}

inline double gen_const(h::Rng &r, bool f) {
    static const double sp[] = { 0, 1, -1, 2, -2, 0.5, 3, -0.5, 10, 0.25 };
    double c = r.chance(0.5) ? sp[r.below(10)] : r.normal() * 2;
    return f ? double(float(c)) : c;
}

template<class T> struct Gen {
    h::Rng &r;
    Program p;
    ShExec<T> S;
    double inplace_bias = 0;
    Gen(h::Rng &rng, const Cfg &c): r(rng), S(c) { p.cfg = c; }

    bool finite_ok(const sh::Sh<T> &x) const {
        const double v = q2d(x.v), va = q2d(x.va);
        if (!(std::fabs(v) <= p.cfg.vmax) || !(va < 1e6)) return false;
        for (auto &g : x.ga) if (!(q2d(g) < 1e6)) return false;
        for (auto &g : x.Ha) if (!(q2d(g) < 1e8)) return false;
        return true;
    }
    bool newvar(int dst) {
        if (p.nvars >= p.cfg.maxvars) return false;
        Ins i;
        i.kind = NEWVAR; i.dst = dst; i.idx = p.nvars;
        i.n = gen_const(r, p.cfg.float_in);
        if (p.cfg.zero_s && r.chance(0.05)) i.s = 0;
        else i.s = r.chance(0.3) ? 1.0 : r.logu(p.cfg.slo, p.cfg.shi);
        if (p.cfg.float_in) i.s = double(float(i.s));
        i.mom = r.below(p.cfg.nmom);
        p.sig.push_back(i.s); p.mu.push_back(i.n); p.mom.push_back(i.mom);
        ++p.nvars;
        S.run(i);
        p.ins.push_back(i);
        return true;
    }
    int ndep(int r_) const {
        int n = 0;
        for (auto &g : S.R[size_t(r_)].ga) if (g != 0) ++n;
        return n;
    }
    // one candidate instruction; false if rejected
    bool candidate() {
        const Cfg &c = p.cfg;
        Ins i;
        i.dst = r.below(c.regs);
        const int roll = inplace_bias > 0 && r.chance(inplace_bias) ? 80 : r.below(100);
        // operands: prefer registers depending on many variables
        auto reg = [&] {
            int best = r.below(c.regs);
            if (r.chance(0.35)) return best;
            for (int k = 0; k < 2; ++k) {
                const int o = r.below(c.regs);
                if (ndep(o) > ndep(best)) best = o;
            }
            return best;
        };
        auto small = [&] { double k = r.chance(0.6) ? double(r.range(-2, 2)) : r.normal(); return c.float_in ? double(float(k)) : k; };
        if (roll < 7) { if (newvar(i.dst)) return true; return false; }
        else if (roll < 9) { i.kind = NEWCST; i.c = gen_const(r, c.float_in); }
        else if (roll < 12) { i.kind = COPY; i.a = reg(); }
        else if (roll < 13) { i.kind = SWAP; i.a = reg(); if (i.a == i.dst) return false; }
        else if (roll < 38 && !c.linear && !c.arith) { i.kind = U1; i.op = r.below(sh::N_OP1); i.a = reg(); }
        else if (roll < 41) { i.kind = U1; i.op = sh::NEG; i.a = reg(); }
        else if (roll < 72) {
            i.kind = B2;
            i.a = reg(); i.b = reg();
            if (r.chance(0.2)) { i.c = gen_const(r, c.float_in); (r.chance(0.5) ? i.a : i.b) = -1; }
            if (c.linear) {
                if (i.a < 0 || i.b < 0) { i.op = r.below(4); if (i.a < 0 && i.op == sh::DIV) return false; }
                else i.op = r.below(2);
            } else if (c.arith || r.chance(0.65)) i.op = r.below(4);
            else i.op = r.range(4, sh::N_OP2 - 1);
            if (i.op == sh::POW && i.b < 0) i.c = r.chance(0.7) ? double(r.range(-2, 4)) : i.c;
        } else if (roll < 87 && c.inplace) {
            i.kind = INPL; i.op = r.below(c.linear ? 2 : 4);
            i.a = r.chance(0.2) ? i.dst : reg();
            i.temp = r.chance(0.3);
            if (r.chance(0.2)) { i.a = -1; i.c = gen_const(r, c.float_in); if (c.linear) i.op = r.below(4); }
        } else if (roll < 94 && c.user && !c.linear) {
            if (r.chance(0.4)) { i.kind = USER1; i.a = reg(); i.coef = { small(), small(), small() }; }
            else { i.kind = USER2; i.a = reg(); i.b = reg(); for (int k = 0; k < 6; ++k) i.coef.push_back(small()); }
        } else if (roll < 98 && c.nary && !c.second) {
            i.kind = NARY;
            const int n = r.range(0, 5);
            for (int k = 0; k < n; ++k) { i.args.push_back(reg()); i.coef.push_back(small()); }
        } else if (c.nary && !c.second) {
            i.kind = CHNOM; i.a = reg(); i.c = gen_const(r, c.float_in);
        } else return false;
        // domain
        if (i.kind == U1 && !domain1(i.op, S.R[size_t(i.a)].v)) return false;
        if (i.kind == B2 || i.kind == INPL) {
            const sh::Sh<T> x = i.kind == B2 ? S.opnd(i.a, i.c) : S.R[size_t(i.dst)];
            const sh::Sh<T> y = i.kind == B2 ? S.opnd(i.b, i.c) : S.opnd(i.a, i.c);
            const bool same = i.kind == B2 ? (i.a == i.b && i.a >= 0) : i.a == i.dst;
            const bool ycst = (i.kind == B2 ? i.b : i.a) < 0;
            if (!domain2(i.op, x.v, y.v, same, ycst)) return false;
        }
        const auto saved = S.R;
        S.run(i);
        if (!finite_ok(S.R[size_t(i.dst)])) { S.R = saved; return false; }
        p.ins.push_back(i);
        return true;
    }
    void generate() {
        const int mx = p.cfg.maxvars < p.cfg.regs ? p.cfg.maxvars : p.cfg.regs;
        const int first = r.range((mx + 1) / 2, mx);
        for (int k = 0; k < first; ++k) newvar(k);
        int tries = 0;
        while (int(p.ins.size()) < p.cfg.len && tries < p.cfg.len * 20) { candidate(); ++tries; }
    }
};

} // namespace prog
