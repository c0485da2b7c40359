// Independent dense model of a computation: value, gradient and hessian with
// respect to the standardized independent variables, plus magnitudes of the
// terms that were summed (to size the tolerance).
#pragma once
#include <vector>
#include "mf.hpp"

namespace sh {

// ---- elementary operations ----------------------------------------------
enum Op1 { NEG, POS, ABS, EXP, EXP2, EXPM1, LOG, LOG10, LOG2, LOG1P, SQRT, CBRT, SIN, COS, TAN,
    ASIN, ACOS, ATAN, SINH, COSH, TANH, ASINH, ACOSH, ATANH, ERF, ERFC, N_OP1 };
static const char *const op1_name[] = { "neg", "pos", "abs", "exp", "exp2", "expm1", "log", "log10", "log2",
    "log1p", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
    "asinh", "acosh", "atanh", "erf", "erfc" };
enum Op2 { ADD, SUB, MUL, DIV, POW, HYPOT, ATAN2, FMOD, REMAINDER, FMAX, FMIN, N_OP2 };
static const char *const op2_name[] = { "add", "sub", "mul", "div", "pow", "hypot", "atan2", "fmod",
    "remainder", "fmax", "fmin" };

template<class T> struct J1 { T f, d, dd; };
template<class T> struct J2 { T f, dx, dy, dxx, dyy, dxy; };

template<class T> T value1(int op, const T &x) {
    switch (op) {
    case NEG: return -x;
    case POS: return x;
    case ABS: return mf::fabs(x);
    case EXP: return mf::exp(x);
    case EXP2: return mf::exp2(x);
    case EXPM1: return mf::expm1(x);
    case LOG: return mf::log(x);
    case LOG10: return mf::log10(x);
    case LOG2: return mf::log2(x);
    case LOG1P: return mf::log1p(x);
    case SQRT: return mf::sqrt(x);
    case CBRT: return mf::cbrt(x);
    case SIN: return mf::sin(x);
    case COS: return mf::cos(x);
    case TAN: return mf::tan(x);
    case ASIN: return mf::asin(x);
    case ACOS: return mf::acos(x);
    case ATAN: return mf::atan(x);
    case SINH: return mf::sinh(x);
    case COSH: return mf::cosh(x);
    case TANH: return mf::tanh(x);
    case ASINH: return mf::asinh(x);
    case ACOSH: return mf::acosh(x);
    case ATANH: return mf::atanh(x);
    case ERF: return mf::erf(x);
    case ERFC: return mf::erfc(x);
    }
    return x;
}

// derivatives, written from calculus tables (validated against numerical
// differentiation by the selftest of the C02/C09 harness)
template<class T> J1<T> jet1(int op, const T &x) {
    J1<T> j;
    j.f = value1(op, x);
    const T one(1), two(2);
    switch (op) {
    case NEG: j.d = -one; j.dd = T(0); break;
    case POS: j.d = one; j.dd = T(0); break;
    case ABS: j.d = x > 0 ? one : T(-one); j.dd = T(0); break;
    case EXP: j.d = j.f; j.dd = j.f; break;
    case EXP2: { T l = mf::log(two); j.d = l * j.f; j.dd = l * l * j.f; break; }
    case EXPM1: { T e = mf::exp(x); j.d = e; j.dd = e; break; }
    case LOG: j.d = one / x; j.dd = -one / (x * x); break;
    case LOG10: { T l = mf::log(T(10)); j.d = one / (x * l); j.dd = -one / (x * x * l); break; }
    case LOG2: { T l = mf::log(two); j.d = one / (x * l); j.dd = -one / (x * x * l); break; }
    case LOG1P: { T y = one + x; j.d = one / y; j.dd = -one / (y * y); break; }
    case SQRT: j.d = one / (two * j.f); j.dd = -one / (T(4) * x * j.f); break;
    case CBRT: j.d = j.f / (T(3) * x); j.dd = -two * j.f / (T(9) * x * x); break;
    case SIN: j.d = mf::cos(x); j.dd = -j.f; break;
    case COS: j.d = -mf::sin(x); j.dd = -j.f; break;
    case TAN: { T c = mf::cos(x); j.d = one / (c * c); j.dd = two * j.f / (c * c); break; }
    case ASIN: { T u = one - x * x; T s = mf::sqrt(u); j.d = one / s; j.dd = x / (u * s); break; }
    case ACOS: { T u = one - x * x; T s = mf::sqrt(u); j.d = -one / s; j.dd = -x / (u * s); break; }
    case ATAN: { T u = one + x * x; j.d = one / u; j.dd = -two * x / (u * u); break; }
    case SINH: j.d = mf::cosh(x); j.dd = j.f; break;
    case COSH: j.d = mf::sinh(x); j.dd = j.f; break;
    case TANH: { T c = mf::cosh(x); j.d = one / (c * c); j.dd = -two * j.f / (c * c); break; }
    case ASINH: { T u = one + x * x; T s = mf::sqrt(u); j.d = one / s; j.dd = -x / (u * s); break; }
    case ACOSH: { T u = x * x - one; T s = mf::sqrt(u); j.d = one / s; j.dd = -x / (u * s); break; }
    case ATANH: { T u = one - x * x; j.d = one / u; j.dd = two * x / (u * u); break; }
    case ERF: { T c = two / mf::sqrt(mf::pi<T>()); T e = c * mf::exp(-x * x); j.d = e; j.dd = -two * x * e; break; }
    case ERFC: { T c = two / mf::sqrt(mf::pi<T>()); T e = c * mf::exp(-x * x); j.d = -e; j.dd = two * x * e; break; }
    }
    return j;
}

template<class T> T value2(int op, const T &x, const T &y) {
    switch (op) {
    case ADD: return x + y;
    case SUB: return x - y;
    case MUL: return x * y;
    case DIV: return x / y;
    case POW: return mf::pow(x, y);
    case HYPOT: return mf::hypot(x, y);
    case ATAN2: return mf::atan2(x, y);
    case FMOD: return mf::fmod(x, y);
    case REMAINDER: return mf::remainder(x, y);
    case FMAX: return x > y ? x : y;
    case FMIN: return x < y ? x : y;
    }
    return x;
}

// ycst: the second argument is a plain number (derivatives in y not needed)
template<class T> J2<T> jet2(int op, const T &x, const T &y, bool ycst) {
    J2<T> j;
    j.f = value2(op, x, y);
    const T one(1), two(2), z(0);
    j.dx = j.dy = j.dxx = j.dyy = j.dxy = z;
    switch (op) {
    case ADD: j.dx = one; j.dy = one; break;
    case SUB: j.dx = one; j.dy = -one; break;
    case MUL: j.dx = y; j.dy = x; j.dxy = one; break;
    case DIV: j.dx = one / y; j.dy = -x / (y * y); j.dyy = two * x / (y * y * y); j.dxy = -one / (y * y); break;
    case POW: {
        if (x == 0) { // only with constant non negative integer exponent
            if (y == 1) j.dx = one;
            if (y == 2) j.dxx = two;
            break;
        }
        j.dx = y * j.f / x;
        j.dxx = y * (y - one) * j.f / (x * x);
        if (!ycst) {
            T l = mf::log(x);
            j.dy = j.f * l;
            j.dyy = j.f * l * l;
            j.dxy = j.f / x * (one + y * l);
        }
        break;
    }
    case HYPOT: {
        T hh = j.f, h3 = hh * hh * hh;
        j.dx = x / hh; j.dy = y / hh;
        j.dxx = y * y / h3; j.dyy = x * x / h3; j.dxy = -x * y / h3;
        break;
    }
    case ATAN2: {
        T r = x * x + y * y, r2 = r * r;
        j.dx = y / r; j.dy = -x / r;
        j.dxx = -two * x * y / r2; j.dyy = two * x * y / r2; j.dxy = (x * x - y * y) / r2;
        break;
    }
    case FMOD: j.dx = one; j.dy = -mf::trunc(T(x / y)); break;
    case REMAINDER: j.dx = one; j.dy = -mf::round(T(x / y)); break;
    case FMAX: if (x > y) j.dx = one; else j.dy = one; break;
    case FMIN: if (x < y) j.dx = one; else j.dy = one; break;
    }
    return j;
}

template<class T> struct Sh {
    T v, va;
    std::vector<T> g, ga;   // size N
    std::vector<T> H, Ha;   // size N*N, empty if first order only
    Sh(): v(0), va(0) {}
    Sh(int N, bool second, const T &val): v(val), va(mf::fabs(val)), g(N, T(0)), ga(N, T(0)) {
        if (second) { H.assign(size_t(N) * N, T(0)); Ha = H; }
    }
};

template<class T> Sh<T> apply1(const Sh<T> &x, const T &f, const T &d, const T &dd) {
    Sh<T> r = x;
    const size_t N = x.g.size();
    const T ad = mf::fabs(d), add = mf::fabs(dd);
    r.v = f;
    r.va = mf::fabs(f) + ad * x.va;
    for (size_t i = 0; i < N; ++i) {
        r.g[i] = d * x.g[i];
        r.ga[i] = ad * x.ga[i] + add * x.va * mf::fabs(x.g[i]);
    }
    if (!x.H.empty()) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) {
        const size_t k = i * N + j;
        r.H[k] = d * x.H[k] + dd * x.g[i] * x.g[j];
        // ad + add stands for the size of the third derivative
        r.Ha[k] = ad * x.Ha[k] + add * (x.ga[i] * x.ga[j] + x.va * mf::fabs(x.H[k])) + (ad + add) * x.va * mf::fabs(T(x.g[i] * x.g[j]));
    }
    return r;
}

// natural size of the second derivatives, where a formula may cancel
template<class T> T floor2(int op, const T &x, const T &y) {
    switch (op) {
    case HYPOT: return T(1) / mf::hypot(x, y);
    case ATAN2: return T(1) / (x * x + y * y);
    }
    return T(0);
}

// relative error of the second derivatives for unit relative error of the
// arguments: sizes of the third derivatives divided by those of the second
template<class T> T cond3(int op, const Sh<T> &a, const Sh<T> &b) {
    const T x = a.v, y = b.v, ax = mf::fabs(x), ay = mf::fabs(y);
    switch (op) {
    case DIV: return T(3) * b.va / ay;
    case POW: return x == 0 ? T(0) : T((ay + 3) * a.va / ax + b.va * (x > 0 ? T(mf::fabs(T(mf::log(x)))) : T(0)) + b.va);
    case HYPOT: case ATAN2: return T(3) * (a.va + b.va) / mf::hypot(x, y);
    }
    return T(0);
}

template<class T> Sh<T> apply2(const Sh<T> &x, const Sh<T> &y, const J2<T> &j, const T &fl = T(0), const T &c3 = T(0)) {
    Sh<T> r = x;
    const size_t N = x.g.size();
    const T ax = mf::fabs(j.dx), ay = mf::fabs(j.dy);
    const T axx = T(mf::fabs(j.dxx)) + fl, ayy = T(mf::fabs(j.dyy)) + fl, axy = T(mf::fabs(j.dxy)) + fl;
    r.v = j.f;
    // se: errors of the arguments multiplied by each other, where the first
    // order effect of both vanishes
    const T se(1e-6);
    r.va = mf::fabs(j.f) + ax * x.va + ay * y.va + se * (axx * x.va * x.va + ayy * y.va * y.va + axy * x.va * y.va);
    const T sx = axx * x.va + axy * y.va, sy = ayy * y.va + axy * x.va;
    for (size_t i = 0; i < N; ++i) {
        r.g[i] = j.dx * x.g[i] + j.dy * y.g[i];
        r.ga[i] = ax * x.ga[i] + ay * y.ga[i] + sx * (mf::fabs(x.g[i]) + se * x.ga[i]) + sy * (mf::fabs(y.g[i]) + se * y.ga[i]);
    }
    if (!x.H.empty()) for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < N; ++k) {
        const size_t q = i * N + k;
        r.H[q] = j.dx * x.H[q] + j.dy * y.H[q] + j.dxx * x.g[i] * x.g[k] + j.dyy * y.g[i] * y.g[k]
            + j.dxy * (x.g[i] * y.g[k] + y.g[i] * x.g[k]);
        r.Ha[q] = ax * x.Ha[q] + ay * y.Ha[q] + axx * x.ga[i] * x.ga[k] + ayy * y.ga[i] * y.ga[k]
            + axy * (x.ga[i] * y.ga[k] + y.ga[i] * x.ga[k])
            + sx * (mf::fabs(x.H[q]) + se * x.Ha[q]) + sy * (mf::fabs(y.H[q]) + se * y.Ha[q])
            + c3 * (axx * mf::fabs(T(x.g[i] * x.g[k])) + ayy * mf::fabs(T(y.g[i] * y.g[k])) + axy * (mf::fabs(T(x.g[i] * y.g[k])) + mf::fabs(T(y.g[i] * x.g[k]))));
    }
    return r;
}

} // namespace sh
