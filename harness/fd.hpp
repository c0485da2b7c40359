// Numerical differentiation in quad precision (8th order stencils); the
// reference values of derivatives in C02 and C09 come from here, not from the
// calculus tables of shadow.hpp, which are only compared with them.
#pragma once
#include <functional>
#include <algorithm>
#include "shadow.hpp"
namespace fd {
static const double c1n[4] = { 672, -168, 32, -3 };   // /840
static const double c2n[4] = { 8064, -1008, 128, -9 };  // /5040, centre -14350
template<class F> quad d1(F f, quad x, quad h) {
    quad s = 0;
    for (int k = 1; k <= 4; ++k) s += quad(c1n[k - 1]) * (f(x + k * h) - f(x - k * h));
    return s / (840 * h);
}
template<class F> quad d2(F f, quad x, quad h) {
    quad s = quad(-14350) * f(x);
    for (int k = 1; k <= 4; ++k) s += quad(c2n[k - 1]) * (f(x + k * h) + f(x - k * h));
    return s / (5040 * h * h);
}
// distance from the closest singularity (also complex), roughly
inline double dist1(int op, double x) {
    using namespace sh;
    const double ax = std::fabs(x);
    switch (op) {
    case ABS: case LOG: case LOG10: case LOG2: case SQRT: case CBRT: return ax;
    case LOG1P: return 1 + x;
    case TAN: return std::fabs(std::cos(x));
    case ASIN: case ACOS: case ATANH: return 1 - ax;
    case ACOSH: return std::min(x - 1, 1e300);
    case ATAN: case ASINH: return std::hypot(1.0, x);
    case ERF: case ERFC: return 1 / (1 + ax);
    case TANH: return 1;
    case POS: case NEG: return std::max(1.0, ax);
    }
    return 1;
}
inline quad step1(int op, double x) { return quad(dist1(op, x)) / 2000; }
struct R1 { quad f, d, dd, ddd; };
inline R1 ref1(int op, quad x) {
    const quad h = step1(op, double(x));
    auto f = [op](quad t) { return sh::value1<quad>(op, t); };
    auto g = [op](quad t) { return sh::jet1<quad>(op, t).dd; };
    return R1 { f(x), d1(f, x, h), d2(f, x, h), d1(g, x, h) };
}
struct R2 { quad f, dx, dy, dxx, dyy, dxy; quad t3; };
inline R2 ref2(int op, quad x, quad y, bool ycst) {
    using namespace sh;
    quad hx, hy;
    const double ax = std::fabs(double(x)), ay = std::fabs(double(y)), r = std::hypot(ax, ay);
    switch (op) {
    case DIV: hx = std::max(ax, ay); hy = ay; hx /= 2000; hy /= 2000; break;
    case POW: hx = ax / 2000 / (1 + ay / 4); hy = 1 / quad(2000) / (1 + std::fabs(std::log(ax > 0 ? ax : 1))); break;
    case HYPOT: case ATAN2: hx = hy = quad(r) / 4000; break;
    case FMOD: case REMAINDER: hx = quad(ay) * 1e-5Q; hy = quad(ay) * 0.005Q / (1 + quad(ax / ay)); break;
    case FMAX: case FMIN: hx = hy = quad(std::fabs(double(x - y))) / 100; break;
    default: hx = quad(ax + 1) / 2000; hy = quad(ay + 1) / 2000;
    }
    auto F = [op](quad a, quad b) { return value2<quad>(op, a, b); };
    R2 o;
    o.f = F(x, y);
    auto fx = [&](quad t) { return F(t, y); };
    auto fy = [&](quad t) { return F(x, t); };
    o.dx = d1(fx, x, hx); o.dxx = d2(fx, x, hx);
    o.dy = o.dyy = o.dxy = 0;
    if (!ycst) {
        o.dy = d1(fy, y, hy); o.dyy = d2(fy, y, hy);
        o.dxy = d1([&](quad b) { return d1([&](quad a) { return F(a, b); }, x, hx); }, y, hy);
    }
    // piecewise linear
    if (op == FMOD || op == REMAINDER || op == FMAX || op == FMIN) o.dxx = o.dyy = o.dxy = 0;
    return o;
}
}
