// Math functions with one name for double, long double, __float128 and (if
// H_MPFR) boost multiprecision numbers; used by the oracles only.
#pragma once
#include <cmath>
#ifndef H_NO_QUAD
#include <quadmath.h>
typedef __float128 quad;
#endif
namespace mf {
#define MF1(name) \
    inline float name(float x) { return std::name(x); } \
    inline double name(double x) { return std::name(x); } \
    inline long double name(long double x) { return std::name(x); }
#define MF2(name) \
    inline float name(float x, float y) { return std::name(x, y); } \
    inline double name(double x, double y) { return std::name(x, y); } \
    inline long double name(long double x, long double y) { return std::name(x, y); }
#define MFALL1(M) M(exp) M(exp2) M(expm1) M(log) M(log10) M(log2) M(log1p) M(sqrt) M(cbrt) \
    M(sin) M(cos) M(tan) M(asin) M(acos) M(atan) M(sinh) M(cosh) M(tanh) M(asinh) M(acosh) M(atanh) \
    M(erf) M(erfc) M(trunc) M(round) M(floor) M(fabs)
#define MFALL2(M) M(pow) M(hypot) M(atan2) M(fmod) M(remainder) M(fmax) M(fmin)
MFALL1(MF1)
MFALL2(MF2)
#ifndef H_NO_QUAD
#define MFQ1(name) inline quad name(quad x) { return ::name##q(x); }
#define MFQ2(name) inline quad name(quad x, quad y) { return ::name##q(x, y); }
#define MFQALL1(M) M(exp) M(expm1) M(log) M(log10) M(log2) M(log1p) M(sqrt) M(cbrt) \
    M(sin) M(cos) M(tan) M(asin) M(acos) M(atan) M(sinh) M(cosh) M(tanh) M(asinh) M(acosh) M(atanh) \
    M(erf) M(erfc) M(trunc) M(round) M(floor) M(fabs)
MFQALL1(MFQ1)
MFALL2(MFQ2)
inline quad exp2(quad x) { return ::powq(quad(2), x); }
#endif
#ifdef H_MPFR
using boost::multiprecision::number;
#define MFB1(name) template<class B, boost::multiprecision::expression_template_option E> \
    number<B, E> name(const number<B, E> &x) { using boost::multiprecision::name; return number<B, E>(name(x)); }
#define MFB2(name) template<class B, boost::multiprecision::expression_template_option E> \
    number<B, E> name(const number<B, E> &x, const number<B, E> &y) { using boost::multiprecision::name; return number<B, E>(name(x, y)); }
#define MFBALL1(M) M(exp) M(exp2) M(expm1) M(log) M(log10) M(log2) M(log1p) M(sqrt) M(cbrt) \
    M(sin) M(cos) M(tan) M(asin) M(acos) M(atan) M(sinh) M(cosh) M(tanh) M(asinh) M(acosh) M(atanh) \
    M(erf) M(erfc) M(trunc) M(round) M(floor) M(fabs)
MFBALL1(MFB1)
MFALL2(MFB2)
#endif
template<class T> inline T pi() { return T(4) * atan(T(1)); }
}
