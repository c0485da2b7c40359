// A number that knows whether it has ever been given a value.
#pragma once
#include <cmath>
#include <limits>
#include <iosfwd>
#include <ostream>
#include <string>
#include <map>
#include "h.hpp"

struct Num {
    enum : unsigned { GOOD = 0x600DF00Du, ZERO = 0, MOVED = 0x0BADBEEFu };
    double v;
    unsigned tag;
    // reads of values never assigned, by kind
    struct Log { uint64_t raw = 0, moved = 0, reads = 0, made = 0, frac = 0; };
    static Log &log() { static Log l; return l; }
    static void begin() { log() = Log(); }
    static void end(h::Ctx &c) {
        const Log l = log();
        c.count("reads of the instrumented type", l.reads);
        c.count("objects of the instrumented type", l.made);
        c.check(l.raw == 0, "reads-uninitialized", [&] { return std::to_string(l.raw) + " reads of objects never assigned, last around: " + std::string(h::g_where); });
        c.check(l.moved == 0, "reads-moved-from", [&] { return std::to_string(l.moved) + " reads of objects moved from, last around: " + std::string(h::g_where); });
    }
    double get() const {
        ++log().reads;
        if (tag == GOOD) return v;
        if (tag == ZERO && v == 0) return 0; // value initialized
        if (tag == MOVED) ++log().moved; else ++log().raw;
        return std::numeric_limits<double>::quiet_NaN();
    }
    // a trivial default constructor: indeterminate unless value initialized
    Num() = default;
    Num(int x): v(x), tag(GOOD) { ++log().made; }
    Num(long x): v(double(x)), tag(GOOD) { ++log().made; }
    Num(unsigned x): v(x), tag(GOOD) { ++log().made; }
    Num(unsigned long x): v(double(x)), tag(GOOD) { ++log().made; }
    explicit Num(float x): v(x), tag(GOOD) { ++log().made; }
    explicit Num(double x): v(x), tag(GOOD) { ++log().made; }
    explicit Num(long double x): v(double(x)), tag(GOOD) { ++log().made; }
    // copies are allowed to copy anything, like those of built-in types in
    // aggregates; only uses are judged
    Num(const Num &o): v(o.v), tag(o.tag) { ++log().made; }
    Num(Num &&o) noexcept: v(o.v), tag(o.tag) { o.tag = MOVED; }
    Num &operator=(const Num &o) { v = o.v; tag = o.tag; return *this; }
    Num &operator=(Num &&o) noexcept { if (this != &o) { v = o.v; tag = o.tag; o.tag = MOVED; } return *this; }
    explicit operator double() const { return get(); }
    explicit operator float() const { return float(get()); }
    explicit operator int() const { return int(get()); }
    explicit operator long double() const { return get(); }
    Num &operator+=(const Num &o) { const double r = get() + o.get(); v = r; tag = GOOD; return *this; }
    Num &operator-=(const Num &o) { const double r = get() - o.get(); v = r; tag = GOOD; return *this; }
    Num &operator*=(const Num &o) { const double r = get() * o.get(); v = r; tag = GOOD; return *this; }
    Num &operator/=(const Num &o) { const double r = get() / o.get(); v = r; tag = GOOD; return *this; }
    friend Num operator+(const Num &a, const Num &b) { return Num(a.get() + b.get()); }
    friend Num operator-(const Num &a, const Num &b) { return Num(a.get() - b.get()); }
    friend Num operator*(const Num &a, const Num &b) { return Num(a.get() * b.get()); }
    friend Num operator/(const Num &a, const Num &b) { return Num(a.get() / b.get()); }
    friend Num operator-(const Num &a) { return Num(-a.get()); }
    friend Num operator+(const Num &a) { return Num(a.get()); }
    friend bool operator<(const Num &a, const Num &b) { return a.get() < b.get(); }
    friend bool operator>(const Num &a, const Num &b) { return a.get() > b.get(); }
    friend bool operator<=(const Num &a, const Num &b) { return a.get() <= b.get(); }
    friend bool operator>=(const Num &a, const Num &b) { return a.get() >= b.get(); }
    friend bool operator==(const Num &a, const Num &b) { return a.get() == b.get(); }
    friend bool operator!=(const Num &a, const Num &b) { return a.get() != b.get(); }
#define NUM1(f) friend Num f(const Num &a) { return Num(std::f(a.get())); }
#define NUM2(f) friend Num f(const Num &a, const Num &b) { return Num(std::f(a.get(), b.get())); }
    NUM1(abs) NUM1(fabs) NUM1(exp) NUM1(exp2) NUM1(expm1) NUM1(log) NUM1(log10) NUM1(log2) NUM1(log1p) NUM1(sqrt) NUM1(cbrt)
    NUM1(sin) NUM1(cos) NUM1(tan) NUM1(asin) NUM1(acos) NUM1(atan) NUM1(sinh) NUM1(cosh) NUM1(tanh) NUM1(asinh) NUM1(acosh) NUM1(atanh)
    NUM1(erf) NUM1(erfc) NUM1(trunc) NUM1(round) NUM1(floor) NUM1(ceil)
    NUM2(pow) NUM2(hypot) NUM2(atan2) NUM2(fmod) NUM2(remainder) NUM2(fmax) NUM2(fmin)
    friend Num pow(const Num &a, int b) { return Num(std::pow(a.get(), b)); }
    friend bool isfinite(const Num &a) { return std::isfinite(a.get()); }
    friend bool isnormal(const Num &a) { return std::isnormal(a.get()); }
    friend bool isnan(const Num &a) { return std::isnan(a.get()); }
    friend bool isinf(const Num &a) { return std::isinf(a.get()); }
    friend std::ostream &operator<<(std::ostream &o, const Num &a) { return o << a.get(); }
};
namespace std {
template<> class numeric_limits<Num> {
public:
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = true, has_quiet_NaN = true;
    static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021, max_exponent = 1024;
    static Num epsilon() { return Num(numeric_limits<double>::epsilon()); }
    static Num min() { return Num(numeric_limits<double>::min()); }
    static Num max() { return Num(numeric_limits<double>::max()); }
    static Num lowest() { return Num(numeric_limits<double>::lowest()); }
    static Num infinity() { return Num(numeric_limits<double>::infinity()); }
    static Num quiet_NaN() { return Num(numeric_limits<double>::quiet_NaN()); }
};
}
// for the parts of the oracle written generically
#include "mf.hpp"
namespace mf {
#define NUMMF1(f) inline Num f(const Num &a) { return Num(std::f(a.get())); }
#define NUMMF2(f) inline Num f(const Num &a, const Num &b) { return Num(std::f(a.get(), b.get())); }
MFALL1(NUMMF1)
MFALL2(NUMMF2)
}
#include <Eigen/Core>
namespace Eigen {
template<> struct NumTraits<Num> : GenericNumTraits<Num> {
    typedef Num Real; typedef Num NonInteger; typedef Num Nested; typedef Num Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
    static Num epsilon() { return Num(std::numeric_limits<double>::epsilon()); }
    static Num dummy_precision() { return Num(1e-12); }
    static Num highest() { return Num(std::numeric_limits<double>::max()); }
    static Num lowest() { return Num(std::numeric_limits<double>::lowest()); }
    static int digits10() { return 15; }
};
}
// the memory is never accidentally zero
#include <new>
#include <cstdlib>
#include <cstring>
void *operator new(size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, 0xA5, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
