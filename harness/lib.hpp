// Adapters between the program model and the real headers.
#pragma once
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/functions.hpp>
#include "prog.hpp"
namespace unc = uncertainties;

namespace prog {

template<class Real> struct Ops<unc::UReal<Real>> {
    using U = unc::UReal<Real>;
    static constexpr bool second = false;
    static U make(const Real &n, const Real &s, int) { return U(n, s); }
    static const Real &n(const U &x) { return x.n(); }
    static void inplace(const Ins &i, U &d, const U *x) {
        using namespace sh;
        if (x && !i.temp) {
            switch (i.op) {
            case ADD: d += *x; return;
            case SUB: d -= *x; return;
            case MUL: d *= *x; return;
            case DIV: d /= *x; return;
            }
        }
        if (x) {
            switch (i.op) {
            case ADD: d += U(*x); return;
            case SUB: d -= U(*x); return;
            case MUL: d *= U(*x); return;
            case DIV: d /= U(*x); return;
            }
        }
        const Real c(i.c);
        switch (i.op) {
        case ADD: d += c; return;
        case SUB: d -= c; return;
        case MUL: d *= c; return;
        case DIV: d /= c; return;
        }
    }
    static U user1(const U &x, const std::vector<double> &k) {
        const Real xn = x.n();
        return unary(x, Real(Real(k[0]) + Real(k[1]) * xn + Real(k[2]) * xn * xn), Real(Real(k[1]) + 2 * Real(k[2]) * xn));
    }
    static U user2(const U &x, const U &y, const std::vector<double> &k) {
        const Real xn = x.n(), yn = y.n();
        const sh::J2<Real> j = poly2jet<Real>(k, xn, yn);
        return binary(x, y, j.f, j.dx, j.dy);
    }
    static void nary_(U &d, const std::vector<U> &R, const Ins &i) {
        std::vector<U> x;
        std::vector<Real> c;
        Real m(0);
        for (size_t k = 0; k < i.args.size(); ++k) {
            x.push_back(R[size_t(i.args[k])]);
            c.push_back(Real(i.coef[k]));
            m += c.back() * x.back().n();
        }
        d = nary(x.begin(), x.end(), m, c.begin());
    }
    static void chnom(U &d, const U &x, const Real &c) { d = change_nom(x, c); }
};

template<class Real, unc::Prop P> struct Ops<unc::UReal2<Real, P>> {
    using U = unc::UReal2<Real, P>;
    static constexpr bool second = true;
    static U make(const Real &n, const Real &s, int mom) {
        std::array<Real, 6> m;
        for (int k = 0; k < 6; ++k) m[size_t(k)] = Real(momsets()[size_t(mom)].m[size_t(k)]);
        return U(n, s, m, Real(-1));
    }
    static const Real &n(const U &x) { return x.first_order_n(); }
    static void inplace(const Ins &i, U &d, const U *x) {
        // second order in-place operation: binary_assign
        const U tmp = x ? (i.temp ? U(*x) : U()) : U(Real(i.c));
        const U &y = x && !i.temp ? *x : tmp;
        const Real a = d.first_order_n(), b = y.first_order_n();
        const sh::J2<Real> j = sh::jet2<Real>(i.op, a, b, false);
        binary_assign(d, y, j.f, j.dx, j.dy, j.dxx, j.dyy, j.dxy);
    }
    static U user1(const U &x, const std::vector<double> &k) {
        const Real xn = x.first_order_n();
        return unary(x, Real(Real(k[0]) + Real(k[1]) * xn + Real(k[2]) * xn * xn),
                     Real(Real(k[1]) + 2 * Real(k[2]) * xn), Real(2 * Real(k[2])));
    }
    static U user2(const U &x, const U &y, const std::vector<double> &k) {
        const Real xn = x.first_order_n(), yn = y.first_order_n();
        const sh::J2<Real> j = poly2jet<Real>(k, xn, yn);
        return binary(x, y, j.f, j.dx, j.dy, j.dxx, j.dyy, j.dxy);
    }
    static void nary_(U &, const std::vector<U> &, const Ins &) { std::abort(); }
    static void chnom(U &, const U &, const Real &) { std::abort(); }
};

// ---- tolerances ----------------------------------------------------------
template<class Q, class T> struct Tol {
    double rtol; // relative to the magnitude of the summed terms
    double kdisc;
    Tol(): rtol(2e4 * double(std::numeric_limits<T>::epsilon())), kdisc(200) {}
    Tol(double m, double k): rtol(m * double(std::numeric_limits<T>::epsilon())), kdisc(k) {}
    double v(const sh::Sh<Q> &q, const sh::Sh<T> &t) const {
        return rtol * double(q.va) + kdisc * std::fabs(double(Q(t.v) - q.v));
    }
    double g(const sh::Sh<Q> &q, const sh::Sh<T> &t, size_t i) const {
        return rtol * double(q.ga[i]) + kdisc * std::fabs(double(Q(t.g[i]) - q.g[i]));
    }
    double H(const sh::Sh<Q> &q, const sh::Sh<T> &t, size_t i) const {
        return rtol * double(q.Ha[i]) + kdisc * std::fabs(double(Q(t.H[i]) - q.H[i]));
    }
};

#ifndef H_NO_EXTERN
extern template struct LibExec<unc::udouble>;
extern template struct LibExec<unc::udouble2e>;
extern template struct LibExec<unc::udouble2m>;
#endif
} // namespace prog
