// C14: formatted text is parsed back and judged against the numbers.
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>
#include "h.hpp"
#include "mf.hpp"
#include <iomanip>
namespace unc = uncertainties;
typedef quad Q;

struct Num { bool ok, neg; std::string digits; int dec; bool point; }; // digits without the point
static Num parse(const std::string &t) {
    Num n { false, false, "", 0, false };
    size_t i = 0;
    if (i < t.size() && t[i] == '-') { n.neg = true; ++i; }
    bool any = false;
    for (; i < t.size(); ++i) {
        if (t[i] == '.') { if (n.point || !any) return n; n.point = true; }
        else if (t[i] >= '0' && t[i] <= '9') { n.digits += t[i]; any = true; if (n.point) ++n.dec; }
        else return n;
    }
    if (!any || (n.point && n.dec == 0)) return n;
    // no superfluous leading zeros
    if (n.digits.size() > 1 && n.digits[0] == '0' && int(n.digits.size()) - n.dec > 1) return n;
    n.ok = true;
    return n;
}
static bool parse_exp(const std::string &t, int &e) {
    if (t.empty()) return false;
    size_t i = t[0] == '-' || t[0] == '+' ? 1 : 0;
    if (i >= t.size()) return false;
    for (size_t k = i; k < t.size(); ++k) if (t[k] < '0' || t[k] > '9') return false;
    e = std::atoi(t.c_str());
    return true;
}
static Q p10(int e) { return powq(Q(10), Q(e)); }
static Q value(const Num &n, int e) { // |value|
    Q v = 0;
    for (char ch : n.digits) v = v * 10 + (ch - '0');
    return v * p10(e - n.dec);
}
static std::string show(const std::string &what, const std::string &text) { return what + " -> \"" + text + "\""; }

// text of a single number with six significant digits, or 0, nan, inf
template<class R> static void judge_six(h::Ctx &c, const std::string &t, R x, const std::string &d) {
    const double eps = double(std::numeric_limits<R>::epsilon());
    c.eval();
    if (x != x) { if (t != "nan") c.viol("nan", d); return; }
    if (std::isinf(x)) { if (t != (x > 0 ? "inf" : "-inf")) c.viol("inf", d); return; }
    if (x == 0) { Num n = parse(t); if (!n.ok || value(n, 0) != 0) c.viol("zero", d); return; }
    const size_t k = t.find('e');
    int e = 0;
    const Num n = parse(t.substr(0, k));
    if (!n.ok || (k != std::string::npos && !parse_exp(t.substr(k + 1), e))) { c.viol("six:syntax", d); return; }
    if (n.neg != (x < 0)) { c.viol("six:sign", d); return; }
    size_t z = 0; while (z < n.digits.size() && n.digits[z] == '0') ++z;
    if (n.digits.size() - z != 6) { c.viol("six:digits", d); return; }
    const Q ax = fabsq(Q(x)), err = fabsq(value(n, e) - ax), unit = p10(e - n.dec);
    if (!(err <= unit / 2 + Q(16 * eps) * ax + Q(std::numeric_limits<R>::denorm_min()))) c.viol("six:rounding", d);
}

template<class R> static void judge(h::Ctx &c, const std::string &text, R mu, R s, float errdig, const std::string &sep, const std::string &what) {
    const std::string d = show(what, text);
    c.eval();
    const double eps = double(std::numeric_limits<R>::epsilon());
    const size_t k = text.find(sep);
    if (k == std::string::npos || text.find(sep, k + 1) != std::string::npos) { c.viol("separator", d); return; }
    std::string a = text.substr(0, k), b = text.substr(k + sep.size());
    if (!std::isfinite(mu) || !std::isfinite(s) || s == 0) { judge_six(c, a, mu, d); judge_six(c, b, s, d); return; }
    int e = 0;
    if (a[0] == '(') {
        a = a.substr(1);
        const size_t q = b.find(")e");
        if (q == std::string::npos || !parse_exp(b.substr(q + 2), e)) { c.viol("syntax", d); return; }
        b = b.substr(0, q);
        c.count("with exponent");
    } else c.count("without exponent");
    const Num m = parse(a), u = parse(b);
    if (!m.ok || !u.ok || u.neg) { c.viol("syntax", d); return; }
    const Q vm = value(m, e), vs = value(u, e), am = fabsq(Q(mu)), as = Q(s);
    // last digits aligned
    if (m.dec != u.dec) { c.viol("alignment", d); return; }
    const int P = e - u.dec;
    const Q unit = p10(P), tiny = Q(std::numeric_limits<R>::denorm_min());
    const Q relm = Q(eps) * (16 + Q(m.digits.size()));
    if (!(fabsq(vm - am) <= unit / 2 + relm * am + tiny)) { c.viol("mean-rounding", d); return; }
    if (!(fabsq(vs - as) <= unit / 2 + Q(16 * eps) * as + tiny)) { c.viol("sdev-rounding", d); return; }
    // sign
    if (vm != 0 ? m.neg != (mu < 0) : (m.neg && !(mu < 0) && !std::signbit(mu))) { c.viol("sign", d); return; }
    // number of digits
    size_t z = 0; while (z < u.digits.size() && u.digits[z] == '0') ++z;
    const int nd = int(u.digits.size() - z);
    const int ni = int(std::floor(errdig));
    const double f = double(errdig) - ni;
    const double lg = double(log10q(as)), l = lg - std::floor(lg);
    const double margin = 1e-4 + 1e-6 * std::fabs(lg);
    bool ok = false;
    if (nd == ni + (l < f ? 1 : 0)) ok = true;
    if (!ok && std::fabs(l - f) < margin && (nd == ni || nd == ni + 1)) ok = true;
    if (!ok && (l < margin || l > 1 - margin) && (nd == ni || nd == ni + 1)) ok = true;
    // rounding up to a power of ten with the lower number of digits
    if (!ok && f > 0 && nd == ni + 1) { const Q mant = as / p10(int(std::floor(lg))); if (mant >= 10 - Q(0.5001) * p10(1 - ni)) { ok = true; c.count("uncertainty rounded up to a power of ten"); } }
    if (!ok) { c.viol("digits", d + " (" + std::to_string(nd) + " digits)"); return; }
    c.count(nd == ni ? "lower number of digits" : "upper number of digits");
    if (am == 0) c.count("zero mean"); else if (am < unit / 2) c.count("mean rounded to zero"); else if (am < as) c.count("mean smaller than the uncertainty"); else c.count("mean larger than the uncertainty");
}

template<class R> static R gen_num(h::Rng &r, double lo, double hi) {
    const int k = r.below(7);
    double x;
    if (k == 0) x = r.range(1, 9) * std::pow(10.0, std::floor(r.uni(lo, hi)));                       // one digit
    else if (k == 1) x = (10 - r.range(0, 60) * 0.01) * std::pow(10.0, std::floor(r.uni(lo, hi)));   // carries
    else if (k == 2) x = (r.range(10, 99) + 0.5) * std::pow(10.0, std::floor(r.uni(lo, hi)) - 1);    // ties
    else if (k == 3) x = std::pow(10.0, std::floor(r.uni(lo, hi))) * (1 + (r.below(5) - 2) * 1e-15);
    else if (k == 4) x = (9 + r.pick(std::vector<double>{ 0.4, 0.49, 0.5, 0.51, 0.9, 0.94, 0.95, 0.96, 0.99, 0.994, 0.995, 0.996, 0.999 })) * std::pow(10.0, std::floor(r.uni(lo, hi)));
    else x = r.logu(lo, hi);
    return R(x);
}
template<class R> struct Mk {
    static unc::UReal<R> one(R mu, R s) { return unc::UReal<R>(mu, s); }
};
template<class R> static void one(h::Ctx &c, const char *tn) {
    h::Rng &r = c.rng;
    const bool fl = sizeof(R) == 4;
    const int d10 = std::numeric_limits<R>::digits10;
    const bool edge = r.chance(0.05);  // up to the ends of the range, subnormal numbers too
    const double lo = fl ? edge ? -44 : -37 : edge ? -322 : -305, hi = fl ? edge ? 38.5 : 37 : edge ? 308.2 : 305;
    float errdig = r.chance(0.4) ? 1.5f : r.chance(0.5) ? float(r.range(2, fl ? 4 : 8)) : float(r.uni(1.01, fl ? 4 : 10));
    const bool extreme = edge || r.chance(0.2);
    R s = extreme ? gen_num<R>(r, lo, hi) : gen_num<R>(r, -6, 6);
    R mu;
    const bool huge = r.chance(0.08); // more digits than the type has
    const int mk = r.below(10);
    if (huge) {
        const double ls = std::log10(double(s));
        mu = gen_num<R>(r, std::min(ls + d10 - 3, hi), r.chance(0.5) ? hi : std::min(hi, ls + 2 * d10));
        c.count("more digits than the type has");
    }
    else if (mk == 0) mu = 0;
    else if (mk == 1) mu = R(s * R(r.normal()));
    else {
        // ratio such that the digits of the mean fit
        const double maxr = d10 - std::floor(errdig) - 2;
        const double ls = std::log10(double(s));
        double l = ls + r.uni(-6, maxr);
        if (extreme && r.chance(0.3)) l = ls - r.uni(0, 200);
        if (l > hi) l = hi;
        if (l < lo) l = lo;
        mu = gen_num<R>(r, l, l);
        if (r.chance(0.3)) mu = R(std::round(double(mu / s)) * double(s));
        if (r.chance(0.2)) { // half unit ties of the mean
            const double unit = std::pow(10.0, std::floor(ls) - (std::floor(errdig) - 1));
            const double k = std::floor(std::fabs(double(mu)) / unit);
            if (k < 1e15 && std::isfinite(k * unit)) mu = R((k + 0.5) * unit);
        }
    }
    if (!std::isfinite(s) || !std::isfinite(mu) || s == 0) { c.count("out of range"); return; }
    if (std::numeric_limits<R>::max_exponent10 > 4000 && r.chance(0.2)) {
        const R K = R(std::pow(10.0L, (long double)(r.range(-4500, 4500))));
        mu *= K; s *= K;
        c.count("exponents beyond those of double");
    }
    if (edge) c.count("ends of the range");
    if (r.chance(0.5)) mu = -mu;
    if (!huge && mu != 0 && double(log10q(fabsq(Q(mu)) / Q(s))) + std::floor(errdig) + 1 > d10) { c.count("needs more digits than the type has"); return; }
    const int special = r.below(25);
    if (special == 0) s = 0;
    if (special == 1) s = std::numeric_limits<R>::infinity();
    if (special == 2) mu = std::numeric_limits<R>::infinity();
    if (special == 3) mu = -std::numeric_limits<R>::infinity();
    if (special == 4) mu = std::numeric_limits<R>::quiet_NaN();
    if (special == 5) s = std::numeric_limits<R>::quiet_NaN();
    static const std::vector<std::string> seps { " ± ", "+/-", " pm ", "|", "\n", "+-+-" };
    const std::string sep = r.chance(0.5) ? " ± " : r.pick(seps);
    std::ostringstream o; o.precision(21);
    o << tn << " mean " << (long double)mu << " s " << (long double)s << " errdig " << std::setprecision(9) << errdig;
    const std::string what = o.str();
    h::where(what);
    unc::UReal<R> x(mu, s);
    const unc::UReal<R> &cx = x;
    const std::string t = unc::format(cx, errdig, sep);
    judge(c, t, mu, s, errdig, sep, what);
    c.count(std::isfinite(mu) && std::isfinite(s) ? s == 0 ? "without uncertainty" : "finite" : "not finite");
    auto eq = [&](const char *key, const std::string &a, const std::string &b) { c.check(a == b, key, [&] { return what + " \"" + a + "\" \"" + b + "\""; }); };
    eq("member-differs", x.format(errdig, sep), t);
    eq("member-differs", cx.format(errdig, sep), t);
    const std::string td = unc::format(cx, errdig);
    const size_t k = t.find(sep);
    if (k != std::string::npos) eq("separator-changes-text", t.substr(0, k) + " ± " + t.substr(k + sep.size()), td);
    eq("member-differs", x.format(errdig), td);
    const std::string t0 = unc::format(cx);
    if (huge || mu == 0 || s == 0 || !std::isfinite(mu) || !std::isfinite(s) || double(log10q(fabsq(Q(mu)) / Q(s))) + 2 <= d10) {
        judge(c, t0, mu, s, 1.5f, " ± ", what + " (default)");
        eq("default-differs", unc::format(cx, 1.5f, " ± "), t0);
        eq("member-differs", x.format(), t0);
        std::ostringstream q; q << std::setprecision(2) << std::hex << std::showpos << std::fixed << x << '\n' << 10;
        std::ostringstream w; w << std::setprecision(2) << std::hex << std::showpos << std::fixed << t0 << '\n' << 10;
        eq("stream-differs", q.str(), w.str());
    }
    // a constant and a plain number
    const unc::UReal<R> cst(mu);
    const std::string tc = unc::format(cst), tp = unc::format(mu);
    judge(c, tc, mu, R(0), 1.5f, " ± ", what + " (constant)");
    eq("plain-number-differs", tp, tc);
    // second order: same text as the first order with the same n() and s()
    if (special > 5 || special == 0) {
        const double sc = double(s);
        (void)sc;
        const unc::UReal2<R, unc::Prop::est> e(mu, s, {{0, 3, 0, 15, 0, 105}}, R(-1));
        const unc::UReal2<R, unc::Prop::mean> m(mu, s, {{0, 3, 0, 15, 0, 105}}, R(-1));
        const R es = e.s(), ms = m.s();
        if (e.n() == mu && es > 0 && std::isfinite(es) && (mu == 0 || double(log10q(fabsq(Q(mu)) / Q(es))) + std::floor(errdig) + 1 <= d10)) {
            eq("second-order-differs", unc::format(e, errdig, sep), unc::format(unc::UReal<R>(e.n(), es), errdig, sep));
            eq("second-order-differs", m.format(errdig, sep), unc::format(unc::UReal<R>(m.n(), ms), errdig, sep));
            std::ostringstream q; q << e; eq("stream-differs", q.str(), unc::format(e));
            // different mean in the two modes
            const unc::UReal2<R, unc::Prop::est> ye = unary(e, mu, R(1), R(0.1) / s);
            const unc::UReal2<R, unc::Prop::mean> ym = unary(m, mu, R(1), R(0.1) / s);
            const R yn = ye.n(), ys = ye.s(), zn = ym.n(), zs = ym.s();
            auto fits = [&](R n, R q) { return std::isfinite(n) && q > 0 && std::isfinite(q) && (n == 0 || double(log10q(fabsq(Q(n)) / Q(q))) + std::floor(errdig) + 1 <= d10); };
            if (fits(yn, ys) && fits(zn, zs)) {
                judge(c, unc::format(ye, errdig, sep), yn, ys, errdig, sep, what + " (curved, est)");
                judge(c, unc::format(ym, errdig, sep), zn, zs, errdig, sep, what + " (curved, mean)");
                c.count("second order");
            }
        }
    }
    // fewer than one digit
    const float bad = r.chance(0.5) ? float(r.uni(-3, 0.999)) : r.pick(std::vector<float>{ 0.f, 0.5f, 0.99f, -1.f, -1e30f, -std::numeric_limits<float>::infinity() });
    bool thrown = false;
    try { unc::format(cx, bad); } catch (const std::invalid_argument &) { thrown = true; }
    c.check(thrown, "invalid-digits-accepted", [&] { return what + " errdig " + h::num(bad); });
    c.distinct(h::hash_str(what));
    c.sample(show(what, t));
}
void run_case(h::Ctx &c) {
    switch (c.rng.below(5)) {
    case 0: case 1: case 2: one<double>(c, "double"); break;
    case 3: one<float>(c, "float"); break;
    case 4: one<long double>(c, "long double"); break;
    }
}
void run_once(h::Ctx &c) {
    // every mantissa of the uncertainty with three digits, several numbers of digits, signs and scales
    for (int e = -3; e <= 3; ++e) for (int m = 100; m < 1000; ++m) for (float dg : { 1.001f, 1.25f, 1.5f, 2.0f, 2.5f, 3.0f }) for (double mu : { 0.0, 1.0, -0.0999, 99.95, 0.05, -12345.6 }) {
        const double s = m * std::pow(10.0, e - 2);
        const unc::udouble x(mu, s);
        std::ostringstream o; o.precision(17); o << "grid mean " << mu << " s " << s << " errdig " << dg;
        h::where(o.str());
        judge(c, unc::format(x, dg), mu, s, dg, " ± ", o.str());
    }
    c.count("exhaustive three digit mantissas", 900);
}
