// C22: a deterministic program that calls every documented function and logs
// what it observes. The log must not depend on how it was compiled.
//  N <name> <value> <scale>   a number, comparable up to rounding of <scale>
//  T <name> <text>            a text (or a boolean, or the kind of an exception)
#pragma once
#include <string>
#include <vector>
#include <functional>
namespace c22 {
void N(const std::string &name, double v, double scale);
void T(const std::string &name, const std::string &text);
void first();    // first order, without Eigen
void firstf();
void second_e();
void second_m();
void other();    // Eigen and mixtures
void programs(const char *file);
extern std::string ctx;
template<class F> void X(const std::string &name, F f) {
    try { f(); T(name, "no exception"); }
    catch (const std::exception &e) { T(name, e.what()); }
}
}
