#include "c22.hpp"
#include <cstdio>
#include <cstring>
namespace c22 {
std::string ctx;
static FILE *out = stdout;
void N(const std::string &name, double v, double scale) { std::fprintf(out, "N\t%s\t%.17g\t%.6g\n", name.c_str(), v, scale); }
void T(const std::string &name, const std::string &text) {
    std::string t;
    for (char c : text) t += c == '\n' || c == '\t' ? ' ' : c;
    std::fprintf(out, "T\t%s\t%s\n", name.c_str(), t.c_str());
}
}
int main(int argc, char **argv) {
    c22::out = std::fopen(argv[1], "w");
    if (!c22::out) return 3;
    c22::first();
#ifndef C22_ONLY_FIRST
    c22::second_e();
    c22::second_m();
    c22::firstf();
    c22::other();
    c22::programs(argv[2]);
#endif
    std::fprintf(c22::out, "END\n");
    return std::fclose(c22::out);
}
