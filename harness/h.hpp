// Runner shared by all the harnesses: deterministic case numbering, event
// counters, violation log, crash attribution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

namespace h {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1): s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    int below(int n) { return int(next() % uint64_t(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    int sign() { return chance(0.5) ? 1 : -1; }
    bool chance(double p) { return uni() < p; }
    double normal() {
        double a = uni(), b = uni();
        return std::sqrt(-2 * std::log(1 - a)) * std::cos(6.283185307179586 * b);
    }
    double logu(double lo10, double hi10) { return std::pow(10.0, uni(lo10, hi10)); }
    template<class C> typename C::value_type pick(const C &c) { return c[below(int(c.size()))]; }
    template<class T> void shuffle(std::vector<T> &v) {
        for (int i = int(v.size()) - 1; i > 0; --i) std::swap(v[i], v[below(i + 1)]);
    }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a ^ (b * 0x9e3779b97f4a7c15ULL + 0x7f4a7c159e3779b9ULL));
    r.next();
    return r.next();
}
inline uint64_t hash_str(const std::string &s) {
    uint64_t x = 1469598103934665603ULL;
    for (unsigned char c : s) { x ^= c; x *= 1099511628211ULL; }
    return x;
}
inline uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

inline std::string num(double x) { char b[64]; std::snprintf(b, sizeof b, "%.17g", x); return b; }

// ---- crash attribution -------------------------------------------------
extern volatile long long g_case;
extern char g_where[512];

inline void where(const std::string &s) {
    std::strncpy(g_where, s.c_str(), sizeof(g_where) - 1);
    g_where[sizeof(g_where) - 1] = 0;
}

// positive while the runner does its own bookkeeping, for the harnesses that
// count allocations
inline int &book() { static int b = 0; return b; }
struct Book { Book() { ++book(); } ~Book() { --book(); } };

struct Ctx {
    uint64_t seed = 1;
    bool thorough = false;
    long long idx = 0;
    Rng rng;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct_set;
    std::vector<std::string> samples;
    uint64_t nviol = 0, nevals = 0;
    std::map<std::string, int> viol_keys;

    void count(const std::string &k, uint64_t n = 1) { Book b; counters[k] += n; }
    void eval(uint64_t n = 1) { nevals += n; }
    void distinct(uint64_t hsh) { Book b; if (distinct_set.size() < 400000) distinct_set.insert(hsh); }
    void sample(const std::string &s) { Book b; if (samples.size() < 3) samples.push_back(s); }
    // key: stable identification of what fails (matched against known findings)
    void viol(const std::string &key, const std::string &msg) {
        Book b;
        ++nviol;
        if (viol_keys[key]++ < 3 && nviol < 60) {
            std::string m = msg;
            for (auto &c : m) if (c == '\n') c = '|';
            std::printf("@VIOL case=%lld key=%s :: %s\n", idx, key.c_str(), m.c_str());
            std::fflush(stdout);
        }
    }
    bool check(bool ok, const std::string &key, const std::function<std::string()> &msg) {
        eval();
        if (!ok) viol(key, msg());
        return ok;
    }
};

} // namespace h

// to be defined by each harness
void run_case(h::Ctx &ctx);      // one generated case; ctx.rng is seeded
void run_once(h::Ctx &ctx);      // fixed part, executed by shard 0 only

#ifndef H_NO_MAIN
volatile long long h::g_case = -2;
char h::g_where[512] = "";

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
namespace h {
static void emit_crash() {
    char b[700];
    int n = std::snprintf(b, sizeof b, "@CRASH case=%lld where=%s\n", (long long)g_case, g_where);
    if (n > 0) { ssize_t r = write(1, b, size_t(n)); (void)r; }
}
static void on_signal(int sig) {
    emit_crash();
    signal(sig, SIG_DFL);
    raise(sig);
}
// Watchdog on the processor time (not the wall time: the machine may be
// loaded) and the memory used by a single case.
static long long wd_case = -100;
static int wd_ticks = 0, wd_limit = 30;
static void on_tick(int) {
    const long long c = g_case;
    if (c != wd_case) { wd_case = c; wd_ticks = 0; }
    else ++wd_ticks;
    long pages = 0;
    const int fd = open("/proc/self/statm", O_RDONLY);
    if (fd >= 0) {
        char b[100];
        const ssize_t n = read(fd, b, sizeof b - 1);
        close(fd);
        int i = 0;
        while (i < n && b[i] != ' ') ++i;
        for (++i; i < n && b[i] >= '0' && b[i] <= '9'; ++i) pages = pages * 10 + (b[i] - '0');
    }
    const bool mem = pages > 3000000000l / 4096;
    // the fixed part (-1) is many cases together
    if (!mem && wd_ticks < (c == -1 ? 4 * wd_limit : wd_limit)) return;
    char b[700];
    int n = std::snprintf(b, sizeof b, "@HANG kind=%s case=%lld where=%s\n", mem ? "memory" : "time", c, g_where);
    if (n > 0) { ssize_t r = write(1, b, size_t(n)); (void)r; }
    _exit(5);
}
}
int main(int argc, char **argv) {
    h::Ctx ctx;
    long long lo = 0, hi = 1000;
    int shard = 0, nshards = 1;
    double maxsec = 1e9;
    std::string out;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") ctx.seed = std::stoull(v);
        else if (a == "--lo") lo = std::stoll(v);
        else if (a == "--hi") hi = std::stoll(v);
        else if (a == "--shard") shard = std::stoi(v);
        else if (a == "--nshards") nshards = std::stoi(v);
        else if (a == "--tier") ctx.thorough = v == "thorough";
        else if (a == "--maxsec") maxsec = std::stod(v);
        else if (a == "--out") out = v;
    }
    std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    __sanitizer_set_death_callback(h::emit_crash);
    std::signal(SIGABRT, h::on_signal);
#else
    std::signal(SIGABRT, h::on_signal);
    std::signal(SIGSEGV, h::on_signal);
    std::signal(SIGFPE, h::on_signal);
#endif
    if (const char *l = std::getenv("H_HANG_LIMIT")) h::wd_limit = std::atoi(l);
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = h::on_tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval tv;
    tv.it_interval.tv_sec = tv.it_value.tv_sec = 1;
    tv.it_interval.tv_usec = tv.it_value.tv_usec = 0;
    setitimer(ITIMER_PROF, &tv, nullptr);
    auto t0 = std::chrono::steady_clock::now();
    long long done = 0;
    if (shard == 0 && lo == 0) {
        h::g_case = -1; ctx.idx = -1;
        ctx.rng = h::Rng(h::mix(ctx.seed, 0xABCDEF));
        try { run_once(ctx); }
        catch (const std::exception &e) { ctx.viol("unexpected-exception", std::string("fixed part: ") + h::g_where + ": " + e.what()); }
    }
    for (long long c = lo + shard; c < hi; c += nshards) {
        if ((done & 15) == 0) {
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (dt > maxsec) { ctx.count("stopped_by_time_budget"); break; }
        }
        h::g_case = c; ctx.idx = c;
        ctx.rng = h::Rng(h::mix(ctx.seed, uint64_t(c)));
        try { run_case(ctx); }
        catch (const std::exception &e) { ctx.viol("unexpected-exception", std::string(h::g_where) + ": " + e.what()); }
        ++done;
    }
    h::g_case = -3;
    ctx.count("cases", uint64_t(done));
    if (!out.empty()) {
        FILE *f = std::fopen(out.c_str(), "w");
        if (!f) return 3;
        std::fprintf(f, "E %llu\nV %llu\n", (unsigned long long)ctx.nevals, (unsigned long long)ctx.nviol);
        for (auto &k : ctx.counters) std::fprintf(f, "C %llu %s\n", (unsigned long long)k.second, k.first.c_str());
        for (auto &s : ctx.samples) {
            std::string m = s; for (auto &c : m) if (c == '\n') c = ' ';
            std::fprintf(f, "S %s\n", m.c_str());
        }
        for (auto d : ctx.distinct_set) std::fprintf(f, "D %llx\n", (unsigned long long)d);
        std::fprintf(f, "END\n");
        std::fclose(f);
    }
    std::printf("@DONE cases=%lld viol=%llu\n", done, (unsigned long long)ctx.nviol);
    std::fflush(stdout);
    return ctx.nviol ? 1 : 0;
}
#endif
