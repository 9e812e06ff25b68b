// Native side of the contract language: the same harness, linked with the real code, executed on
// concrete inputs (solver model replay, or contract-driven search).
#include "vspec.h"
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <string>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace {
std::mt19937_64 rng;
std::map<std::string, std::deque<std::string>> fixed;
bool replay = false;
std::vector<std::pair<std::string, std::string>> trace;
std::vector<double> seenf;
std::vector<uint64_t> seenu;
sigjmp_buf jb;
volatile bool in_run = false;
std::set<std::string> covers;
std::string failname;
unsigned long runs = 0, accepted = 0;
std::vector<void*> blocks;
char const* hname = "";
bool allow_timeout = false;

double U() { return std::uniform_real_distribution<double>(0, 1)(rng); }
uint64_t R(uint64_t n) { return n ? rng() % n : 0; }

void dump(char const* kind)
{
    std::printf("FAIL harness=%s obligation=%s\n", hname, kind);
    for (auto const& p : trace)
        std::printf("INPUT %s %s\n", p.first.c_str(), p.second.c_str());
    std::fflush(stdout);
}
void rec(char const* n, double v)
{
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", v);
    trace.emplace_back(n, b);
}
void recu(char const* n, uint64_t v, bool sg = false)
{
    trace.emplace_back(n, sg ? std::to_string((int64_t)v) : std::to_string(v));
}
bool fix(char const* n, std::string& out)
{
    if (!replay) return false;
    auto i = fixed.find(n);
    if (i == fixed.end() || i->second.empty()) return false;
    out = i->second.front();
    i->second.pop_front();
    return true;
}
double const SPEC[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 10.0, 90.0, -90.0, 180.0, -180.0, 360.0, -360.0,
    255.0, 256.0, -1e-12, 1e-12, 32767.0, 32768.0, -32768.0, -32769.0, 2147483647.0, 2147483648.0, -2147483648.0,
    -2147483649.0, 9223372036854775807.0, -9223372036854775808.0, 1e300, -1e300, 5e-324,
    std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), std::numeric_limits<double>::infinity(),
    -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
    3.14159265358979323846, 1.57079632679489661923, 0.25, 45.0, 89.999999999999986, 90.000000000000014,
    360.00000000000006, 254.99999999999997, 0.49999999999999994};
double gen()
{
    switch (R(8)) {
    case 0: case 1: return SPEC[R(sizeof SPEC / sizeof *SPEC)];
    case 2: return double(int64_t(R(41)) - 20);
    case 3: return (U() - .5) * 2000;
    case 4: return (U() - .5) * 4;
    case 5: return std::ldexp(U() - .5, int(R(60)) - 30);
    default:
        if (!seenf.empty()) {
            double v = seenf[R(seenf.size())];
            switch (R(6)) {
            case 0: return std::nextafter(v, 1e308);
            case 1: return std::nextafter(v, -1e308);
            case 2: return -v;
            case 3: return v + 1;
            default: return v;
            }
        }
        return (U() - .5) * 300;
    }
}
uint64_t geni(int bits)
{
    uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
    switch (R(6)) {
    case 0: return R(12) & m;
    case 1: return R(400) & m;
    case 2: return (0 - R(300)) & m;
    case 3: return ((1ull << R(bits)) + R(3) - 1) & m;
    case 4: return !seenu.empty() ? seenu[R(seenu.size())] & m : R(4);
    default: return rng() & m;
    }
}
template <typename T> T nint(char const* n, int bits, bool sg)
{
    std::string s;
    uint64_t v;
    if (fix(n, s)) v = s[0] == '-' ? (uint64_t)std::strtoll(s.c_str(), nullptr, 10) : std::strtoull(s.c_str(), nullptr, 10);
    else v = geni(bits);
    T t = (T)v;
    seenu.push_back((uint64_t)t);
    recu(n, (uint64_t)(int64_t)t, sg);
    return t;
}
[[noreturn]] void stop(int k) { siglongjmp(jb, k); }
void onsig(int s)
{
    char b[64];
    if (s == SIGALRM) {
        if (in_run) { if (allow_timeout) siglongjmp(jb, 1); if (replay) _exit(3); dump("terminates"); _exit(1); }
        return;
    }
    std::snprintf(b, sizeof b, "no crash (signal %d)", s);
    dump(b);
    _exit(1);
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
}  // namespace

extern "C" {
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
[[noreturn]] void __assert_fail(char const* e, char const*, unsigned, char const*) noexcept
{
    std::string s = std::string("assert(") + e + ") of the code holds";
    dump(s.c_str());
    _exit(1);
}
double nd_f64(char const* n)
{
    std::string s;
    double v = fix(n, s) ? std::strtod(s.c_str(), nullptr) : gen();
    seenf.push_back(v);
    rec(n, v);
    return v;
}
double nd_f64_in(char const* n, double lo, double hi)
{
    std::string s;
    double v;
    if (fix(n, s)) v = std::strtod(s.c_str(), nullptr);
    else {
        switch (R(12)) {
        case 0: v = lo; break;
        case 1: v = hi; break;
        case 2: v = std::nextafter(lo, hi); break;
        case 3: v = std::nextafter(hi, lo); break;
        case 4: v = lo + (hi - lo) * (double(R(5)) / 4); break;
        case 5: v = std::round(lo + (hi - lo) * U()); break;
        case 6: v = seenf.empty() ? lo : seenf[R(seenf.size())]; break;
        case 7: v = lo + (hi - lo) * std::pow(U(), 6); break;
        case 8: v = gen(); break;
        default: v = lo + (hi - lo) * U();
        }
        if (!(v >= lo && v <= hi)) v = lo + (hi - lo) * U();
    }
    if (!(v >= lo && v <= hi)) { if (replay) { if (v < lo) v = lo; else v = hi; } else stop(1); }
    seenf.push_back(v);
    rec(n, v);
    return v;
}
float nd_f32(char const* n)
{
    std::string s;
    float v = float(fix(n, s) ? std::strtod(s.c_str(), nullptr) : gen());
    rec(n, v);
    return v;
}
uint64_t nd_u64(char const* n) { return nint<uint64_t>(n, 64, false); }
uint64_t nd_u64_in(char const* n, uint64_t lo, uint64_t hi)
{
    std::string s;
    uint64_t v;
    uint64_t const cap = 1u << 12;
    if (fix(n, s)) v = std::strtoull(s.c_str(), nullptr, 10);
    else {
        uint64_t w = hi - lo;
        if (w <= 12) v = lo + R(w + 1);
        else switch (R(8)) {
            case 0: v = lo; break;
            case 1: v = lo + 1; break;
            case 2: case 3: case 4: v = lo + R(9); break;
            case 5: v = w <= cap ? hi - R(3) : lo + R(24); break;
            case 6: v = lo + R(24); break;
            default: v = lo + (w < 40 ? R(w + 1) : R(40));
        }
    }
    if (v < lo || v > hi) stop(1);
    recu(n, v);
    return v;
}
int64_t  nd_i64(char const* n) { return nint<int64_t>(n, 64, true); }
uint32_t nd_u32(char const* n) { return nint<uint32_t>(n, 32, false); }
int32_t  nd_i32(char const* n) { return nint<int32_t>(n, 32, true); }
uint16_t nd_u16(char const* n) { return nint<uint16_t>(n, 16, false); }
int16_t  nd_i16(char const* n) { return nint<int16_t>(n, 16, true); }
uint8_t  nd_u8(char const* n) { return nint<uint8_t>(n, 8, false); }
bool nd_bool(char const* n)
{
    std::string s;
    bool v = fix(n, s) ? (s != "0") : bool(rng() & 1);
    recu(n, v);
    return v;
}
void v_assume(bool b) { if (!b) stop(1); }
void v_assert(bool b, char const* n) { if (!b) { failname = n; stop(2); } }
void v_lemma(bool b, char const* n) { v_assert(b, n); }
void v_eq(double a, double b, double tol, char const* n)
{
    if (a == b || (std::isnan(a) && std::isnan(b))) return;
    if (std::fabs(a - b) <= tol * std::fmax(1, std::fmax(std::fabs(a), std::fabs(b)))) return;
    char m[256];
    std::snprintf(m, sizeof m, "%s  [%.17g vs %.17g]", n, a, b);
    failname = m;
    stop(2);
}
void v_le(double a, double b, double tol, char const* n)
{
    if (a <= b + tol * std::fmax(1, std::fmax(std::fabs(a), std::fabs(b)))) return;
    char m[256];
    std::snprintf(m, sizeof m, "%s  [%.17g vs %.17g]", n, a, b);
    failname = m;
    stop(2);
}
void v_cover(char const* n) { covers.insert(n); }
void v_watch(void const*, int) {}
void v_watch_index(uint64_t) {}
void v_inv(bool (*)(), char const*) {}
void v_inv_at(uint64_t, bool (*)(), char const*) {}
void* v_alloc(char const*, std::size_t n, std::size_t es)
{
    void* p = std::malloc(n * es ? n * es : 1);
    blocks.push_back(p);
    if (es == 8) for (std::size_t i = 0; i < n; ++i) { double d = gen(); std::memcpy((char*)p + 8 * i, &d, 8); }
    else for (std::size_t i = 0; i < n * es; ++i) ((unsigned char*)p)[i] = (unsigned char)rng();
    return p;
}
void* v_replicate(char const*, void const* proto, std::size_t stride, std::size_t n)
{
    char* p = (char*)std::malloc(n * stride ? n * stride : 1);
    blocks.push_back(p);
    for (std::size_t i = 0; i < n; ++i) std::memcpy(p + i * stride, proto, stride);
    return p;
}
void* v_ptrs(char const*, std::size_t es, std::size_t po, void* objs, std::size_t os, std::size_t n)
{
    char* p = (char*)std::calloc(n ? n : 1, es);
    blocks.push_back(p);
    for (std::size_t i = 0; i < n; ++i) { char* q = (char*)objs + i * os; std::memcpy(p + i * es + po, &q, 8); }
    return p;
}
double v_uf(char const*, double (*f)(double, double), double x, double y) { return f(x, y); }
bool v_symbolic() { return false; }
uint64_t v_same(uint64_t x) { return x; }
}
static void death() { dump("no undefined behaviour (sanitizer)"); }

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    hname = argv[1];
    using fn = void (*)();
    fn f = (fn)dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) { std::printf("NOHARNESS %s\n", argv[1]); return 2; }
    double secs = 5;
    uint64_t seed = 1;
    if (!std::strcmp(argv[2], "--replay")) {
        replay = true;
        FILE* fp = std::fopen(argv[3], "r");
        char n[200], v[200];
        while (fp && std::fscanf(fp, "INPUT %199s %199s\n", n, v) == 2) fixed[n].push_back(v);
        if (fp) std::fclose(fp);
    } else {
        secs = std::atof(argv[3]);
        seed = std::strtoull(argv[4], nullptr, 10);
    }
    unsigned long const maxruns = argc > 5 ? std::strtoul(argv[5], nullptr, 10) : 0;
    allow_timeout = argc > 6;
    rng.seed(seed * 7919 + 13);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) {
        struct sigaction sa {};
        sa.sa_handler = onsig;
        sa.sa_flags = SA_NODEFER;
        sigaction(s, &sa, nullptr);
    }
    auto const fixed0 = fixed;
    double t0 = now();
    double volatile prev = t0;
    do {
        fixed = fixed0;
        trace.clear();
        seenf.clear();
        seenu.clear();
        for (void* b : blocks) std::free(b);
        blocks.clear();
        ++runs;
        itimerval it {{0, 0}, {10, 0}};
        if (runs % 64 == 1 || now() - prev > 1) { setitimer(ITIMER_REAL, &it, nullptr); prev = now(); }
        int k = sigsetjmp(jb, 1);
        if (k == 0) {
            in_run = true;
            try { f(); ++accepted; }
            catch (std::exception const& e) { failname = std::string("no unexpected exception: ") + e.what(); k = 2; }
            catch (...) { failname = "no unexpected exception"; k = 2; }
        }
        in_run = false;
        if (k == 2) { dump(failname.c_str()); _exit(1); }
    } while (!replay && now() - t0 < secs && (!maxruns || runs < maxruns));
    std::printf("OK runs=%lu accepted=%lu covers=", runs, accepted);
    for (auto const& c : covers) std::printf("%s;", c.c_str());
    std::printf("\n");
    std::fflush(stdout);
    _exit(0);
}
