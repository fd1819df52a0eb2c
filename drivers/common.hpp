// Shared by all drivers: script reading, event output, control of the random source.
//
// A driver reads commands (one per line, space-separated tokens) from stdin, executes each on the real library and
// writes one JSON event per command to stdout.  Numerals are lower-case hexadecimal strings.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <gmp.h>
#include <gmpxx.h>

// ---------------------------------------------------------------- random source
// Every integer the library draws passes through the interposed GMP entry points below.
//   pass     the library's own generator, values recorded
//   script   next value of a queue (reduced into range), then pass
//   biased   mostly pass, sometimes a boundary value
//   dfs      systematic enumeration of all outcomes (see enumerate())
namespace rng
{
enum Mode { PASS, BIASED, DFS };
struct Draw { char kind; mpz_class range, val; };   // kind 'm': below range; 'b': range bits
inline Mode mode = PASS;
inline std::deque<mpz_class> queue;
inline std::vector<Draw> log;
inline uint64_t state = 88172645463325252ull;
inline uint64_t next() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }

// depth-first enumeration of the outcomes of a random computation
struct Choice { unsigned long v, n; };
inline std::vector<Choice> path;
inline size_t pos;
inline bool overflow;                                // a draw too wide, or too many draws, to enumerate
inline unsigned long dfs(const mpz_class& range)
{
    if (range > 100000 || pos > 64) { overflow = true; return 0; }
    if (pos == path.size()) path.push_back({0, range.get_ui()});
    return path[pos++].v;
}
// Runs f for every outcome of its draws; returns false when the draws cannot be enumerated.
inline bool enumerate(const std::function<void()>& f, size_t limit = 5000000)
{
    path.clear(); overflow = false; mode = DFS;
    bool ok = true;
    for (size_t runs = 0;; runs++)
    {
        if (runs > limit) { ok = false; break; }
        pos = 0; f();
        if (overflow) { ok = false; break; }
        path.resize(pos);
        while (!path.empty() && path.back().v + 1 >= path.back().n) path.pop_back();
        if (path.empty()) break;
        path.back().v++;
    }
    mode = PASS;
    return ok;
}
inline bool special(const mpz_class& range, mpz_class& out)
{
    if (mode != BIASED || next() % 4) return false;
    switch (next() % 8)
    {
    case 0: out = 0; break;
    case 1: out = 1; break;
    case 2: out = range - 1; break;
    case 3: out = range / 2; break;
    case 4: out = mpz_class(1) << (next() % mpz_sizeinbase(range.get_mpz_t(), 2)); break;
    case 5: out = (mpz_class(1) << (next() % mpz_sizeinbase(range.get_mpz_t(), 2))) - 1; break;
    case 6: out = next() % 256; break;
    default: out = range - 2; break;
    }
    if (out < 0 || out >= range) out = 0;
    return true;
}
template <class F> mpz_class draw(char kind, const mpz_class& range, F real)
{
    mpz_class v;
    if (mode == DFS) v = dfs(range);
    else if (!queue.empty()) { v = queue.front(); queue.pop_front(); mpz_mod(v.get_mpz_t(), v.get_mpz_t(), range.get_mpz_t()); }
    else if (!special(range, v)) v = real();
    if (mode != DFS) log.push_back({kind, range, v});
    return v;
}
} // namespace rng

extern "C" __attribute__((used)) void __gmpz_urandomm(mpz_ptr rop, __gmp_randstate_struct* st, mpz_srcptr n)
{
    static auto real = (void (*)(mpz_ptr, __gmp_randstate_struct*, mpz_srcptr)) dlsym(RTLD_NEXT, "__gmpz_urandomm");
    mpz_class v = rng::draw('m', mpz_class(n), [&] { mpz_class r; real(r.get_mpz_t(), st, n); return r; });
    mpz_set(rop, v.get_mpz_t());
}
extern "C" __attribute__((used)) void __gmpz_urandomb(mpz_ptr rop, __gmp_randstate_struct* st, mp_bitcnt_t b)
{
    static auto real = (void (*)(mpz_ptr, __gmp_randstate_struct*, mp_bitcnt_t)) dlsym(RTLD_NEXT, "__gmpz_urandomb");
    mpz_class v = rng::draw('b', mpz_class(1) << b, [&] { mpz_class r; real(r.get_mpz_t(), st, b); return r; });
    mpz_set(rop, v.get_mpz_t());
}
// Entropy: a fixed stream when VRD_SEED is set (reproducible runs), the system's otherwise.
unsigned int std::random_device::_M_getval()
{
    static const char* seed = getenv("VRD_SEED");
    static std::mt19937_64 gen(seed ? strtoull(seed, nullptr, 10) : 0);
    if (seed) return (unsigned) gen();
    static FILE* f = fopen("/dev/urandom", "rb");
    unsigned v = 0;
    if (!f || fread(&v, sizeof v, 1, f) != 1) abort();
    return v;
}

// With VRD_FREEZE set, clocks stand still and every process has the same number: what remains is real entropy.
inline bool frozen() { static const bool f = getenv("VRD_FREEZE") != nullptr; return f; }
extern "C" __attribute__((used)) int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!frozen()) return syscall(SYS_clock_gettime, id, ts);
    ts->tv_sec = 1750000000; ts->tv_nsec = 123456789;
    return 0;
}
extern "C" __attribute__((used)) time_t time(time_t* t) noexcept
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" __attribute__((used)) int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" __attribute__((used)) clock_t clock() noexcept
{
    struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
extern "C" __attribute__((used)) pid_t getpid() noexcept { return frozen() ? 4321 : syscall(SYS_getpid); }

// ---------------------------------------------------------------- output
inline std::string hex(const mpz_class& v) { return v.get_str(16); }
inline std::string q(const std::string& s) { return "\"" + s + "\""; }
inline std::string jn(const mpz_class& v) { return q(hex(v)); }
inline std::string jb(bool b) { return b ? "true" : "false"; }
template <class F> std::string jp(const F& x, const F& y, bool inf)
{ return inf ? "[]" : "[" + jn(x.getRawValue()) + "," + jn(y.getRawValue()) + "]"; }
template <class P> std::string jpt(const P& p) { return jp(p.getX(), p.getY(), p.isInf()); }
template <class V, class F> std::string jl(const V& v, F f)
{
    std::string s = "[";
    bool first = true;
    for (auto&& e : v) { if (!first) s += ","; first = false; s += f(e); }
    return s + "]";
}
inline std::string jdraws()
{ return jl(rng::log, [](const rng::Draw& d) { return jn(d.val); }); }

// Bits it takes to write down everything drawn.
inline long drawnBits()
{ long n = 0; for (auto& d : rng::log) n += d.range <= 1 ? 0 : mpz_sizeinbase(mpz_class(d.range - 1).get_mpz_t(), 2); return n; }

struct Event
{
    std::string s;
    explicit Event(const std::string& op) : s("{\"op\":" + q(op)) {}
    Event& raw(const char* k, const std::string& v) { s += ",\"" + std::string(k) + "\":" + v; return *this; }
    Event& n(const char* k, const mpz_class& v) { return raw(k, jn(v)); }
    Event& i(const char* k, long v) { return raw(k, std::to_string(v)); }
    Event& b(const char* k, bool v) { return raw(k, jb(v)); }
    Event& str(const char* k, const std::string& v) { return raw(k, q(v)); }
    template <class P> Event& p(const char* k, const P& v) { return raw(k, jpt(v)); }
    void out() { s += "}\n"; fputs(s.c_str(), stdout); fflush(stdout); }
};

// Distribution of the outcomes (JSON texts) of f over everything it draws; over `runs` seeded runs if that cannot be
// enumerated.
inline void distribution(Event& e, const std::function<std::string()>& f, size_t runs)
{
    std::map<std::string, size_t> m;
    bool exact = rng::enumerate([&] {
        std::string o = f();
        if (!rng::overflow) m[o]++;
    });
    if (!exact)
    {
        static size_t left = 300000;                     // all sampled runs of this process, then a few for each
        runs = std::min(runs, std::max<size_t>(left / 8, 300));
        left -= std::min(left, runs);
        m.clear();
        for (size_t i = 0; i < runs; i++) m[f()]++;
        rng::log.clear();
    }
    e.b("exact", exact).raw("outcomes", jl(m, [](const std::pair<const std::string, size_t>& v) {
        return "[" + v.first + "," + std::to_string(v.second) + "]"; })).out();
}

// ---------------------------------------------------------------- input
struct Cmd
{
    std::vector<std::string> t;
    size_t k = 1;
    const std::string& op() const { return t[0]; }
    bool more() const { return k < t.size(); }
    std::string s() { if (k >= t.size()) { fprintf(stderr, "script: missing argument\n"); exit(3); } return t[k++]; }
    long i() { return strtol(s().c_str(), nullptr, 10); }
    mpz_class n() { return mpz_class(s(), 16); }
};
// Calls f(cmd) for each script line; the commands that set the random source are handled here.
template <class F> void script(F f)
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream is(line);
        Cmd c;
        for (std::string w; is >> w;) c.t.push_back(w);
        if (c.t.empty() || c.t[0][0] == '#') continue;
        if (c.op() == "rng")
        {
            std::string m = c.s();
            if (m == "pass") { rng::mode = rng::PASS; rng::queue.clear(); }
            else if (m == "biased") { rng::mode = rng::BIASED; rng::state = 0x9E3779B97F4A7C15ull ^ (uint64_t) c.i() * 0x2545F4914F6CDD1Dull; }
            else if (m == "queue") { rng::queue.clear(); while (c.more()) rng::queue.push_back(c.n()); }
            continue;
        }
        rng::log.clear();
        f(c);
    }
}
