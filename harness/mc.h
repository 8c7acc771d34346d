// Small explicit-state exploration kit shared by all harnesses.
// The transition function is always the real library call; a reference model is stepped beside it.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <functional>
#include <utility>
#include <algorithm>
#include <unistd.h>
#include <boost/multiprecision/cpp_int.hpp>

namespace mc {
using u64 = uint64_t;
using I = boost::multiprecision::cpp_int;   // reference integers
typedef unsigned __int128 U128;

// ---- hash set of visited states --------------------------------------------------------------
struct HashSet {
    std::vector<u64> t; size_t n = 0;
    HashSet() : t(1 << 12, 0) {}
    bool insert(u64 h) {
        if (!h) h = 1;
        if (2 * (n + 1) > t.size()) { std::vector<u64> o; o.swap(t); t.assign(o.size() * 2, 0); n = 0; for (u64 x : o) if (x) raw(x); }
        return raw(h);
    }
    bool raw(u64 h) { size_t m = t.size() - 1, i = (h * 0x9E3779B97F4A7C15ull >> 7) & m;
        while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; } t[i] = h; n++; return true; }
};
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
template <class... T> inline u64 hash(u64 a, T... r) { u64 h = 0x1234567; u64 v[] = {a, (u64)r...}; for (u64 x : v) h = mix(h, x); return h; }
inline u64 hbytes(const void *p, size_t n, u64 h = 77) { const unsigned char *c = (const unsigned char *)p; u64 w; while (n >= 8) { memcpy(&w, c, 8); h = mix(h, w); c += 8; n -= 8; } w = 0; if (n) { memcpy(&w, c, n); h = mix(h, w); } return h; }

// ---- counters and results ---------------------------------------------------------------------
struct Run {
    std::string scenario, out;
    HashSet states, outcomes;
    u64 transitions = 0, traces = 0;
    std::vector<std::string> samples, bounds;
    const char *where = ""; long cur[6] = {0, 0, 0, 0, 0, 0};
    bool capped = false;
};
inline Run &run() { static Run r; return r; }
inline int tier() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }

inline std::string vfmt(const char *f, va_list ap) { char b[6000]; vsnprintf(b, sizeof b, f, ap); return b; }
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
inline std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { o += fmt("\\u%04x", c); } else o += c; } return o + "\""; }
inline void finish(const char *status, const std::string &msg) {
    Run &r = run(); FILE *f = r.out.empty() ? stderr : fopen(r.out.c_str(), "w"); if (!f) f = stderr;
    fprintf(f, "{\"scenario\":%s,\"status\":\"%s\",\"msg\":%s,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"outcomes\":%llu,\"capped\":%s,\"samples\":[",
            js(r.scenario).c_str(), status, js(msg).c_str(), (unsigned long long)r.states.n, (unsigned long long)r.transitions,
            (unsigned long long)r.traces, (unsigned long long)r.outcomes.n, r.capped ? "true" : "false");
    for (size_t i = 0; i < r.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(r.samples[i]).c_str());
    fprintf(f, "],\"bounds\":[");
    for (size_t i = 0; i < r.bounds.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(r.bounds[i]).c_str());
    fprintf(f, "]}\n"); fflush(f); if (f != stderr) fclose(f);
}
[[noreturn]] inline void fail(const char *f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    finish("fail", s); fprintf(stderr, "FAIL %s: %s\n", run().scenario.c_str(), s.c_str()); _exit(3);
}
#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)
inline bool state(u64 h) { return run().states.insert(h); }
inline void outcome(u64 h) { run().outcomes.insert(h); }
inline void step(u64 n = 1) { run().transitions += n; }
inline void trace(u64 n = 1) { run().traces += n; }
inline void sample(const char *f, ...) { if (run().samples.size() >= 3) return; va_list ap; va_start(ap, f); run().samples.push_back(vfmt(f, ap)); va_end(ap); }
inline void bound(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); if (run().bounds.size() < 40) run().bounds.push_back(s); }
// cheap context for a crash or hang report
inline void at(const char *w, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { Run &r = run(); r.where = w; r.cur[0] = a; r.cur[1] = b; r.cur[2] = c; r.cur[3] = d; r.cur[4] = e; r.cur[5] = f; }
inline std::string here() { Run &r = run(); return fmt("%s(%ld,%ld,%ld,%ld,%ld,%ld)", r.where, r.cur[0], r.cur[1], r.cur[2], r.cur[3], r.cur[4], r.cur[5]); }
inline void onsig(int s) { std::string m = fmt("signal %d at ", s) + here(); finish(s == SIGALRM || s == SIGTERM ? "timeout" : "crash", m); fprintf(stderr, "CRASH %s\n", m.c_str()); _exit(4); }

struct Scen { const char *name; int tier; void (*fn)(); };
inline std::vector<Scen> &scens() { static std::vector<Scen> v; return v; }
struct Reg { Reg(const char *n, int t, void (*f)()) { scens().push_back({n, t, f}); } };
// SCEN(name, tier): tier 0 runs in both, 1 in thorough only
#define SCEN(n, t) static void n(); static mc::Reg reg_##n(#n, t, n); static void n()

// ---- environment: rand() -------------------------------------------------------------------------
// Default answers come from a fixed 64-bit LCG (deterministic, fair); any call index can be overridden.
struct Env {
    u64 seed0 = 1, s = 1; long calls = 0, limit = 200000000; bool log = false;
    std::map<long, int> over; std::vector<int> logv; int constant = -1; long const_upto = 0;
    void reset(u64 seed = 1) { static const char *e = getenv("VERIF_SEED"); u64 b = e ? strtoull(e, 0, 10) - 1 : 0; seed0 = s = (seed + b * 1000003) * 0x9E3779B97F4A7C15ull + 12345; calls = 0; over.clear(); logv.clear(); constant = -1; const_upto = 0; }
    int next() {
        if (calls >= limit) fail("random source asked more than %ld times: %s", limit, here().c_str());
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        int v = (int)((s >> 33) & 0x7fffffff);
        if (constant >= 0 && calls < const_upto) v = constant;
        if (!over.empty()) { auto it = over.find(calls); if (it != over.end()) v = it->second; }
        calls++; if (log) logv.push_back(v);
        return v;
    }
};
#ifndef MC_TLS
#define MC_TLS
#endif
inline Env &env() { static MC_TLS Env e; return e; }   // MC_TLS=thread_local: one source per thread

// ---- template loops ------------------------------------------------------------------------------
template <int A, int... Is> constexpr auto shifted(std::integer_sequence<int, Is...>) { return std::integer_sequence<int, (A + Is)...>(); }
template <int A, int B> using Range = decltype(shifted<A>(std::make_integer_sequence<int, B - A + 1>()));
template <int... Is> using List = std::integer_sequence<int, Is...>;
template <class F, int... Is> inline void each(std::integer_sequence<int, Is...>, F f) { (f(std::integral_constant<int, Is>()), ...); }
template <template <int> class T, int... Is> inline void each_t(std::integer_sequence<int, Is...>) { (T<Is>::go(), ...); }
#define MC_INT(ic) decltype(ic)::value

inline int main_(int argc, char **argv) {
    if (argc >= 2 && !strcmp(argv[1], "--list")) { for (auto &s : scens()) printf("%s %d\n", s.name, s.tier); return 0; }
    if (argc < 3 || strcmp(argv[1], "--run")) { fprintf(stderr, "usage: --list | --run SCENARIO [OUT.json]\n"); return 2; }
    for (auto &s : scens()) if (!strcmp(s.name, argv[2])) {
        run().scenario = s.name; run().out = argc > 3 ? argv[3] : "";
        static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
        for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTERM}) sigaction(g, &sa, nullptr);
        s.fn(); finish("ok", ""); return 0;
    }
    fprintf(stderr, "no scenario %s\n", argv[2]); return 2;
}
}  // namespace mc

// The library takes all its randomness from rand(): own it.
#ifndef MC_NO_RAND
#ifdef MC_RT
extern "C" void rt_ignore(int);
extern "C" int rand(void) throw() { rt_ignore(1); int v = mc::env().next(); rt_ignore(-1); return v; }
#else
extern "C" int rand(void) throw() { return mc::env().next(); }
#endif
#endif
#define MC_MAIN int main(int c, char **v) { return mc::main_(c, v); }
