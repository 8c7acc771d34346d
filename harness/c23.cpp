// C23: every operation's result compared between a fresh process and every explored history. Buffers are static: the same
// storage is reused with new contents by every call.
#define OPBUF static
#define MC_PERT
#include <chrono>
#include "ops.h"
#include <sys/wait.h>
namespace mc {
struct A { int o, v; };
static u64 exec(const A &a) { env().reset(100 + a.o % 3); at(ops[a.o].name.c_str(), a.v); step(); pc_ = 0; psz_.clear(); u64 h = ops[a.o].f(a.v); return h; }
static std::vector<u64> base_;  static std::vector<A> acts; static std::vector<int> firstOf;
static std::string name(int i) { return fmt("%s/%d", ops[acts[i].o].name.c_str(), acts[i].v); }
template <class F> static std::string forked(F f) {   // run f in a child; returns what it reported
    int pf[2]; if (pipe(pf)) fail("pipe"); fflush(stdout); pid_t p = fork();
    if (!p) { close(pf[0]); dup2(pf[1], 2); run().out = "/dev/null"; f(pf[1]); _exit(0); }
    close(pf[1]); std::string e; char b[4096]; ssize_t r; while ((r = read(pf[0], b, sizeof b)) > 0) e.append(b, r); close(pf[0]); int st; waitpid(p, &st, 0); if (st) fail("child: status %d %s", st, e.substr(0, 2000).c_str()); return e;
}
static void say(int fd, const std::string &s) { if (write(fd, s.data(), s.size())) {} }
static void prepare() { defs(); for (int o = 0; o < (int)ops.size(); o++) { firstOf.push_back(acts.size()); for (int v = 0; v < ops[o].nv; v++) acts.push_back({o, v}); }
    for (size_t i = 0; i < acts.size(); i++) { std::string r = forked([&](int fd) { u64 h = exec(acts[i]); say(fd, fmt("%llu", (unsigned long long)h)); }); base_.push_back(strtoull(r.c_str(), 0, 10)); state(hash(i, base_[i])); trace(); }
    std::set<u64> s(base_.begin(), base_.end()); for (int o = 0; o < (int)ops.size(); o++) for (int v = 1; v < ops[o].nv; v++) if (base_[firstOf[o]] == base_[firstOf[o] + v]) outcome(0); for (u64 b : base_) outcome(b); }
static std::string compare(int i, const std::string &hist) { u64 h = exec(acts[i]); if (h == base_[i]) return ""; return fmt("%s after %s gives another result than in a fresh process", name(i).c_str(), hist.c_str()); }
// all sequences of the given length whose last element ranges over everything; prefixes executed once per process (fork tree)
static void tree(const std::vector<int> &pre, const std::vector<int> &last, int depth, std::vector<int> seq, int part, int parts) {
    auto H = [&] { std::string s; for (int x : seq) s += name(x) + " "; return s; };
    for (size_t j = 0; j < pre.size(); j++) { if (seq.empty() && (int)(j % parts) != part) continue; int i = pre[j];
        std::string e = forked([&](int fd) { std::string c = compare(i, H()); if (c.size()) { say(fd, c); _exit(0); } seq.push_back(i);
            if (depth > 2) { mc::Run &r = run(); r.transitions = r.traces = 0; tree(pre, last, depth - 1, seq, 0, 1); say(fd, fmt("#%llu %llu ", (unsigned long long)r.transitions, (unsigned long long)r.traces)); _exit(0); }
            u64 n = 0; for (int k : last) { std::string g = forked([&](int f2) { say(f2, compare(k, H())); }); n++; if (g.size()) { say(fd, g); _exit(0); } } say(fd, fmt("#%llu %llu ", (unsigned long long)n + 1, (unsigned long long)n)); });
        if (e.empty() || e[0] != '#') { if (seq.empty() || depth > 0) { if (getppid() && run().out != "/dev/null") fail("%s", e.c_str()); fprintf(stderr, "%s", e.c_str()); _exit(1); } }
        unsigned long long a = 0, b = 0; sscanf(e.c_str(), "#%llu %llu", &a, &b); step(a); trace(b); state(hash(i, seq.size(), hbytes(seq.data(), 4 * seq.size()), depth)); }
}
static void pairs(int part, int parts) { prepare(); std::vector<int> all; for (size_t i = 0; i < acts.size(); i++) all.push_back(i); tree(all, all, 2, {}, part, parts); bound("%zu operations with %zu variants: all ordered pairs (part %d of %d), each from a fresh process", ops.size(), acts.size(), part, parts); sample("%s then %s", name(0).c_str(), name(1).c_str()); }
static void triples() { prepare(); std::vector<int> b; for (int x : firstOf) b.push_back(x); std::vector<int> p = b; tree(p, b, 3, {}, 0, 1); bound("%zu operations: all ordered triples of base variants from fresh processes", ops.size()); }
static void longrun(int reps) {   // one process: every ordered pair of actions occurs, then each action is repeated
    prepare(); long n = 0; std::vector<int> seq; int m = acts.size(); for (int d = 0; d < m; d++) { int x = 0; std::vector<char> seen(m, 0); for (int s = 0; s < m; s++) { if (seen[s]) continue; x = s; while (!seen[x]) { seen[x] = 1; seq.push_back(x); x = (x + d) % m; } } }
    for (int i : seq) { std::string c = compare(i, fmt("%ld earlier calls of all operations", n)); if (c.size()) fail("%s", c.c_str()); n++; state(hash(i, n)); }
    for (int o = 0; o < (int)ops.size(); o++) for (int r = 0; r < reps; r++) { int i = firstOf[o] + (r % 3 == 2 ? (r / 3) % ops[o].nv : 0); std::string c = compare(i, fmt("%d repetitions (%ld calls in all)", r, n)); if (c.size()) fail("%s", c.c_str()); n++; } trace(n); bound("one history of %ld calls: every action follows others in many orders, then each operation %d times in a row", n, reps);
}
static void repeats(int reps) {   // each operation alone, many times from a fresh process
    prepare(); for (int o = 0; o < (int)ops.size(); o++) { std::string e = forked([&](int fd) { for (int r = 0; r < reps; r++) { int i = firstOf[o] + (r % 2 ? (r / 2) % ops[o].nv : 0); std::string c = compare(i, fmt("%d calls of the same operation", r)); if (c.size()) { say(fd, c); _exit(0); } } }); if (e.size()) fail("%s", e.c_str()); trace(reps); step(reps); state(hash(o, reps)); } bound("each of %zu operations %d times from a fresh process, alternating its variants", ops.size(), reps);
}
// counters: one variant of each operation again and again, with another variant now and then
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void many(int part, int parts, double quickS, double thoroughS, int maxr) {
    prepare(); u64 least = ~0ull, most = 0; for (int o = part; o < (int)ops.size(); o += parts) { std::string e = forked([&](int fd) { double t0 = now(), lim = tier() ? thoroughS : quickS; long r = 0; for (; r < maxr && (r < 300 || now() - t0 < lim); r++) { int i = firstOf[o] + (r % 61 == 60 ? (r / 61) % ops[o].nv : 0); std::string c = compare(i, fmt("%ld calls of the same operation", r)); if (c.size()) { say(fd, c); _exit(0); } } say(fd, fmt("#%ld", r)); }); if (e.empty() || e[0] != '#') fail("%s", e.c_str()); u64 n = strtoull(e.c_str() + 1, 0, 10); least = std::min(least, n); most = std::max(most, n); trace(n); step(n); state(hash(o, 991)); }
    bound("operations %d mod %d of %zu: each called again and again in one process, %llu to %llu times", part, parts, ops.size(), (unsigned long long)least, (unsigned long long)most); }
// caches keyed by too little: every input changed at every place in four ways (two of them keep sums), the same buffers
// reused, each changed call between two unchanged ones and compared with its result in a fresh process
static void places(int part, int parts, int maxp, int kinds) {
    prepare(); long n = 0; for (int o = part; o < (int)ops.size(); o += parts) { int b = firstOf[o]; std::vector<int> sz; { std::string r = forked([&](int fd) { exec(acts[b]); std::string s; for (int x : psz_) s += fmt("%d ", x); say(fd, s); }); const char *c = r.c_str(); char *e; for (;;) { long x = strtol(c, &e, 10); if (e == c) break; sz.push_back(x); c = e; } }
        for (int k = 0; k < (int)sz.size(); k++) for (int w = 0; w < 6; w++) { if (w >= kinds && w < 4) continue; std::vector<int> pos; int st = std::max(1, sz[k] / maxp); if (w >= 4) pos.push_back(0); else for (int p = (w * 5) % st; p < sz[k]; p += st) pos.push_back(p); std::vector<u64> want;
            for (int p : pos) { std::string r = forked([&](int fd) { pk_ = k; pp_ = p; pw_ = w; say(fd, fmt("%llu", (unsigned long long)exec(acts[b]))); }); want.push_back(strtoull(r.c_str(), 0, 10)); state(hash(o, k, w, p)); outcome(want.back()); }
            std::string e = forked([&](int fd) { auto h = [&](int pert, int p) { pk_ = pert; pp_ = p; pw_ = w; return exec(acts[b]); }; std::string bad; if (h(-1, 0) != base_[b]) bad = "?"; for (size_t i = 0; i < pos.size() && bad.empty(); i++) { if (h(k, pos[i]) != want[i]) bad = fmt("%s with input %d changed at place %d (way %d), after a call with the unchanged input, gives another result than in a fresh process", name(b).c_str(), k, pos[i], w); else if (h(-1, 0) != base_[b]) bad = fmt("%s gives another result after a call with input %d changed at place %d (way %d)", name(b).c_str(), k, pos[i], w); } say(fd, bad); });
            if (e.size()) fail("%s", e.c_str()); n += 3 * pos.size() + 1; step(2 * pos.size() + 1); trace(pos.size()); } }
    bound("operations %d mod %d of %zu: every input changed at every place (at most %d, evenly spaced) in %d ways, all zero, and all extreme, in the same buffers: %ld calls", part, parts, ops.size(), maxp, kinds, n); }
#if FAM >= 10
// larger rings: per operation, every ordered pair of its variants, and repetitions
static void own(int part, int parts) { prepare(); long n = 0; for (int o = part; o < (int)ops.size(); o += parts) for (int v = 0; v < ops[o].nv; v++) { int b = firstOf[o]; std::string e = forked([&](int fd) { std::string bad; for (int w = 0; w < ops[o].nv && bad.empty(); w++) { bad = compare(b + v, "calls of the same operation"); if (bad.empty()) bad = compare(b + w, name(b + v)); } say(fd, bad); }); if (e.size()) fail("%s", e.c_str()); n += 2 * ops[o].nv; step(2 * ops[o].nv); trace(2 * ops[o].nv); state(hash(o, v, 1)); } bound("larger rings, operations %d mod %d of %zu: every ordered pair of variants of the same operation: %ld calls", part, parts, ops.size(), n); }
SCEN(own0, 0) { own(0, 2); } SCEN(own1, 0) { own(1, 2); }
SCEN(places0, 0) { places(0, 2, 3, 2); } SCEN(places1, 0) { places(1, 2, 3, 2); }
#else
SCEN(places0, 0) { places(0, 2, FAM == 3 ? 2 : 16, FAM == 3 ? 2 : 4); } SCEN(places1, 0) { places(1, 2, FAM == 3 ? 2 : 16, FAM == 3 ? 2 : 4); }
SCEN(triples_, 1) { triples(); }
SCEN(places_all, 1) { places(0, 1, 512, 4); }
SCEN(pairs0, 0) { pairs(0, 4); } SCEN(pairs1, 0) { pairs(1, 4); } SCEN(pairs2, 0) { pairs(2, 4); } SCEN(pairs3, 0) { pairs(3, 4); }
SCEN(long_history, 0) { longrun(20); }
SCEN(many0, 0) { many(0, 4, 1.2, 20, 140000); } SCEN(many1, 0) { many(1, 4, 1.2, 20, 140000); } SCEN(many2, 0) { many(2, 4, 1.2, 20, 140000); } SCEN(many3, 0) { many(3, 4, 1.2, 20, 140000); }
SCEN(repeated, 0) { repeats(FAM == 3 ? 120 : 300); }
#endif
}
MC_MAIN
