// C25: concurrent callers on separate data. Threads run operations (first uses included: every execution is a fresh fork)
// under every schedule within a deviation bound; each result must equal the result of the call alone in a fresh process,
// and no two unordered accesses may conflict.
#include "ops.h"
#include "explore.h"
namespace mc {
struct A { int o, v; };
static std::vector<A> acts; static std::vector<int> firstOf; static std::vector<u64> base_;
static u64 exec1(const A &a) { rt_ignore(1); env().reset(100 + a.o % 3); rt_ignore(-1); return ops[a.o].f(a.v); }
static std::string nm(int k) { return fmt("%s/%d", ops[acts[k].o].name.c_str(), acts[k].v); }
static void prep() { defs(); for (int o = 0; o < (int)ops.size(); o++) { firstOf.push_back(acts.size()); for (int v = 0; v < ops[o].nv; v++) acts.push_back({o, v}); } for (auto &a : acts) { Exec e = execute({}, [&] { rt_team(1); return exec1(a); }); if (e.err.size()) fail("%s alone: %s", ops[a.o].name.c_str(), e.err.c_str()); base_.push_back(e.h); } }
typedef std::vector<std::vector<int>> Prog;   // per thread, the actions it performs
static Prog prog_; static u64 res_[4][8];
static u64 runprog() {
    rt_run(prog_.size(), [](int t) { for (size_t j = 0; j < prog_[t].size(); j++) { u64 h = exec1(acts[prog_[t][j]]); rt_ignore(1); res_[t][j] = h; rt_ignore(-1); } });
    rt_ignore(1); for (size_t t = 0; t < prog_.size(); t++) for (size_t j = 0; j < prog_[t].size(); j++) if (res_[t][j] != base_[prog_[t][j]]) return hash(1, t, j) | 1ull << 63; return 0;
}
static std::string progS() { std::string s; for (size_t t = 0; t < prog_.size(); t++) { s += fmt("thread %zu:", t + 1); for (int k : prog_[t]) s += " " + nm(k); s += "; "; } return s; }
static void judge(const Exec &e, const std::vector<unsigned char> &s, const char *w) { if (e.err.size()) fail("%s schedule %s%s: %s", progS().c_str(), schedS(s).c_str(), w, e.err.c_str()); if (e.h) fail("%s schedule %s%s: a call returns another result than alone", progS().c_str(), schedS(s).c_str(), w); }
static long go(const Prog &p, int D, int W, int team = 1, std::vector<int> warm = {}) { prog_ = p; at(progS().substr(0, 60).c_str(), D, W); return explore([&] { rt_team(team); for (int k : warm) exec1(acts[k]); return runprog(); }, D, W, [&](const Exec &e, const std::vector<unsigned char> &s) { judge(e, s, warm.size() ? " (after earlier use)" : ""); }); }
// the same operation from 2 and 3 threads: coinciding first uses, equal and different arguments, and after an earlier use
static void same(int part, int parts, int D2, int D3, int W) { prep(); long n = 0; for (int o = part; o < (int)ops.size(); o += parts) { int a = firstOf[o], b = a + (ops[o].nv > 1), c = a + ops[o].nv - 1;
        n += go({{a}, {a}}, D2, W); n += go({{a}, {b}}, D2, W); n += go({{a}, {b}, {c}}, D3, W); n += go({{a, c}, {b, a}}, 1, W / 2); n += go({{a}, {b}}, 1, W, 1, {c}); n += go({{a}, {b}}, 1, W / 4, 2); }
    sample("%s", progS().c_str()); bound("operations %d mod %d of %zu: 2 threads with at most %d and 3 threads with at most %d deviations within the first %d decision points, equal and different arguments, cold and warm, with inner teams of 1 and 2: %ld executions", part, parts, ops.size(), D2, D3, W, n); }
// every unordered pair of different operations
static void cross(int part, int parts, int D, int W) { prep(); long n = 0; int c = 0; for (size_t i = 0; i < ops.size(); i++) for (size_t j = i + 1; j < ops.size(); j++) if (c++ % parts == part) { n += go({{firstOf[i]}, {firstOf[j]}}, D, W); n += go({{firstOf[i], firstOf[j]}, {firstOf[j], firstOf[i]}}, 0, 0); } sample("%s", progS().c_str()); bound("every pair of different operations (part %d of %d): at most %d deviations in the first %d decision points, and in opposite orders: %ld executions", part, parts, D, W, n); }
// preemption at any memory access during coinciding first uses
static void fine(int part, int parts, long stride) { prep(); long n = 0; for (int o = part; o < (int)ops.size(); o += parts) { int a = firstOf[o], b = a + (ops[o].nv > 1); prog_ = {{a}, {b}}; Exec e0 = execute({}, [&] { rt_team(1); return runprog(); }, 1l << 60, 1); judge(e0, e0.took, " (counting)"); long K = e0.acc, st = std::max(1l, K / stride); for (long x = 0; x < K && !(x && winddown()); x += st) { Exec e = execute({}, [&] { rt_team(1); return runprog(); }, x, 1); judge(e, e.took, fmt(" preempted at access %ld", x).c_str()); n++; step(); trace(); state(hash(o, x)); outcome(e.h); } } bound("coinciding first uses of operations %d mod %d, preempted at every access or %ld evenly spaced ones outside the running thread's stack: %ld executions", part, parts, stride, n); }
// larger rings: coinciding first uses from 2 and 3 threads, cold and after an earlier use, inner teams of 1 and 2
static void big(int part, int parts) { defs(); long n = 0; for (int o = part; o < (int)ops.size(); o += parts) { acts = {{o, 0}, {o, ops[o].nv - 1}}; base_.clear(); for (auto &a : acts) { Exec e = execute({}, [&] { rt_team(1); return exec1(a); }); if (e.err.size()) fail("%s alone: %s", ops[a.o].name.c_str(), e.err.c_str()); base_.push_back(e.h); } n += go({{0}, {1}}, 0, 0); n += go({{0}, {0}, {1}}, 0, 0, 1, {1}); n += go({{0}, {1}}, 0, 0, 2); } sample("2 threads, both %s", ops[part].name.c_str()); bound("larger rings, operations %d mod %d of %zu from 2 and 3 threads, cold and warm, inner teams of 1 and 2, all accesses checked: %ld executions", part, parts, ops.size(), n); }
#if FAM >= 10
SCEN(big0, 0) { big(0, 4); } SCEN(big1, 0) { big(1, 4); } SCEN(big2, 0) { big(2, 4); } SCEN(big3, 0) { big(3, 4); }
#elif FAM >= 3
SCEN(same0, 0) { same(0, 2, 1, 1, FAM == 3 ? 16 : 8); } SCEN(same1, 0) { same(1, 2, 1, 1, FAM == 3 ? 16 : 8); }
SCEN(cross0, 0) { cross(0, 2, 1, FAM == 3 ? 3 : 2); } SCEN(cross1, 0) { cross(1, 2, 1, FAM == 3 ? 3 : 2); }
SCEN(preempt_anywhere, 0) { fine(0, 1, FAM == 3 ? 16 : 8); }
#else
SCEN(same0, 0) { same(0, 2, 2, 1, 40); } SCEN(same1, 0) { same(1, 2, 2, 1, 40); }
SCEN(cross0, 0) { cross(0, 2, 1, 12); } SCEN(cross1, 0) { cross(1, 2, 1, 12); }
SCEN(preempt_anywhere, 0) { fine(0, 1, 40); }
#endif
#if FAM < 10
SCEN(same_deep0, 1) { same(0, 3, FAM < 3 ? 3 : 2, 2, 40); } SCEN(same_deep1, 1) { same(1, 3, FAM < 3 ? 3 : 2, 2, 40); } SCEN(same_deep2, 1) { same(2, 3, FAM < 3 ? 3 : 2, 2, 40); }
SCEN(cross_deep0, 1) { cross(0, 3, FAM < 3 ? 2 : 1, 30); } SCEN(cross_deep1, 1) { cross(1, 3, FAM < 3 ? 2 : 1, 30); } SCEN(cross_deep2, 1) { cross(2, 3, FAM < 3 ? 2 : 1, 30); }
SCEN(everywhere0, 1) { fine(0, 2, 3000); } SCEN(everywhere1, 1) { fine(1, 2, 3000); }
#endif
}
MC_MAIN
