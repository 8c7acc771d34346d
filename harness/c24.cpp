// C24: every operation with every team size, every distribution of iterations (one iteration per thread included) and
// every schedule within a deviation bound gives the result of one thread, and no two unordered accesses conflict.
#include "ops.h"
#include "explore.h"
namespace mc {
struct A { int o, v; };
static std::vector<A> acts; static std::vector<u64> base_;
static u64 exec1(const A &a) { rt_ignore(1); env().reset(100 + a.o % 3); rt_ignore(-1); return ops[a.o].f(a.v); }
static std::string nm(const A &a) { return fmt("%s/%d", ops[a.o].name.c_str(), a.v); }
static void prep(bool allv) { defs(); for (int o = 0; o < (int)ops.size(); o++) for (int v = 0; v < (allv ? ops[o].nv : 1); v++) acts.push_back({o, v}); for (auto &a : acts) { Exec e = execute({}, [&] { rt_team(1); return exec1(a); }); if (e.err.size()) fail("%s alone: %s", nm(a).c_str(), e.err.c_str()); base_.push_back(e.h); } }
static void judge(size_t k, int T, const Exec &e, const std::vector<unsigned char> &s, const char *w) { if (e.err.size()) fail("%s with %d threads, schedule %s%s: %s", nm(acts[k]).c_str(), T, schedS(s).c_str(), w, e.err.c_str()); if (e.h != base_[k]) fail("%s with %d threads, schedule %s%s: result differs from the one with one thread", nm(acts[k]).c_str(), T, schedS(s).c_str(), w); }
// all team sizes, default schedule: the race detector covers every interleaving of lock-free regions; threads > trip count
// makes every iteration concurrent with every other one, hence covers every distribution
static void teams() { prep(tier()); int n = 0; for (size_t k = 0; k < acts.size(); k++) { for (int T : {2, 3, 4, 5, 6, 7, 8, 16, 33, 64}) { at(nm(acts[k]).c_str(), T); Exec e = execute({}, [&] { rt_team(T); return exec1(acts[k]); }); judge(k, T, e, e.took, ""); n++; step(); trace(); state(hash(k, T, hbytes(e.took.data(), e.took.size()))); outcome(e.h); } } bound("%zu operation variants x team sizes 2..8,16,33,64 (64 exceeds every trip count: each iteration on its own thread): %d executions, all accesses checked", acts.size(), n); sample("%s with 64 threads", nm(acts[0]).c_str()); }
static void big(int part, int parts, std::vector<int> Ts) { defs(); int n = 0; for (int o = part; o < (int)ops.size(); o += parts) { Exec b = execute({}, [&] { rt_team(1); return exec1({o, 0}); }); if (b.err.size()) fail("%s alone: %s", ops[o].name.c_str(), b.err.c_str()); acts.assign(1, {o, 0}); base_.assign(1, b.h); for (int T : Ts) { at(ops[o].name.c_str(), T); Exec e = execute({}, [&] { rt_team(T); return exec1({o, 0}); }); judge(0, T, e, e.took, ""); n++; step(); trace(); state(hash(o, T, hbytes(e.took.data(), e.took.size()))); outcome(e.h); } } bound("larger rings, operations %d mod %d of %zu, %zu team sizes up to %d: %d executions, all accesses checked", part, parts, ops.size(), Ts.size(), Ts.back(), n); sample("%s with %d threads", ops[part].name.c_str(), Ts.back()); }
static void schedules(int part, int parts, int D, int W, std::vector<int> Ts) { prep(false); long n = 0; for (size_t k = 0; k < acts.size(); k++) if ((int)k % parts == part) for (int T : Ts) { at(nm(acts[k]).c_str(), T, D, W); n += explore([&] { rt_team(T); return exec1(acts[k]); }, D, W, [&](const Exec &e, const std::vector<unsigned char> &s) { judge(k, T, e, s, ""); }); } bound("every schedule with at most %d deviations within the first %d decision points, %zu team sizes from %d to %d, operations %d mod %d of %zu: %ld executions", D, W, Ts.size(), Ts.front(), Ts.back(), part, parts, acts.size(), n); }
// preemption at every single monitored access (not only synchronisation) of operation k
static void fine(int part, int parts, long stride) { prep(false); long n = 0; int used = 0; for (size_t k = 0; k < acts.size(); k++) if ((int)k % parts == part) for (int T : {2, 3}) { auto body = [&] { rt_team(T); return exec1(acts[k]); }; Exec e0 = execute({}, body, 1l << 60, 1); judge(k, T, e0, e0.took, " (counting)"); long K = e0.acc; used += K > 0; long st = std::max(1l, K / stride); for (long x = 0; x < K && !(x && winddown()); x += st) for (int o = 1; o < T; o++) { at(nm(acts[k]).c_str(), T, x, o); Exec e = execute({}, body, x, o); judge(k, T, e, e.took, fmt(" preempted at access %ld to thread choice %d", x, o).c_str()); n++; step(); trace(); state(hash(k, T, x, o)); outcome(e.h); } } bound("preemption at every access (or %ld evenly spaced ones, when there are more) to memory outside the running thread's stack, 2 and 3 threads, operations %d mod %d (%d with parallel regions): %ld executions", stride, part, parts, used / 2, n); }
#if FAM >= 10
SCEN(big0, 0) { big(0, 4, {2, 3, 8, 64}); } SCEN(big1, 0) { big(1, 4, {2, 3, 8, 64}); } SCEN(big2, 0) { big(2, 4, {2, 3, 8, 64}); } SCEN(big3, 0) { big(3, 4, {2, 3, 8, 64}); }
#elif FAM >= 3
SCEN(team_sizes, 0) { teams(); }
SCEN(schedules0, 0) { schedules(0, 2, 1, FAM == 3 ? 30 : 10, {2, 3}); } SCEN(schedules1, 0) { schedules(1, 2, 1, FAM == 3 ? 30 : 10, {2, 3}); }
SCEN(schedules2, 0) { schedules(0, 1, 2, FAM == 3 ? 6 : 3, {2, 3}); }
SCEN(preempt_anywhere, 0) { fine(0, 1, FAM == 3 ? 12 : 6); }
#else
SCEN(team_sizes, 0) { teams(); }
SCEN(schedules0, 0) { schedules(0, 2, 1, 60, {2, 3, 4}); } SCEN(schedules1, 0) { schedules(1, 2, 1, 60, {2, 3, 4}); }
SCEN(schedules2, 0) { schedules(0, 1, 2, 10, {2, 3}); }
SCEN(preempt_anywhere, 0) { fine(0, 1, 40); }
#endif
#if FAM >= 10
SCEN(big_all, 1) { big(0, 1, {2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 33, 48, 63, 64}); }
#else
SCEN(deep0, 1) { schedules(0, 4, 2, 60, {2, 3, 4, 5}); } SCEN(deep1, 1) { schedules(1, 4, 2, 60, {2, 3, 4, 5}); } SCEN(deep2, 1) { schedules(2, 4, 2, 60, {2, 3, 4, 5}); } SCEN(deep3, 1) { schedules(3, 4, 2, 60, {2, 3, 4, 5}); }
SCEN(wide, 1) { schedules(0, 1, 1, 400, {2, 8}); }
SCEN(everywhere0, 1) { fine(0, 3, 4000); } SCEN(everywhere1, 1) { fine(1, 3, 4000); } SCEN(everywhere2, 1) { fine(2, 3, 4000); }
#endif
}
MC_MAIN
