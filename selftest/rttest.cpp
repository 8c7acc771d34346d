// Self test of the controlled scheduler: constructs that are right must stay quiet, broken ones must be reported.
// Run: bash /verif/selftest/rttest.sh
#include "mc.h"
using namespace mc;
#include "explore.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <atomic>
#include <vector>
using namespace mc;
static int sh[256];
#define CASE(n, ...) static u64 n() { u64 s = 0; memset(sh, 0, sizeof sh); __VA_ARGS__; for (int i = 0; i < 256; i++) s = s * 31 + sh[i]; return s; }
CASE(dyn_ok, _Pragma("omp parallel for schedule(dynamic)") for (int i = 0; i < 100; i++) sh[i] = i)
CASE(dyn_bad, int tmp; _Pragma("omp parallel for schedule(dynamic)") for (int i = 0; i < 100; i++) { tmp = i; sh[i] = tmp; })
CASE(gui_bad, _Pragma("omp parallel for schedule(guided)") for (int i = 0; i < 100; i++) { sh[i / 2] += i; })
CASE(red_ok, long t = 0; _Pragma("omp parallel for reduction(+:t)") for (int i = 0; i < 100; i++) t += i; sh[0] = t)
CASE(coll_ok, _Pragma("omp parallel for collapse(2) schedule(static,1)") for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j++) sh[i * 10 + j] = i)
CASE(ord_ok, int t = 0; _Pragma("omp parallel for ordered schedule(dynamic)") for (int i = 0; i < 20; i++) { sh[i] = i; _Pragma("omp ordered") { t = t * 3 + i; } } sh[200] = t)
CASE(ord_bad, int t = 0; _Pragma("omp parallel for ordered schedule(static,1)") for (int i = 0; i < 20; i++) { sh[0] = i; _Pragma("omp ordered") { t = t * 3 + i; } } sh[200] = t)
CASE(task_ok, _Pragma("omp parallel") _Pragma("omp single") { for (int i = 0; i < 40; i++) _Pragma("omp task firstprivate(i)") sh[i] = i; _Pragma("omp taskwait") sh[50] = sh[3] + sh[39]; })
CASE(task_bad, _Pragma("omp parallel") _Pragma("omp single") { for (int i = 0; i < 10; i++) _Pragma("omp task firstprivate(i)") sh[i / 2] = i; })
CASE(task_bad2, _Pragma("omp parallel") _Pragma("omp single") { _Pragma("omp task") sh[3] = 4; sh[50] = sh[3]; })
CASE(task_many, _Pragma("omp parallel") _Pragma("omp single") { for (int i = 0; i < 200; i++) _Pragma("omp task firstprivate(i)") sh[i] = i; })
CASE(tl_ok, _Pragma("omp parallel") _Pragma("omp single") { _Pragma("omp taskloop") for (int i = 0; i < 100; i++) sh[i] = i; sh[101] = sh[99]; })
CASE(tl_bad, _Pragma("omp parallel") _Pragma("omp single") { _Pragma("omp taskloop grainsize(1)") for (int i = 0; i < 10; i++) sh[i / 2] += i; })
CASE(tg_ok, _Pragma("omp parallel") _Pragma("omp single") { _Pragma("omp taskgroup") { for (int i = 0; i < 5; i++) _Pragma("omp task firstprivate(i)") { _Pragma("omp task firstprivate(i)") sh[i] = i; } } sh[7] = sh[4]; })
CASE(tnum_ok, int scr[64]; _Pragma("omp parallel") { scr[omp_get_thread_num()] = 1; _Pragma("omp barrier") _Pragma("omp single") sh[0] = 4; _Pragma("omp sections") { _Pragma("omp section") sh[1] = 1; _Pragma("omp section") sh[2] = sh[0]; } _Pragma("omp critical") sh[3] += 5; _Pragma("omp barrier") _Pragma("omp master") sh[3] = 6; })
CASE(scopy, int v; _Pragma("omp parallel private(v)") { _Pragma("omp single copyprivate(v)") v = 7; _Pragma("omp atomic") sh[0] += (v == 7); _Pragma("omp barrier") _Pragma("omp single") sh[0] = sh[0] == omp_get_num_threads(); })
CASE(thr_ok, std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([k] { for (int i = k; i < 100; i += 4) sh[i] = i; }); for (auto &x : t) x.join(); sh[200] = sh[99])
CASE(thr_bad, std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([k] { sh[0] += k; }); for (auto &x : t) x.join(); sh[200] = sh[99])
CASE(thr_mtx, static std::mutex m; std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([k] { std::lock_guard<std::mutex> g(m); sh[0] += k; }); for (auto &x : t) x.join())
CASE(fut_ok, auto f = std::async(std::launch::async, [] { sh[3] = 9; return 5; }); sh[1] = f.get(); sh[2] = sh[3])
CASE(cv_ok, static std::mutex m; static std::condition_variable c; static bool r; r = false; std::thread t([] { sh[1] = 3; std::lock_guard<std::mutex> g(m); r = true; c.notify_one(); }); { std::unique_lock<std::mutex> g(m); c.wait(g, [] { return r; }); } sh[2] = sh[1]; t.join())
CASE(spin_ok, static std::atomic<int> f; f = 0; std::thread t([] { while (!f.load(std::memory_order_acquire)); sh[2] = sh[1]; }); sh[1] = 5; f.store(1, std::memory_order_release); t.join())
CASE(spin2_ok, static std::atomic<int> f; f = 0; std::thread t([] { sh[1] = 5; f.store(1, std::memory_order_release); }); while (!f.load(std::memory_order_acquire)); sh[2] = sh[1]; t.join())
CASE(spin_bad, static std::atomic<int> f; f = 0; std::thread t([] { sh[1] = 5; f.store(1, std::memory_order_relaxed); }); while (!f.load(std::memory_order_relaxed)); sh[2] = sh[1]; t.join())
struct T { const char *n; u64 (*f)(); bool bad; };
#define X(n, b) {#n, n, b}
static T ts[] = {X(dyn_ok,0), X(dyn_bad,1), X(gui_bad,1), X(red_ok,0), X(coll_ok,0), X(ord_ok,0), X(ord_bad,1), X(task_ok,0), X(task_bad,1), X(task_bad2,1), X(task_many,0), X(tl_ok,0), X(tl_bad,1), X(tg_ok,0), X(tnum_ok,0), X(scopy,0), X(thr_ok,0), X(thr_bad,1), X(thr_mtx,0), X(fut_ok,0), X(cv_ok,0), X(spin_ok,0), X(spin2_ok,0), X(spin_bad,1)};
SCEN(all, 0) { for (auto &t : ts) { Exec b = execute({}, [&] { rt_team(1); return t.f(); }); std::string e = b.err; int n = 0; for (int T : {2, 3, 8, 64}) { int D = T > 3 ? 0 : 2; explore([&] { rt_team(T); return t.f(); }, D, T == 8 || T == 64 ? 0 : 12, [&](const Exec &x, const std::vector<unsigned char> &s) { n++; if (e.empty() && x.err.size()) e = fmt("T=%d %s: ", T, schedS(s).c_str()) + x.err; if (e.empty() && x.h != b.h) e = fmt("T=%d %s differs", T, schedS(s).c_str()); }); } fprintf(stderr, "%s %-10s %d %s\n", (!e.empty()) == t.bad ? "ok  " : "BAD ", t.n, n, e.substr(0, 150).c_str()); } }
MC_MAIN
