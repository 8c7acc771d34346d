// Stateless exploration under the controlled scheduler: every execution is a fork of the current process.
#pragma once
#include "rt.h"
#include <sys/wait.h>
#include <poll.h>
extern void (*rt_dead)();
namespace mc {
struct Exec { std::vector<unsigned char> opt, took; u64 h = 0; std::string err; long acc = 0; };
template <class F> static Exec execute(const std::vector<unsigned char> &pre, F body, long fine = -1, int fo = 1) {
    int pf[2]; if (pipe(pf)) fail("pipe"); fflush(stdout); pid_t p = fork();
    if (!p) { close(pf[0]); static int fd; fd = pf[1]; run().out = "/dev/null"; signal(SIGALRM, SIG_DFL); alarm(120);
        static auto report = [](u64 h) { static unsigned char o[65536], t[65536]; int n = rt_trace(o, t, 65536); long a = rt_accesses(); const char *e = rt_error(); int el = e ? (int)strlen(e) : 0; FILE *f = fdopen(fd, "w"); fwrite(&h, 8, 1, f); fwrite(&a, 8, 1, f); fwrite(&n, 4, 1, f); fwrite(o, 1, n, f); fwrite(t, 1, n, f); fwrite(&el, 4, 1, f); if (el) fwrite(e, 1, el, f); fflush(f); };
        ::rt_dead = [] { report(0); _exit(0); };
        rt_schedule(pre.data(), pre.size()); rt_fine(fine, fo); u64 h = body(); rt_ignore(1); report(h); _exit(0); }
    close(pf[1]); std::string b; char buf[65536]; ssize_t r; while ((r = read(pf[0], buf, sizeof buf)) > 0) b.append(buf, r); close(pf[0]); int st; waitpid(p, &st, 0);
    Exec e; if (b.size() < 24) { e.err = WIFSIGNALED(st) ? fmt("the execution died with signal %d%s", WTERMSIG(st), WTERMSIG(st) == SIGALRM ? " (no end within 120 s)" : "") : fmt("the execution ended early, status %x", st); return e; }
    const char *c = b.data(); memcpy(&e.h, c, 8); memcpy(&e.acc, c + 8, 8); int n; memcpy(&n, c + 16, 4); e.opt.assign(c + 20, c + 20 + n); e.took.assign(c + 20 + n, c + 20 + 2 * n); int el; memcpy(&el, c + 20 + 2 * n, 4); e.err.assign(c + 24 + 2 * n, el); return e;
}
static std::string schedS(const std::vector<unsigned char> &v) { std::string s; size_t l = v.size(); while (l && !v[l - 1]) l--; for (size_t i = 0; i < l; i++) if (v[i]) s += fmt("%zu:%d ", i, v[i]); return "[" + s + "]"; }
// Wind-down: when a scenario has used up its time (a change may multiply the decision points), schedules beyond the default
// one of each program are no longer expanded; the scenario is then marked as capped. Never reached on the unchanged tree.
static bool winddown() { static const double t0 = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec; }(); static const double soft = getenv("MC_SOFT") ? atof(getenv("MC_SOFT")) : 1e18, end = getenv("MC_END") ? atof(getenv("MC_END")) : 1e18; timespec t, u; clock_gettime(CLOCK_MONOTONIC, &t); clock_gettime(CLOCK_REALTIME, &u); if (t.tv_sec - t0 < soft && u.tv_sec < end) return false; run().capped = true; return true; }
// every schedule with at most D deviations from the default one, deviations only at the first W decision points.
// Returns the number of executions; check(e, schedule) judges each.
template <class F, class C> static long explore(F body, int D, int W, C check) {
    std::vector<std::pair<std::vector<unsigned char>, int>> stack; stack.push_back({{}, 0}); long n = 0;
    while (!stack.empty()) { if (n && winddown()) break; auto [pre, dev] = stack.back(); stack.pop_back(); Exec e = execute(pre, body); n++; check(e, e.took.size() ? e.took : pre);
        step(); state(hash(hbytes(e.took.data(), e.took.size()), e.opt.size(), D)); outcome(e.h);
        if (dev < D && !winddown()) for (size_t i = pre.size(); i < e.opt.size() && (int)i < W; i++) for (int c = 1; c < e.opt[i]; c++) { std::vector<unsigned char> q(e.took.begin(), e.took.begin() + i); q.push_back(c); stack.push_back({q, dev + 1}); } }
    trace(n); return n;
}
}
