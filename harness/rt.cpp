// Controlled-scheduler runtime. Compiled WITHOUT -fsanitize=thread; supplies the __tsan_* hooks of the instrumented harness
// and library code, the OpenMP runtime (GOMP_*, omp_*), static-initialisation guards and mutexes.
#include "rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <unistd.h>
#include <cxxabi.h>
#include <execinfo.h>
extern "C" { void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void __real_free(void *); void *__real_realloc(void *, size_t); }
#define memcpy __real_memcpy
#define memmove __real_memmove
#define memset __real_memset
#define free __real_free
#define realloc __real_realloc
typedef uint64_t u64; typedef uint32_t u32;
#define MAXT 80
#define RT extern "C" __attribute__((noinline))
struct Team { int n; int arrived; unsigned gen; int left; unsigned single; struct WS { unsigned seq; long next, end, incr, chunk; bool guided; int nthr; bool init; } ws[64]; unsigned maxseq; long ordnext; void *copyp; int tasks; u32 tvc[MAXT]; };
struct Grp { int n; u32 vc[MAXT]; Grp *up; };
struct Th { int id; Th *parent; Grp kids; Grp *grp; bool istask, usesnum, tlock; void *buf; void *jarg2; bool pooltask; bool ext, done; void *ret; void *(*start)(void *); long ordcur; sem_t sem; u32 vc[MAXT]; bool blocked; bool (*pred)(void *); void *parg; bool live; int ign; Team *team; int tnum; unsigned sseq, wseq; Th *pool[MAXT]; int npool; void (*job)(void *); void *jarg; pthread_t pt; bool started; u64 lo, hi; };
static Th th[MAXT]; static int nth = 0; static int live = 1; static int unj = 0; static int icv = 1; static int regions = 0;
static __thread Th *self = nullptr; static __thread int inrt = 0;
struct In { In() { inrt++; } ~In() { inrt--; } };
static char err_[4096]; static bool haserr = false;
static void err(const char *f, ...) { if (haserr) return; haserr = true; va_list ap; va_start(ap, f); vsnprintf(err_, sizeof err_, f, ap); va_end(ap); }
static void name(u64 pc, char *b, size_t n) { Dl_info d; if (dladdr((void *)pc, &d) && d.dli_sname) { int st; char *s = abi::__cxa_demangle(d.dli_sname, 0, 0, &st); snprintf(b, n, "%.180s", s ? s : d.dli_sname); free(s); } else if (dladdr((void *)pc, &d)) snprintf(b, n, "+%lx", (long)(pc - (u64)d.dli_fbase)); else snprintf(b, n, "%lx", (long)pc); }
static Th *newth() { if (nth >= MAXT) { fprintf(stderr, "rt: too many threads\n"); _exit(9); } Th *t = &th[nth]; memset(t, 0, sizeof *t); t->id = nth++; sem_init(&t->sem, 0, 0); t->vc[t->id] = 1; return t; }
static Th *me() { if (!self && nth == 0) { self = newth(); self->live = true; self->pt = pthread_self(); } return self; }
static inline void join(u32 *a, const u32 *b) { for (int i = 0; i < nth; i++) if (b[i] > a[i]) a[i] = b[i]; }
// ---- decisions ---------------------------------------------------------------------------------------------------------
static unsigned char pre_[65536], opt_[65536], took_[65536]; static int npre = 0, npos = 0; static long fine_k = -1; static int fine_o = 1; static long acc = 0;
static int forced = -1; static long streak = 0;
static int rotate_ = 0;   // >0: the running thread is offered last (work-sharing hand-outs, spinning)
static void schedule() {   // called by the running thread; returns when it is scheduled again
    Th *m = me(); int en[MAXT], n = 0;
    auto ok = [](Th *t) { return t->live && (!t->blocked || t->pred(t->parg)); };
    int rot = rotate_; rotate_ = 0;
    if (!rot && ok(m)) en[n++] = m->id;
    if (rot) { for (int d = 1; d <= nth; d++) { int i = (m->id + d) % nth; if (ok(&th[i])) en[n++] = i; } } else
    for (int i = 0; i < nth; i++) if (i != m->id && ok(&th[i])) en[n++] = i;
    if (n == 0) { err("deadlock: no thread can continue"); printf("%s\n", err_); extern void (*rt_dead)(); if (rt_dead) rt_dead(); _exit(8); }
    int c = 0;
    if (n > 1) { if (forced >= 0) { c = forced % n; forced = -1; } else { c = npos < npre ? pre_[npos] : 0; if (c >= n) c = 0; if (npos < 65536) { opt_[npos] = n; took_[npos] = c; } npos++; } }
    Th *t = &th[en[c]];
    if (t != m) { streak = 0; sem_post(&t->sem); while (sem_wait(&m->sem)) {} }
}
void (*rt_dead)() = nullptr;
static void point() { if (live > 1 && me() && !self->ign) { if (++streak > 400) { streak = 0; rotate_ = 1; } schedule(); } }
static void turn() { rotate_ = 1; point(); rotate_ = 0; }
static void block(bool (*p)(void *), void *a) { Th *m = me(); if (p(a)) return; m->blocked = true; m->pred = p; m->parg = a; schedule(); m->blocked = false; }
// ---- shadow memory ---------------------------------------------------------------------------------------------------------
struct Slot { u32 clk; u32 pc; unsigned char tid, mask, w, pad; };
struct Cell { Slot in[2]; Slot *ov; unsigned short n, cap; unsigned char nin; };
struct Page { u64 key; Cell c[512]; };
static Page **pt_ = nullptr; static size_t pcap = 0, pn = 0; static Page *last = nullptr; static u64 base = 0;
static Page *page(u64 k, bool mk) {
    if (last && last->key == k) return last;
    if (!pt_) { pcap = 4096; pt_ = (Page **)calloc(pcap, sizeof *pt_); }
    size_t i = (k * 0x9E3779B97F4A7C15ull >> 20) & (pcap - 1);
    while (pt_[i]) { if (pt_[i]->key == k) return last = pt_[i]; i = (i + 1) & (pcap - 1); }
    if (!mk) return nullptr;
    Page *p = (Page *)calloc(1, sizeof(Page)); p->key = k; pt_[i] = p; pn++;
    if (2 * pn > pcap) { Page **o = pt_; size_t oc = pcap; pcap *= 2; pt_ = (Page **)calloc(pcap, sizeof *pt_); for (size_t j = 0; j < oc; j++) if (o[j]) { size_t q = (o[j]->key * 0x9E3779B97F4A7C15ull >> 20) & (pcap - 1); while (pt_[q]) q = (q + 1) & (pcap - 1); pt_[q] = o[j]; } free(o); }
    return last = p;
}
static inline int cn(Cell *c) { return c->nin + c->n; }
static inline Slot *cs(Cell *c, int i) { return i < c->nin ? &c->in[i] : &c->ov[i - c->nin]; }
static void cdel(Cell *c, int i) { int l = cn(c) - 1; *cs(c, i) = *cs(c, l); if (c->n) c->n--; else c->nin--; }
static void cadd(Cell *c, Slot s) { if (c->nin < 2 && c->n == 0) { c->in[c->nin++] = s; return; } if (c->n == c->cap) { c->cap = c->cap ? c->cap * 2 : 4; c->ov = (Slot *)realloc(c->ov, c->cap * sizeof(Slot)); } c->ov[c->n++] = s; }
static void word(u64 w, unsigned mask, bool wr, u64 pc) {
    Th *m = self; Page *p = page(w >> 9, true); Cell *c = &p->c[w & 511]; u32 now = m->vc[m->id];
    for (int i = 0; i < cn(c);) { Slot *s = cs(c, i);
        if (s->tid == m->id) { if (s->clk == now && (s->mask & mask) == mask && (s->w || !wr)) return; if ((mask & s->mask) == s->mask && (wr || !s->w)) { cdel(c, i); continue; } i++; continue; }
        bool hb = s->clk <= m->vc[s->tid];
        if ((s->mask & mask) && (s->w || wr) && !hb) { char a[256], b[256]; name(pc, a, sizeof a); name(base + s->pc, b, sizeof b); err("conflicting unordered accesses: thread %d %s in %s, thread %d %s in %s", s->tid, s->w ? "writes" : "reads", b, m->id, wr ? "writes" : "reads", a); }
        if (hb && (mask & s->mask) == s->mask && (wr || !s->w)) { cdel(c, i); continue; }
        i++; }
    Slot s; s.clk = now; s.pc = (u32)(pc - base); s.tid = m->id; s.mask = mask; s.w = wr; s.pad = 0; cadd(c, s);
}
static inline void access_(u64 a, u64 n, bool wr, u64 pc) {
    if (live + unj <= 1 || inrt || !self || self->ign) return;
    In in; if (haserr) return;
    if (fine_k >= 0 && !(a >= self->lo && a < self->hi)) { if (acc++ == fine_k) { forced = fine_o; schedule(); } }
    u64 e = a + n; while (a < e) { u64 w = a >> 3; unsigned o = a & 7, k = 8 - o; if (k > e - a) k = e - a; word(w, ((1u << k) - 1) << o, wr, pc); a += k; }
}
static void forget(u64 a, u64 n) { if (!pt_ || !n) return; In in; for (u64 w = a >> 3; w <= (a + n - 1) >> 3; w++) { Page *p = page(w >> 9, false); if (!p) { w |= 511; continue; } Cell *c = &p->c[w & 511]; c->n = 0; c->nin = 0; } }
#define PC ((u64)__builtin_return_address(0))
#define ACC(n) RT void __tsan_read##n(void *a) { access_((u64)a, n, false, PC); } RT void __tsan_write##n(void *a) { access_((u64)a, n, true, PC); } RT void __tsan_unaligned_read##n(void *a) { access_((u64)a, n, false, PC); } RT void __tsan_unaligned_write##n(void *a) { access_((u64)a, n, true, PC); } RT void __tsan_volatile_read##n(void *a) { access_((u64)a, n, false, PC); } RT void __tsan_volatile_write##n(void *a) { access_((u64)a, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
RT void __tsan_read_range(void *a, u64 n) { access_((u64)a, n, false, PC); }
RT void __tsan_write_range(void *a, u64 n) { access_((u64)a, n, true, PC); }
RT void __tsan_vptr_update(void **a, void *) { access_((u64)a, 8, true, PC); }
RT void __tsan_vptr_read(void **a) { access_((u64)a, 8, false, PC); }
RT void __tsan_func_entry(void *) {}
RT void __tsan_func_exit() {}
RT void __tsan_init() {}
// ---- synchronisation objects -----------------------------------------------------------------------------------------------
struct Obj { u64 key; u32 vc[MAXT]; bool busy, done; int owner, cnt, readers; };
static Obj **ob_ = nullptr; static size_t ocap = 0, on = 0;
static Obj *obj(const void *a) { u64 k = (u64)a; if (!ob_) { ocap = 1024; ob_ = (Obj **)calloc(ocap, sizeof *ob_); } size_t i = (k * 0x9E3779B97F4A7C15ull >> 20) & (ocap - 1); while (ob_[i]) { if (ob_[i]->key == k) return ob_[i]; i = (i + 1) & (ocap - 1); } Obj *o = (Obj *)calloc(1, sizeof(Obj)); o->key = k; o->owner = -1; ob_[i] = o; on++; if (2 * on > ocap) { Obj **x = ob_; size_t oc = ocap; ocap *= 2; ob_ = (Obj **)calloc(ocap, sizeof *ob_); for (size_t j = 0; j < oc; j++) if (x[j]) { size_t q = (x[j]->key * 0x9E3779B97F4A7C15ull >> 20) & (ocap - 1); while (ob_[q]) q = (q + 1) & (ocap - 1); ob_[q] = x[j]; } free(x); } return o; }
static void acq(Obj *o) { if (me()) join(self->vc, o->vc); }
static void rel(Obj *o) { if (me()) { join(o->vc, self->vc); self->vc[self->id]++; } }
static bool not_busy(void *o) { return !((Obj *)o)->busy; }
static bool not_used(void *o) { return !((Obj *)o)->busy && !((Obj *)o)->readers; }
static void lock(const void *a, bool rec) { In in; if (!me()) return; Obj *o = obj(a); if (rec && o->busy && o->owner == self->id) { o->cnt++; return; } point(); block(not_used, o); o->busy = true; o->owner = self->id; o->cnt = 1; acq(o); }
static bool trylock(const void *a) { In in; if (!me()) return true; Obj *o = obj(a); point(); if (o->busy || o->readers) return false; o->busy = true; o->owner = self->id; o->cnt = 1; acq(o); return true; }
static void rlock(const void *a) { In in; if (!me()) return; Obj *o = obj(a); point(); block(not_busy, o); o->readers++; acq(o); }
static void unlock(const void *a) { In in; if (!me()) return; Obj *o = obj(a); if (o->readers && !o->busy) { o->readers--; rel(o); point(); return; } if (--o->cnt > 0) return; rel(o); o->busy = false; o->owner = -1; point(); }
// static-initialisation guards
RT int __cxa_guard_acquire(u64 *g) { In in; Obj *o = obj(g); if (!me()) return !*(char *)g; point(); for (;;) { if (*(volatile char *)g) { acq(o); return 0; } if (!o->busy) break; if (o->owner == self->id) { err("recursive initialisation of a static"); return 0; } block(not_busy, o); } o->busy = true; o->owner = self->id; acq(o); return 1; }
RT void __cxa_guard_release(u64 *g) { In in; Obj *o = obj(g); *(volatile char *)g = 1; o->done = true; o->busy = false; if (me()) { rel(o); point(); } }
RT void __cxa_guard_abort(u64 *g) { In in; Obj *o = obj(g); o->busy = false; if (me()) { rel(o); point(); } }
RT int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE); return 0; }
RT int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return trylock(m) ? 0 : 16; }
RT int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { unlock(m); return 0; }
RT int __wrap_pthread_rwlock_rdlock(void *m) { rlock(m); return 0; }
RT int __wrap_pthread_rwlock_wrlock(void *m) { lock(m, false); return 0; }
RT int __wrap_pthread_rwlock_unlock(void *m) { unlock(m); return 0; }
RT int __wrap_pthread_spin_lock(void *m) { lock(m, false); return 0; }
RT int __wrap_pthread_spin_unlock(void *m) { unlock(m); return 0; }
RT int __wrap_pthread_once(pthread_once_t *c, void (*f)()) { { In in; Obj *o = obj(c); if (me()) { point(); for (;;) { if (o->done) { acq(o); return 0; } if (!o->busy) break; block(not_busy, o); } } else if (o->done) return 0; o->busy = true; } f(); In in; Obj *o = obj(c); o->busy = false; o->done = true; *(int *)c = 2; if (me()) { rel(o); point(); } return 0; }
// atomics: every one a decision point, except loads of a guard whose initialisation has ended (they commute with everything)
static void apoint(const void *a, int mo, bool ld, bool st) { In in; if (!me()) return; Obj *o = obj(a); if (!(o->done && !st)) point(); if (ld && mo != 0) acq(o); if (st && mo != 0 && mo != 2) rel(o); }
// relaxed stores break release sequences conservatively: clocks of the object are kept (no false alarms)
#define AT(B, T) \
 RT T __tsan_atomic##B##_load(const volatile T *a, int mo) { apoint((void *)a, mo, true, false); return *a; } \
 RT void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { apoint((void *)a, mo, false, true); *a = v; } \
 RT T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { apoint((void *)a, mo, true, true); T o = *a; *a = v; return o; } \
 RT T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { apoint((void *)a, mo, true, true); T o = *a; *a = o + v; return o; } \
 RT T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { apoint((void *)a, mo, true, true); T o = *a; *a = o - v; return o; } \
 RT T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { apoint((void *)a, mo, true, true); T o = *a; *a = o & v; return o; } \
 RT T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { apoint((void *)a, mo, true, true); T o = *a; *a = o | v; return o; } \
 RT T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { apoint((void *)a, mo, true, true); T o = *a; *a = o ^ v; return o; } \
 RT T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { apoint((void *)a, mo, true, true); T o = *a; *a = ~(o & v); return o; } \
 RT int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int) { apoint((void *)a, mo, true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 RT int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int) { apoint((void *)a, mo, true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 RT T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int mo, int) { apoint((void *)a, mo, true, true); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static int fence_;
RT void __tsan_atomic_thread_fence(int) { apoint(&fence_, 4, true, true); }
RT void __tsan_atomic_signal_fence(int) {}
// ---- memory functions and heap -----------------------------------------------------------------------------------------------
RT void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access_((u64)s, n, false, PC); access_((u64)d, n, true, PC); } return memcpy(d, s, n); }
RT void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access_((u64)s, n, false, PC); access_((u64)d, n, true, PC); } return memmove(d, s, n); }
RT void *__wrap_memset(void *d, int c, size_t n) { if (n) access_((u64)d, n, true, PC); return memset(d, c, n); }
static void freeing(void *p, u64 pc) { if (!p) return; size_t n = malloc_usable_size(p); if (live + unj > 1 && self && !self->ign && !inrt) { for (u64 w = (u64)p >> 3; w <= ((u64)p + n - 1) >> 3; w++) { Page *q = page(w >> 9, false); if (!q) { w |= 511; continue; } if (cn(&q->c[w & 511])) access_(w << 3, 8, true, pc); } } forget((u64)p, n); }
RT void __wrap_free(void *p) { freeing(p, PC); free(p); }
RT void *__wrap_realloc(void *p, size_t n) { forget((u64)p, p ? malloc_usable_size(p) : 0); return realloc(p, n); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::align_val_t a) { void *p = nullptr; if (posix_memalign(&p, (size_t)a < 8 ? 8 : (size_t)a, n ? n : 1)) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { freeing(p, PC); free(p); }
void operator delete[](void *p) noexcept { freeing(p, PC); free(p); }
void operator delete(void *p, size_t) noexcept { freeing(p, PC); free(p); }
void operator delete[](void *p, size_t) noexcept { freeing(p, PC); free(p); }
void operator delete(void *p, std::align_val_t) noexcept { freeing(p, PC); free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { freeing(p, PC); free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { freeing(p, PC); free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { freeing(p, PC); free(p); }
// ---- threads ------------------------------------------------------------------------------------------------------------------
static bool has_job(void *t) { return ((Th *)t)->job != nullptr; }
static void stack_of(Th *t) { pthread_attr_t a; void *lo; size_t n; if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &lo, &n); t->lo = (u64)lo; t->hi = (u64)lo + n; pthread_attr_destroy(&a); } }
static void *body(void *a) { Th *t = (Th *)a; self = t; inrt = 1; stack_of(t); while (sem_wait(&t->sem)) {}
    for (;;) { void (*j)(void *) = t->job; void *x = t->jarg; inrt = 0; j(x); inrt = 1; t->job = nullptr; if (t->team) t->team->left--; t->live = false; live--; t->vc[t->id]++;
        // hand the baton on; this thread is not enabled until it gets another job
        schedule(); }
    return nullptr; }
static Th *spawn() { Th *t = newth(); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256u << 20); static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = nullptr; if (!real) *(void **)&real = dlsym(RTLD_NEXT, "pthread_create"); if (real(&t->pt, &a, body, t)) { fprintf(stderr, "rt: pthread_create\n"); _exit(9); } pthread_attr_destroy(&a); return t; }
static void give(Th *w, void (*f)(void *), void *a, Team *tm, int num) { join(w->vc, self->vc); w->job = f; w->jarg = a; w->team = tm; w->tnum = num; w->sseq = w->wseq = 0; w->live = true; w->blocked = false; live++; }
static bool all_left(void *t) { return ((Team *)t)->left == 0 && ((Team *)t)->tasks == 0; }
static void parallel(void (*fn)(void *), void *data, unsigned nt, Team *tm) {
    In in; Th *m = me(); if (!m) { inrt--; fn(data); inrt++; return; }
    int n = m->team ? 1 : nt ? (int)nt : icv; if (n > 64) n = 64; if (n < 1) n = 1; regions++;
    Team *st = m->team; int sn = m->tnum; unsigned ss = m->sseq, sw = m->wseq; tm->n = n; tm->left = n - 1; m->team = tm; m->tnum = 0; m->sseq = m->wseq = 0; int sl = live;
    if (!m->hi) stack_of(m);
    Th *ws[MAXT]; for (int i = 1; i < n; i++) { if (m->npool < i) m->pool[m->npool++] = spawn(); ws[i] = m->pool[i - 1]; give(ws[i], fn, data, tm, i); }
    if (n > 1) { m->vc[m->id]++; point(); }
    { int k = inrt; inrt = 0; fn(data); inrt = k; }
    if (n > 1) { block(all_left, tm); for (int i = 1; i < n; i++) join(m->vc, ws[i]->vc); join(m->vc, tm->tvc); m->vc[m->id]++; }
    m->team = st; m->tnum = sn; m->sseq = ss; m->wseq = sw; (void)sl;
}
RT void rt_run(int n, void (*fn)(int)) {
    In in; Th *m = me(); if (!m->hi) stack_of(m); static Team tm; memset(&tm, 0, sizeof tm); tm.n = n; tm.left = n; static void (*f)(int); f = fn; Th *ws[MAXT];
    struct L { static void go(void *a) { self->team = nullptr; f((int)(long)a); In in; tm.left--; } };
    for (int i = 0; i < n; i++) { ws[i] = spawn(); give(ws[i], L::go, (void *)(long)i, nullptr, 0); }
    m->vc[m->id]++; block(all_left, &tm); for (int i = 0; i < n; i++) join(m->vc, ws[i]->vc);
}
// threads made by the code under test itself (std::thread, pthread_create): controlled like the others
static void ext_body(void *a) { Th *t = self; t->ret = t->start(a); In in; Obj *o = obj(t); join(o->vc, t->vc); t->vc[t->id]++; t->done = true; }
static bool ext_done(void *t) { return ((Th *)t)->done && !((Th *)t)->live; }
RT int pthread_create(pthread_t *p, const pthread_attr_t *, void *(*f)(void *), void *a) { In in; me(); if (!self->hi) stack_of(self); Th *w = nullptr; for (int i = 0; i < nth && !w; i++) if (th[i].ext && th[i].tlock && !th[i].live && !th[i].job) w = &th[i]; if (!w) w = spawn(); w->ext = true; w->done = w->tlock = false; w->start = f; unj++; give(w, ext_body, a, nullptr, 0); *p = w->pt; self->vc[self->id]++; point(); return 0; }
RT int pthread_join(pthread_t p, void **r) { In in; if (!me()) return 0; for (int i = 0; i < nth; i++) if (th[i].ext && !th[i].tlock && pthread_equal(th[i].pt, p)) { block(ext_done, &th[i]); acq(obj(&th[i])); th[i].tlock = true; unj--; if (r) *r = th[i].ret; return 0; } return 3; }
RT int pthread_detach(pthread_t) { return 0; }
struct Cw { Obj *o; int n; }; static bool cond_moved(void *c) { return ((Cw *)c)->o->cnt != ((Cw *)c)->n; }
RT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { In in; if (!me()) return 0; Cw w = {obj(c), obj(c)->cnt}; unlock(m); block(cond_moved, &w); lock(m, false); return 0; }
RT int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *m, const struct timespec *) { In in; if (!me()) return 0; unlock(m); turn(); lock(m, false); return 0; }
RT int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *m, clockid_t, const struct timespec *) { In in; if (!me()) return 0; unlock(m); turn(); lock(m, false); return 0; }
RT int pthread_cond_signal(pthread_cond_t *c) { In in; if (me()) { obj(c)->cnt++; point(); } return 0; }
RT int pthread_cond_broadcast(pthread_cond_t *c) { In in; if (me()) { obj(c)->cnt++; point(); } return 0; }
RT int nanosleep(const struct timespec *, struct timespec *) { In in; if (me()) turn(); return 0; }
RT int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { In in; if (me()) turn(); return 0; }
RT int usleep(useconds_t) { In in; if (me()) turn(); return 0; }
struct Fw { volatile unsigned *a; unsigned v; }; static bool fut_moved(void *f) { return *((Fw *)f)->a != ((Fw *)f)->v; }
RT bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *a, unsigned v, bool, long, long) { In in; if (!me()) return true; Fw f = {a, v}; block(fut_moved, &f); return true; }
RT void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(void *, unsigned *) { In in; if (me()) point(); }
RT void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { Team t; memset(&t, 0, sizeof t); parallel(fn, data, nt, &t); }
struct Bar { Team *t; unsigned g; }; static bool gen_moved(void *b) { return ((Bar *)b)->t->gen != ((Bar *)b)->g; }
static bool no_tasks(void *t) { return ((Team *)t)->tasks == 0; }
static void barrier() { In in; Th *m = me(); if (!m || !m->team || m->team->n == 1) return; Team *t = m->team; rel(obj(t)); if (++t->arrived == t->n) { t->arrived = 0; t->gen++; } else { Bar b = {t, t->gen}; block(gen_moved, &b); } block(no_tasks, t); acq(obj(t)); join(m->vc, t->tvc); point(); }
RT void GOMP_barrier() { barrier(); }
static int crit_, atom_;
RT void GOMP_critical_start() { lock(&crit_, false); }
RT void GOMP_critical_end() { unlock(&crit_); }
RT void GOMP_critical_name_start(void **p) { lock(p, false); }
RT void GOMP_critical_name_end(void **p) { unlock(p); }
RT void GOMP_atomic_start() { lock(&atom_, false); }
RT void GOMP_atomic_end() { unlock(&atom_); }
RT bool GOMP_single_start() { In in; Th *m = me(); if (!m || !m->team) return true; point(); bool r = m->sseq == m->team->single; if (r) m->team->single++; m->sseq++; return r; }
static Team::WS *ws_of(Th *m, bool init, long s, long e, long inc, long ch, bool guided) { Team *t = m->team; Team::WS *w = &t->ws[m->wseq % 64]; if (init && (!w->init || w->seq != m->wseq)) { w->seq = m->wseq; w->init = true; w->next = s; w->end = e; w->incr = inc; w->chunk = ch < 1 ? 1 : ch; w->guided = guided; w->nthr = 0; } return w; }
static Team solo_;
static bool take(Team::WS *w, long *a, long *b) { if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false; long c = w->chunk * w->incr; *a = w->next; w->next += c; if (w->incr > 0 ? w->next > w->end : w->next < w->end) w->next = w->end; *b = w->next; return true; }
static bool lstart(long s, long e, long i, long c, long *a, long *b) { In in; Th *m = me(); if (!m->team) { m->team = &solo_; m->wseq = solo_.maxseq++; solo_.n = 1; } turn(); return take(ws_of(m, true, s, e, i, c, false), a, b); }
static bool lnext(long *a, long *b) { In in; Th *m = me(); turn(); return take(ws_of(m, false, 0, 0, 0, 0, false), a, b); }
static void lend(bool wait) { Th *m = me(); m->wseq++; if (m->team == &solo_) { m->team = nullptr; return; } if (wait) barrier(); }
#define LOOPS(k) RT bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b) { return lstart(s, e, i, c, a, b); } RT bool GOMP_loop_##k##_next(long *a, long *b) { return lnext(a, b); } \
 RT bool GOMP_loop_ull_##k##_start(bool, u64 s, u64 e, u64 i, u64 c, u64 *a, u64 *b) { return lstart(s, e, i, c, (long *)a, (long *)b); } RT bool GOMP_loop_ull_##k##_next(u64 *a, u64 *b) { return lnext((long *)a, (long *)b); } \
 RT void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { Team t; memset(&t, 0, sizeof t); Team::WS *w = &t.ws[0]; w->seq = 0; w->init = true; w->next = s; w->end = e; w->incr = i; w->chunk = c < 1 ? 1 : c; parallel(fn, d, nt, &t); }
LOOPS(dynamic) LOOPS(guided) LOOPS(static) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define LOOPR(k) RT bool GOMP_loop_##k##_start(long s, long e, long i, long *a, long *b) { return lstart(s, e, i, 1, a, b); } RT bool GOMP_loop_##k##_next(long *a, long *b) { return lnext(a, b); } \
 RT void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { Team t; memset(&t, 0, sizeof t); Team::WS *w = &t.ws[0]; w->seq = 0; w->init = true; w->next = s; w->end = e; w->incr = i; w->chunk = 1; parallel(fn, d, nt, &t); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
// ordered loops: chunks are numbered when handed out; the ordered part of one waits for all chunks before it
struct Ow { Team *t; long n; }; static bool my_turn(void *o) { return ((Ow *)o)->t->ordnext == ((Ow *)o)->n; }
static void owait() { Th *m = me(); if (!m || !m->team || m->team == &solo_ || m->ordcur < 0) return; Ow o = {m->team, m->ordcur}; block(my_turn, &o); acq(obj(&m->team->ordnext)); }
static void odone() { Th *m = me(); if (!m || !m->team || m->team == &solo_ || m->ordcur < 0) return; owait(); rel(obj(&m->team->ordnext)); m->team->ordnext++; m->ordcur = -1; point(); }
static bool onum(bool got, Team::WS *w) { Th *m = me(); m->ordcur = got ? w->nthr++ : -1; return got; }
static bool ostart(long s, long e, long i, long c, long *a, long *b) { bool g = lstart(s, e, i, c, a, b); In in; Th *m = me(); Team::WS *w = ws_of(m, false, 0, 0, 0, 0, false); if (g && m->team != &solo_ && w->nthr == 0) m->team->ordnext = 0; return onum(g, w); }
static bool onext(long *a, long *b) { In in; odone(); bool g = lnext(a, b); return onum(g, ws_of(me(), false, 0, 0, 0, 0, false)); }
RT void GOMP_ordered_start() { In in; owait(); }
RT void GOMP_ordered_end() {}
#define LOOPO(k) RT bool GOMP_loop_ordered_##k##_start(long s, long e, long i, long c, long *a, long *b) { return ostart(s, e, i, c, a, b); } RT bool GOMP_loop_ordered_##k##_next(long *a, long *b) { return onext(a, b); }
LOOPO(static) LOOPO(dynamic) LOOPO(guided)
RT void GOMP_loop_end() { lend(true); }
RT void GOMP_loop_end_nowait() { lend(false); }
RT unsigned GOMP_sections_start(unsigned n) { long a, b; return lstart(1, (long)n + 1, 1, 1, &a, &b) ? a : 0; }
RT unsigned GOMP_sections_next() { long a, b; return lnext(&a, &b) ? a : 0; }
RT void GOMP_sections_end() { lend(true); }
RT void GOMP_sections_end_nowait() { lend(false); }
RT void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) { Team t; memset(&t, 0, sizeof t); Team::WS *w = &t.ws[0]; w->init = true; w->next = 1; w->end = (long)n + 1; w->incr = 1; w->chunk = 1; parallel(fn, d, nt, &t); }
// tasks: each one is a thread of its own, ordered after its creator's past and before the waits that cover it; tasks with
// dependences, undeferred ones and those created when the table is full run at once in their creator
static void vjoin(u32 *a, const u32 *b) { join(a, b); }
static bool grp_done(void *g) { return ((Grp *)g)->n == 0; }
static void task_body(void *a) { Th *t = self; ((void (*)(void *))t->jarg2)(a); In in; Team *tm = t->team; u32 *v = t->vc; vjoin(tm->tvc, v); vjoin(t->parent->kids.vc, v); t->parent->kids.n--; for (Grp *g = t->grp; g; g = g->up) { vjoin(g->vc, v); g->n--; } tm->tasks--; if (t->tlock) { t->tlock = false; Obj *o = obj(&tm->tasks); rel(o); o->busy = false; } if (t->buf) { free(t->buf); t->buf = nullptr; } t->istask = false; tm->left++; /* undone by the worker */ }
static void run_task(void (*fn)(void *), void *d, void (*cp)(void *, void *), long n, long al, bool defer) {
    In in; Th *m = me(); void *b = nullptr; if (cp || defer) { if (posix_memalign(&b, al < 16 ? 16 : al, n + 1)) abort(); int k = inrt; inrt = 0; if (cp) cp(b, d); else { m->ign++; memcpy(b, d, n); m->ign--; access_((u64)d, n, false, PC); } inrt = k; }
    Th *w = nullptr; if (defer && m && m->team && m->team->n > 1) { for (int i = 0; i < nth && !w; i++) if (th[i].pooltask && !th[i].live && !th[i].job && nth >= MAXT - 8) w = &th[i]; if (!w && nth < MAXT - 8) { w = spawn(); w->pooltask = true; } }
    if (!w) { int k = inrt; inrt = 0; fn(b ? b : d); inrt = k; if (b) free(b); return; }
    w->jarg2 = (void *)fn; w->parent = m; w->grp = m->grp; w->istask = true; w->buf = b; memset(&w->kids, 0, sizeof w->kids); m->kids.n++; m->team->tasks++; for (Grp *g = m->grp; g; g = g->up) g->n++;
    give(w, task_body, b, m->team, m->tnum); m->vc[m->id]++; point(); }
RT void GOMP_task(void (*fn)(void *), void *d, void (*cp)(void *, void *), long n, long al, bool ifc, unsigned flags, void **, int, void *) { run_task(fn, d, cp, n, al, ifc && !(flags & (8 | 2))); }
RT void GOMP_taskwait() { In in; Th *m = me(); if (!m) return; block(grp_done, &m->kids); join(m->vc, m->kids.vc); m->vc[m->id]++; }
RT void GOMP_taskwait_depend(void **) { GOMP_taskwait(); }
RT void GOMP_taskyield() { In in; if (me()) turn(); }
RT void GOMP_taskgroup_start() { In in; Th *m = me(); if (!m) return; Grp *g = (Grp *)calloc(1, sizeof(Grp)); g->up = m->grp; m->grp = g; }
RT void GOMP_taskgroup_end() { In in; Th *m = me(); if (!m || !m->grp) return; Grp *g = m->grp; block(grp_done, g); join(m->vc, g->vc); m->vc[m->id]++; m->grp = g->up; free(g); }
template <class I> static void taskloop(void (*fn)(void *), void *d, void (*cp)(void *, void *), long n, long al, unsigned flags, unsigned long nt, I s, I e, I st) {
    bool up = flags & 256; (void)up; u64 trips = 0; if (st > 0 || up) { for (I x = s; x < e; x += st) trips++; } else for (I x = s; x > e; x += st) trips++;
    if (!trips) return; u64 chunk = 1; if ((flags & 512) && nt) chunk = nt; else if (nt) chunk = (trips + nt - 1) / nt; else chunk = trips > 32 ? (trips + 31) / 32 : 1;
    bool group = !(flags & 2048); if (group) GOMP_taskgroup_start(); I x = s; for (u64 t = 0; t < trips; t += chunk) { u64 c = chunk < trips - t ? chunk : trips - t; I y = x + (I)c * st; void *b = nullptr; if (posix_memalign(&b, al < 16 ? 16 : al, n + 16)) abort(); { int k = inrt; if (cp) cp(b, d); else { In in; memcpy(b, d, n); } inrt = k; } ((I *)b)[0] = x; ((I *)b)[1] = y; run_task(fn, b, nullptr, n, al, (flags & 1024) && !(flags & 2)); free(b); x = y; } if (group) GOMP_taskgroup_end(); }
RT void GOMP_taskloop(void (*fn)(void *), void *d, void (*cp)(void *, void *), long n, long al, unsigned flags, unsigned long nt, int, long s, long e, long st) { taskloop<long>(fn, d, cp, n, al, flags, nt, s, e, st); }
RT void GOMP_taskloop_ull(void (*fn)(void *), void *d, void (*cp)(void *, void *), long n, long al, unsigned flags, unsigned long nt, int, u64 s, u64 e, u64 st) { taskloop<u64>(fn, d, cp, n, al, flags, nt, s, e, st); }
// ordered loops: handed out in order; an iteration's ordered part waits for those of the iterations before it
RT bool GOMP_cancel(int, bool) { return false; }
RT bool GOMP_cancellation_point(int) { return false; }
RT bool GOMP_barrier_cancel() { barrier(); return false; }
RT bool GOMP_loop_end_cancel() { lend(true); return false; }
RT bool GOMP_sections_end_cancel() { lend(true); return false; }
static void single_copy_wait() { barrier(); }
RT void *GOMP_single_copy_start() { Th *m; { In in; m = me(); if (!m || !m->team) return nullptr; point(); } if (m->sseq == m->team->single) { m->team->single++; m->sseq++; return nullptr; } m->sseq++; single_copy_wait(); void *r = m->team->copyp; single_copy_wait(); return r; }
RT void GOMP_single_copy_end(void *p) { Th *m = me(); if (!m || !m->team) return; m->team->copyp = p; single_copy_wait(); single_copy_wait(); }
RT unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned flags);
RT int sched_yield() { In in; if (me()) turn(); return 0; }
static bool task_free(void *o) { return !((Obj *)o)->busy; }
RT int omp_get_thread_num() { In in; Th *m = me(); if (m && m->istask && !m->tlock && m->team) { Obj *o = obj(&m->team->tasks); block(task_free, o); o->busy = true; m->tlock = true; acq(o); } return m && m->team ? m->tnum : 0; }   // tasks that ask for it are serialised
RT int omp_get_num_threads() { Th *m = me(); return m && m->team ? m->team->n : 1; }
RT int omp_get_max_threads() { return icv; }
RT int omp_get_num_procs() { return 8; }
RT int omp_in_parallel() { Th *m = me(); return m && m->team && m->team->n > 1; }
RT int omp_get_level() { Th *m = me(); return m && m->team ? 1 : 0; }
RT void omp_set_num_threads(int n) { if (n > 0) icv = n; }
RT void omp_set_dynamic(int) {}
RT int omp_get_dynamic() { return 0; }
RT void omp_set_nested(int) {}
RT int omp_get_nested() { return 0; }
RT void omp_set_max_active_levels(int) {}
RT int omp_get_max_active_levels() { return 1; }
RT int omp_get_thread_limit() { return 64; }
RT double omp_get_wtime() { static double t; return t += 1e-6; }
RT void omp_init_lock(void *) {}
RT void omp_destroy_lock(void *) {}
RT void omp_set_lock(void *l) { lock(l, false); }
RT void omp_unset_lock(void *l) { unlock(l); }
RT int omp_test_lock(void *l) { return trylock(l); }
// ---- control ------------------------------------------------------------------------------------------------------------------
RT void rt_team(int n) { icv = n; }
RT void rt_ignore(int d) { if (me()) self->ign += d; }
RT void rt_schedule(const unsigned char *p, int n) { npre = n > 65536 ? 65536 : n; memcpy(pre_, p, npre); npos = 0; forced = -1; Dl_info d; if (!base && dladdr((void *)&rt_schedule, &d)) base = (u64)d.dli_fbase; me(); }
RT void rt_fine(long k, int o) { fine_k = k; fine_o = o; acc = 0; }
RT int rt_trace(unsigned char *o, unsigned char *t, int cap) { int n = npos < cap ? npos : cap; if (n > 65536) n = 65536; memcpy(o, opt_, n); memcpy(t, took_, n); return n; }
RT long rt_accesses() { return acc; }
RT const char *rt_error() { return haserr ? err_ : nullptr; }
RT int rt_regions() { return regions; }
