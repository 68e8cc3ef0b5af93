/* Simulator of several agents (threads, one runtime each) in one process.
 *
 * The engine is compiled with clang -fsanitize=thread, but linked with the hooks below instead of the
 * ThreadSanitizer runtime: every memory access of the engine calls the simulator.  Agents are fibers; a
 * seeded schedule decides at each access to memory that more than one agent has touched, and at each
 * lock, wait, signal and clock operation, whether another agent runs next.  Time is simulated. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <ucontext.h>
#include <time.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ratjs.h>

SimShm *shm; KV *kvs; int nkvs; long live_malloc, live_file, live_dir, live_ucnv; int sim_armed; int64_t sim_clock_us;
void *__real_malloc(size_t); void *__real_realloc(void*, size_t); void __real_free(void*); void *__real_calloc(size_t, size_t);

enum { FK_SWITCH = 6, FK_TIME, FK_CLOCK, FK_SPUR };
#define MAXF 6
#define STK  (8u << 20)

/* ---------------- arena: memory is never reused, so that stale accesses are seen ---------------- */
#define A_SIZE (4ull << 30)
#define SH_FREED 0xffffffffu
#define SH_RED   0xfffffffeu
#define SH_CELL  0x80000000u
static uint8_t *A; static size_t a_top = 64; static uint32_t *S;      /* shadow of the arena, one word for 8 bytes */
extern char __data_start[], _end[]; static uint32_t *G;               /* shadow of the globals */
typedef struct { uint64_t size; uint32_t magic, owner; } Hd;          /* before each block */
#define MAGIC 0x5eed1234u
#define DEADM 0xdeadbeefu

typedef struct { uint32_t w[8][MAXF + 1], r[8][MAXF + 1], aw[8][MAXF + 1], ar[8][MAXF + 1]; uint8_t content; uint8_t big; uintptr_t lastpc[MAXF + 1]; uint8_t lastw[MAXF + 1]; } Cell;
static Cell *cells; static uint32_t ncell = 1;

/* ---------------- fibers ---------------- */
enum { ST_NONE, ST_READY, ST_MUTEX, ST_COND, ST_SLEEP, ST_SLOT, ST_ONCE, ST_DONE };
typedef struct {
    ucontext_t uc; uint8_t *stk; int st; void *on; int slot;
    int64_t deadline; int has_dl, dl_real, woken, why;          /* why: 1 signalled, 2 timed out, 3 spurious */
    uint32_t vc[MAXF + 1]; RJS_Runtime *rt; int done_ok; uint64_t wseq;
} Fib;
static Fib F[MAXF + 1]; static int cur, nf; static int running; static ucontext_t uc_main;
static int64_t mono_ns = 1000000000ll, real_off = 1700000000000000000ll;
static uint64_t n_yield, n_shared, wseq, ilhash = 1469598103934665603ull; static uint64_t seed_who;
static Sched sw_sched, jump_sched, clk_sched, spur_sched, gc_sched; static uint64_t max_yield = 3000000;
static int race_on = 1, nrace, nuaf;
extern char __start_text_dtoa[] __attribute__((weak)), __stop_text_dtoa[] __attribute__((weak));

static uint64_t mix(uint64_t x) { Rng r = { x }; return rng_next(&r); }
static int runnable(int i) {
    Fib *f = &F[i];
    if (f->st == ST_READY) return 1;
    if ((f->st == ST_COND || f->st == ST_SLEEP) && f->has_dl && (f->dl_real ? mono_ns + real_off : mono_ns) >= f->deadline) return 1;
    return 0;
}
static void switch_to(int t) {
    int o = cur; if (t == o) return;
    cur = t; ilhash = (ilhash ^ (uint64_t)(t + 1)) * 1099511628211ull; ilhash = (ilhash ^ n_yield) * 1099511628211ull;
    swapcontext(o ? &F[o].uc : &uc_main, t ? &F[t].uc : &uc_main);
}
/* choose who runs next; the caller cannot go on (or may: include_self) */
static int pick(int self) {
    for (;;) {
        int c[MAXF], n = 0; for (int i = 1; i <= nf; i++) if (i != self && runnable(i)) c[n++] = i;
        if (n) return c[mix(seed_who ^ (n_yield * 0x9e3779b97f4a7c15ull)) % n];
        if (self && runnable(self)) return self;
        int64_t best = INT64_MAX; for (int i = 1; i <= nf; i++) if ((F[i].st == ST_COND || F[i].st == ST_SLEEP) && F[i].has_dl) { int64_t d = F[i].dl_real ? F[i].deadline - real_off : F[i].deadline; if (d < best) best = d; }
        if (best == INT64_MAX) return 0;                    /* nothing can run any more */
        if (best > mono_ns) mono_ns = best;
    }
}
static void block(void) { n_yield++; switch_to(pick(cur)); }
static void stop_run(const char *why) { tr("!%s", why); running = 0; if (cur) { int o = cur; cur = 0; swapcontext(&F[o].uc, &uc_main); } }
static void yield_point(void) {
    if (!running || !cur) return;
    uint64_t i = n_yield++; mono_ns += 50;
    if (i > max_yield) { stop_run("step limit"); return; }
    if (sched_hit(&jump_sched, i)) {
        int64_t best = INT64_MAX; for (int k = 1; k <= nf; k++) if ((F[k].st == ST_COND || F[k].st == ST_SLEEP) && F[k].has_dl) { int64_t d = F[k].dl_real ? F[k].deadline - real_off : F[k].deadline; if (d < best) best = d; }
        if (best != INT64_MAX && best > mono_ns) { mono_ns = best; fired(FK_TIME, i); }
    }
    if (sched_hit(&clk_sched, i)) { static const int64_t j[] = { 3600, -3600, 1, -1, 86400 * 365ll, -86400 * 365ll }; real_off += j[mix(seed_who + i) % 6] * 1000000000ll; fired(FK_CLOCK, i); }
    if (sched_hit(&spur_sched, i)) {
        int c[MAXF], n = 0; for (int k = 1; k <= nf; k++) if (F[k].st == ST_COND) c[n++] = k;
        if (n) { Fib *f = &F[c[mix(seed_who ^ i) % n]]; f->why = 3; f->st = ST_READY; fired(FK_SPUR, i); }
    }
    if (sched_hit(&sw_sched, i)) { int t = pick(cur); if (t && t != cur) { fired(FK_SWITCH, i); switch_to(t); } }
}

/* ---------------- vector clocks ---------------- */
static void vc_join(uint32_t *d, const uint32_t *s) { for (int i = 0; i <= MAXF; i++) if (s[i] > d[i]) d[i] = s[i]; }
typedef struct { void *p; uint32_t vc[MAXF + 1]; int owner, alive, kind, clockid, depth; } Sync;
static Sync *syn; static int nsyn, csyn;
static Sync *sync_of(void *p, int kind) {
    for (int i = nsyn - 1; i >= 0; i--) if (syn[i].p == p && syn[i].kind == kind) return &syn[i];
    if (nsyn == csyn) { csyn = csyn ? csyn * 2 : 64; syn = __real_realloc(syn, csyn * sizeof *syn); }
    Sync *s = &syn[nsyn++]; memset(s, 0, sizeof *s); s->p = p; s->kind = kind; s->alive = 1; return s;
}
static void acquire(Sync *s) { vc_join(F[cur].vc, s->vc); }
static void release(Sync *s) { vc_join(s->vc, F[cur].vc); F[cur].vc[cur]++; }

/* ---------------- memory accesses ---------------- */
static void bad(const char *what, const void *p, void *pc) { if (nuaf++ < 4) tr("!%s agent %d pc %p", what, cur, pc); }
static void race(const void *p, int w, void *pc, int g, Cell *c) {
    if (nrace++ < 6) tr("!DATA-RACE agent %d %s pc %p, agent %d %s pc %p", cur, w ? "writes" : "reads", pc, g, c->lastw[g] ? "wrote" : "read", (void*)c->lastpc[g]);
}
static void slow(const uint8_t *p, uint32_t *sh, int sz, int w, int at, void *pc) {
    uint32_t v = *sh;
    if (v == SH_FREED) { bad("USE-AFTER-FREE", p, pc); return; }
    if (v == SH_RED) { bad("OUT-OF-BOUNDS", p, pc); return; }
    if (!(v & SH_CELL)) {                                     /* second agent: shared from now on */
        if (v == 7) return;
        if (ncell >= (1u << 18)) return;
        cells[ncell].content = 0; *sh = v = SH_CELL | ncell++;
    }
    Cell *c = &cells[v & ~SH_CELL];
    n_shared++; yield_point();
    if (!running) return;
    v = *sh; if (v == SH_FREED) { bad("USE-AFTER-FREE", p, pc); return; }
    if (!race_on || c->content) return;
    if (__start_text_dtoa && (char*)pc >= __start_text_dtoa && (char*)pc < __stop_text_dtoa) return;
    int b0 = (uintptr_t)p & 7; uint32_t *my = F[cur].vc; int hit = -1;
    for (int b = b0; b < b0 + sz && b < 8; b++) {
        for (int g = 0; g <= nf; g++) if (g != cur) {
            uint32_t k = my[g];
            if (c->w[b][g] > k || (w && c->r[b][g] > k) || (!at && (c->aw[b][g] > k || (w && c->ar[b][g] > k)))) hit = g;
        }
        if (at) { if (w) c->aw[b][cur] = my[cur]; else c->ar[b][cur] = my[cur]; } else { if (w) c->w[b][cur] = my[cur]; else c->r[b][cur] = my[cur]; }
    }
    if (hit >= 0) race(p, w, pc, hit, c);
    c->lastpc[cur] = (uintptr_t)pc; c->lastw[cur] = w;
}
static inline uint32_t *shadow(const uint8_t *p) {
    size_t u = p - A; if (u < A_SIZE) return &S[u >> 3];
    if ((char*)p >= __data_start && (char*)p < _end) return &G[((char*)p - __data_start) >> 3];
    return NULL;
}
static inline void acc(const void *vp, int sz, int w, int at, void *pc) {
    const uint8_t *p = vp; if (!A) return; uint32_t *sh = shadow(p); if (!sh) return;
    uint32_t v = *sh, me = cur + 1;
    if (v == me) ; else if (!v) *sh = me; else slow(p, sh, sz, w, at, pc);
    if ((((uintptr_t)p & 7) + sz) > 8) { const uint8_t *q = (const uint8_t*)(((uintptr_t)p + 7) & ~7ull); int rest = p + sz - q; sh = shadow(q); if (sh) { v = *sh; if (v == me) ; else if (!v) *sh = me; else slow(q, sh, rest > 8 ? 8 : rest, w, at, pc); } }
}
#define PC __builtin_return_address(0)
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {} void __tsan_ignore_thread_end(void) {}
#define RW(n) void __tsan_read##n(void *a) { acc(a, n, 0, 0, PC); } void __tsan_write##n(void *a) { acc(a, n, 1, 0, PC); } \
  void __tsan_unaligned_read##n(void *a) { acc(a, n, 0, 0, PC); } void __tsan_unaligned_write##n(void *a) { acc(a, n, 1, 0, PC); } \
  void __tsan_volatile_read##n(void *a) { acc(a, n, 0, 0, PC); } void __tsan_volatile_write##n(void *a) { acc(a, n, 1, 0, PC); } \
  void __tsan_unaligned_volatile_read##n(void *a) { acc(a, n, 0, 0, PC); } void __tsan_unaligned_volatile_write##n(void *a) { acc(a, n, 1, 0, PC); } \
  void __tsan_read_write##n(void *a) { acc(a, n, 1, 0, PC); } void __tsan_unaligned_read_write##n(void *a) { acc(a, n, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(const void *p, size_t n, int w, void *pc) { const uint8_t *b = p; while (n) { size_t k = 8 - ((uintptr_t)b & 7); if (k > n) k = n; acc(b, k, w, 0, pc); b += k; n -= k; } }
void __tsan_read_range(void *p, size_t n) { range(p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { range(p, n, 1, PC); }
static int is_shared(const void *p, size_t n) {
    const uint8_t *b = p; if (!shadow(b)) return 0;
    for (size_t i = 0; i < n; i += 8) { uint32_t *s = shadow(b + i); if (s && *s != 0 && *s != (uint32_t)cur + 1) return 1; }
    return n > 0 && ({ uint32_t *s = shadow(b + n - 1); s && *s != 0 && *s != (uint32_t)cur + 1; });
}
/* copies of shared memory go in single words (bytes at the ends) and may be interrupted between them */
static void *cp(void *d, const void *s, size_t n, int back, void *pc) {
    if (!n || !A) return memmove(d, s, n);
    if (!is_shared(d, n) && !is_shared(s, n)) { range(s, n, 0, pc); range(d, n, 1, pc); return memmove(d, s, n); }
    size_t i = 0; uint8_t t[8];
    if (!back) while (i < n) { size_t k = (n - i >= 8 && !(((uintptr_t)d + i) & 7)) ? 8 : (n - i >= 4 && !(((uintptr_t)d + i) & 3)) ? 4 : 1; acc((uint8_t*)s + i, k, 0, 0, pc); memcpy(t, (uint8_t*)s + i, k); acc((uint8_t*)d + i, k, 1, 0, pc); memcpy((uint8_t*)d + i, t, k); i += k; }
    else { i = n; while (i) { size_t k = (i >= 8 && !(((uintptr_t)d + i) & 7)) ? 8 : (i >= 4 && !(((uintptr_t)d + i) & 3)) ? 4 : 1; i -= k; acc((uint8_t*)s + i, k, 0, 0, pc); memcpy(t, (uint8_t*)s + i, k); acc((uint8_t*)d + i, k, 1, 0, pc); memcpy((uint8_t*)d + i, t, k); } }
    return d;
}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return cp(d, s, n, 0, PC); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return cp(d, s, n, (uint8_t*)d > (uint8_t*)s, PC); }
void *__tsan_memset(void *d, int v, size_t n) {
    if (!n || !A || !is_shared(d, n)) { range(d, n, 1, PC); return memset(d, v, n); }
    for (size_t i = 0; i < n;) { size_t k = (n - i >= 8 && !(((uintptr_t)d + i) & 7)) ? 8 : 1; acc((uint8_t*)d + i, k, 1, 0, PC); memset((uint8_t*)d + i, v, k); i += k; }
    return d;
}
static void at_sync(void *p, int rel, int acq) { if (!running) return; Sync *s = sync_of(p, 3); if (acq) acquire(s); if (rel) release(s); }
#define AT(n, T) \
 T __tsan_atomic##n##_load(const volatile T *a, int mo) { acc((void*)a, sizeof(T), 0, 1, PC); if (mo) at_sync((void*)a, 0, 1); return *a; } \
 void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 0); *a = v; } \
 T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; *a = v; return o; } \
 T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo)  { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int mo) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int mo) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; *a = ~(o & v); return o; } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; if (o == e) *a = v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) { acc((void*)a, sizeof(T), 1, 1, PC); if (mo) at_sync((void*)a, 1, 1); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; yield_point(); } void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------- allocator ---------------- */
static void *a_alloc(size_t n) {
    size_t sz = (n + 15) & ~15ull; if (!sz) sz = 16;
    if (a_top + sz + 64 > A_SIZE) { tr("!arena full"); _exit(5); }
    Hd *h = (Hd*)(A + a_top); h->size = n; h->magic = MAGIC; h->owner = cur;
    S[(a_top) >> 3] = SH_RED; S[(a_top >> 3) + 1] = SH_RED;
    a_top += sizeof *h + sz; live_malloc++;
    return h + 1;
}
void *__wrap_malloc(size_t n) { if (!A) return __real_malloc(n); return a_alloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!A) return __real_calloc(a, b); return a_alloc(a * b); }   /* fresh arena memory is zero */
void __wrap_free(void *p) {
    if (!p) return; size_t u = (uint8_t*)p - A; if (!A || u >= A_SIZE) { __real_free(p); return; }
    Hd *h = (Hd*)p - 1;
    if (h->magic != MAGIC) { bad(h->magic == DEADM ? "DOUBLE-FREE" : "BAD-FREE", p, PC); return; }
    for (int i = 0; i < nsyn; i++) if ((uint8_t*)syn[i].p >= (uint8_t*)p && (uint8_t*)syn[i].p < (uint8_t*)p + h->size) { if (syn[i].kind == 1 && syn[i].owner > 0) bad("FREE-OF-HELD-MUTEX", p, PC); if (syn[i].kind == 2) for (int k = 1; k <= nf; k++) if (F[k].st == ST_COND && F[k].on == syn[i].p) bad("FREE-OF-AWAITED-CONDITION", p, PC); syn[i].p = NULL; }
    h->magic = DEADM; live_malloc--; size_t n = (h->size + 15) & ~15ull; if (!n) n = 16;
    for (size_t i = u >> 3; i < (u + n) >> 3; i++) S[i] = SH_FREED;
    memset(p, 0xdd, h->size);
}
void *__wrap_realloc(void *o, size_t n) {
    if (!o) return __wrap_malloc(n); if (!n) { __wrap_free(o); return NULL; }
    size_t u = (uint8_t*)o - A; if (!A || u >= A_SIZE) return __real_realloc(o, n);
    Hd *h = (Hd*)o - 1; if (h->magic != MAGIC) { bad("REALLOC-OF-FREED", o, PC); return NULL; }
    void *p = a_alloc(n); memcpy(p, o, h->size < n ? h->size : n); __wrap_free(o); return p;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); memcpy(p, s, n); return p; }

/* blocks of the process-wide number conversion cache stay allocated */
void *sim_dtoa_malloc(size_t n) { void *p = __wrap_malloc(n); live_malloc--; return p; }
void *sim_dtoa_realloc(void *o, size_t n) { return __wrap_realloc(o, n); }
void sim_dtoa_free(void *p) { if (p) live_malloc++; __wrap_free(p); }

/* ---------------- locks, conditions, once, clocks ---------------- */
static Sync *mtx(void *m) { Sync *s = sync_of(m, 1); return s; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    Sync *s = mtx(m); s->owner = 0; s->alive = 1; s->depth = 0; int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty); s->clockid = ty == PTHREAD_MUTEX_RECURSIVE; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { Sync *s = mtx(m); if (s->owner > 0) bad("DESTROY-OF-HELD-MUTEX", m, PC); s->alive = 0; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!running) return 0;
    yield_point();
    for (;;) { Sync *s = mtx(m); if (!running) return 0; if (!s->alive) bad("USE-OF-DESTROYED-MUTEX", m, PC);
        if (!s->owner) { s->owner = cur; s->depth = 1; acquire(s); return 0; }
        if (s->owner == cur) { if (s->clockid) { s->depth++; return 0; } tr("!SELF-DEADLOCK agent %d", cur); F[cur].st = ST_MUTEX; F[cur].on = m; block(); return 0; }
        F[cur].st = ST_MUTEX; F[cur].on = m; block(); }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!running) return 0; yield_point(); Sync *s = mtx(m); if (s->owner) return EBUSY; s->owner = cur; s->depth = 1; acquire(s); return 0; }
static void unlock_now(void *m) {
    Sync *s = mtx(m); if (s->owner != cur) { bad("UNLOCK-OF-MUTEX-NOT-HELD", m, PC); return; }
    if (--s->depth > 0) return;
    s->owner = 0; release(s); for (int i = 1; i <= nf; i++) if (F[i].st == ST_MUTEX && F[i].on == m) F[i].st = ST_READY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!running) return 0; unlock_now(m); yield_point(); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { Sync *s = sync_of(c, 2); s->alive = 1; clockid_t id = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &id); s->clockid = id; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { for (int k = 1; k <= nf; k++) if (F[k].st == ST_COND && F[k].on == c) bad("DESTROY-OF-AWAITED-CONDITION", c, PC); sync_of(c, 2)->alive = 0; return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts, int clk) {
    if (!running) return ts ? ETIMEDOUT : 0;
    yield_point();
    Fib *f = &F[cur]; Sync *s = sync_of(c, 2); if (!s->alive) bad("USE-OF-DESTROYED-CONDITION", c, PC);
    if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
    f->has_dl = ts != NULL; f->dl_real = 0;
    if (ts) { __int128 d = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec; if (d < 0) d = 0; if (d > INT64_MAX / 2) d = INT64_MAX / 2; f->deadline = (int64_t)d; f->dl_real = (clk < 0 ? s->clockid : clk) == CLOCK_REALTIME; if (f->deadline == INT64_MAX / 2) f->has_dl = 0; }
    f->on = c; f->why = 0; f->wseq = ++wseq; unlock_now(m); f->st = ST_COND; block();
    if (!running) return 0;
    int to = f->st == ST_COND;            /* still waiting: the deadline made it runnable */
    f->st = ST_READY; f->has_dl = 0; f->on = NULL;
    if (!to && f->why == 1) acquire(sync_of(c, 2));
    __wrap_pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, NULL, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cwait(c, m, t, -1); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return cwait(c, m, t, k); }
static int wake(pthread_cond_t *c, int all) {
    if (!running) return 0;
    yield_point(); Sync *s = sync_of(c, 2); if (!s->alive) bad("USE-OF-DESTROYED-CONDITION", c, PC); release(s);
    for (;;) { int w[MAXF], n = 0; for (int i = 1; i <= nf; i++) if (F[i].st == ST_COND && F[i].on == c) w[n++] = i;
        if (!n) break; Fib *f = &F[w[mix(seed_who ^ n_yield ^ 77) % n]]; f->st = ST_READY; f->why = 1; if (!all) break; }
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return wake(c, 0); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return wake(c, 1); }
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    Sync *s = sync_of(o, 4);
    if (s->depth == 2) { if (running) { yield_point(); acquire(sync_of(o, 4)); } return 0; }
    if (!running || !cur) { fn(); sync_of(o, 4)->depth = 2; return 0; }
    yield_point(); s = sync_of(o, 4);
    if (s->depth == 0) { s->depth = 1; fn(); s = sync_of(o, 4); s->depth = 2; release(s); for (int i = 1; i <= nf; i++) if (F[i].st == ST_ONCE && F[i].on == o) F[i].st = ST_READY; return 0; }
    while (sync_of(o, 4)->depth == 1) { F[cur].st = ST_ONCE; F[cur].on = o; block(); if (!running) return 0; }
    acquire(sync_of(o, 4)); return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const void *a) { (void)a; return __wrap_pthread_mutex_init((void*)m, NULL); }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { return __wrap_pthread_mutex_destroy((void*)m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return __wrap_pthread_mutex_lock((void*)m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return __wrap_pthread_mutex_lock((void*)m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return __wrap_pthread_mutex_unlock((void*)m); }
int __wrap_pthread_spin_init(pthread_spinlock_t *m, int a) { (void)a; return __wrap_pthread_mutex_init((void*)m, NULL); }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *m) { return __wrap_pthread_mutex_destroy((void*)m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { return __wrap_pthread_mutex_lock((void*)m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { return __wrap_pthread_mutex_unlock((void*)m); }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(cur + 1); }
int __wrap_sched_yield(void) { yield_point(); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    yield_point(); int64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? mono_ns + real_off : mono_ns;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; int64_t t = mono_ns + real_off; tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0; }
time_t __wrap_time(time_t *p) { time_t t = (mono_ns + real_off) / 1000000000; if (p) *p = t; return t; }
static Rng rnd = { 7 }; int __wrap_rand(void) { return rng_next(&rnd) & 0x7fffffff; } void __wrap_srand(unsigned s) { (void)s; }

/* ---------------- collections ---------------- */
void __real_rjs_gc_add(RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops);
void __wrap_rjs_gc_add(RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops) {
    RJS_RuntimeBase *rb = (RJS_RuntimeBase*)rt; RJS_Bool en = rb->gc_enable;
    if (!running || !cur || F[cur].rt != rt || rb->gc_running) { __real_rjs_gc_add(rt, thing, ops); return; }
    rb->gc_enable = 0; __real_rjs_gc_add(rt, thing, ops); rb->gc_enable = en;
    if (!en) return;
    uint64_t i = shm->n_alloc++; if (sched_hit(&gc_sched, i)) { shm->n_gc++; fired(FK_GC, i); rjs_gc_run(rt); }
}

/* ---------------- host ---------------- */
#define NSLOT 16
static struct { RJS_DataBlock *db; size_t len; uint32_t vc[MAXF + 1]; } slots[NSLOT];
static const char *cstr(RJS_Runtime *rt, RJS_Value *v, RJS_Value *tmp, RJS_Result *r) {
    if ((*r = rjs_to_string(rt, v, tmp)) == RJS_ERR) return NULL;
    const char *s = rjs_string_to_enc_chars(rt, tmp, NULL, NULL); if (!s) *r = RJS_ERR; return s;
}
static int num(RJS_Runtime *rt, RJS_Value *args, size_t argc, int i) { RJS_Number n = 0; rjs_to_number(rt, rjs_argument_get(rt, args, argc, i), &n); return (int)n; }
static RJS_NF(h_log) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt); RJS_Result r; char b[4096];
    const char *s = cstr(rt, rjs_argument_get(rt, args, argc, 0), t, &r);
    if (s) { snprintf(b, sizeof b, "%d %s", cur, s); tr_bytes(NULL, b, strlen(b)); r = RJS_OK; }
    rjs_value_set_undefined(rt, rv); rjs_value_stack_restore(rt, top); return r;
}
static void content(RJS_DataBlock *db, size_t n) {
    uint8_t *b = rjs_data_block_get_buffer(db); if (!b) return;
    for (size_t i = 0; i < n; i += 8) { uint32_t *s = shadow(b + i); if (s && *s != SH_FREED && *s != SH_RED) { if (!(*s & SH_CELL)) *s = SH_CELL | ncell++; cells[*s & ~SH_CELL].content = 1; } }
}
static RJS_Result make_sab(RJS_Runtime *rt, int k, RJS_Value *rv) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *n = rjs_value_stack_push(rt), *c = rjs_value_stack_push(rt); RJS_PropertyName pn; RJS_Result r;
    rjs_string_from_chars(rt, n, "SharedArrayBuffer", -1); rjs_property_name_init(rt, &pn, n);
    r = rjs_get(rt, rjs_global_object(rjs_realm_current(rt)), &pn, c); rjs_property_name_deinit(rt, &pn);
    if (r == RJS_OK) r = rjs_allocate_shared_array_buffer(rt, c, slots[k].len, slots[k].db, rv);
    rjs_value_stack_restore(rt, top); return r;
}
static RJS_NF(h_take) {      /* the buffer in a slot; waits until there is one */
    int k = num(rt, args, argc, 0) % NSLOT; yield_point();
    while (!slots[k].db) { F[cur].st = ST_SLOT; F[cur].slot = k; block(); if (!running) break; }
    if (!slots[k].db) { rjs_value_set_undefined(rt, rv); return RJS_OK; }
    vc_join(F[cur].vc, slots[k].vc);
    return make_sab(rt, k, rv);
}
static RJS_NF(h_put) {       /* publish a buffer in a slot */
    int k = num(rt, args, argc, 0) % NSLOT; RJS_Value *v = rjs_argument_get(rt, args, argc, 1);
    rjs_value_set_undefined(rt, rv);
    if (!rjs_is_array_buffer(rt, v) || !rjs_is_shared_array_buffer(rt, v)) return rjs_throw_type_error(rt, "not shared");
    yield_point();
    RJS_DataBlock *db = rjs_data_block_ref(rjs_array_buffer_get_data_block(rt, v)), *o = slots[k].db;
    size_t len = rjs_array_buffer_get_size(rt, v); content(db, len); slots[k].db = db; slots[k].len = len;
    vc_join(slots[k].vc, F[cur].vc); F[cur].vc[cur]++;
    for (int i = 1; i <= nf; i++) if (F[i].st == ST_SLOT && F[i].slot == k) F[i].st = ST_READY;
    if (o) rjs_data_block_unref(o);
    return RJS_OK;
}
static RJS_NF(h_drop) { int k = num(rt, args, argc, 0) % NSLOT; rjs_value_set_undefined(rt, rv); yield_point(); RJS_DataBlock *o = slots[k].db; slots[k].db = NULL; if (o) { vc_join(slots[k].vc, F[cur].vc); F[cur].vc[cur]++; rjs_data_block_unref(o); } return RJS_OK; }
static RJS_NF(h_now) { rjs_value_set_number(rt, rv, mono_ns / 1e6); return RJS_OK; }
static RJS_NF(h_yield) { yield_point(); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_gc) { rjs_gc_run(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_block) { rjs_set_agent_can_block(rt, num(rt, args, argc, 0)); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_sleep) {
    RJS_Number n = 0; rjs_to_number(rt, rjs_argument_get(rt, args, argc, 0), &n); rjs_value_set_undefined(rt, rv);
    if (!running) return RJS_OK;
    F[cur].st = ST_SLEEP; F[cur].has_dl = 1; F[cur].dl_real = 0; F[cur].deadline = mono_ns + (int64_t)(n * 1e6); block(); F[cur].st = ST_READY; F[cur].has_dl = 0; return RJS_OK;
}
static struct { const char *n; RJS_NativeFunc f; } hostfns[] = { {"log", h_log}, {"take", h_take}, {"put", h_put}, {"drop", h_drop}, {"now", h_now}, {"yield", h_yield}, {"gc", h_gc}, {"sleep", h_sleep}, {"block", h_block}, {NULL, NULL} };
static RJS_Runtime *mk_runtime(void) {
    RJS_Runtime *rt = rjs_runtime_new(); RJS_Realm *realm = rjs_realm_current(rt);
    size_t top = rjs_value_stack_save(rt); RJS_Value *name = rjs_value_stack_push(rt), *fn = rjs_value_stack_push(rt), *o = rjs_value_stack_push(rt); RJS_PropertyName pn;
    rjs_ordinary_object_create(rt, NULL, o);
    for (int i = 0; hostfns[i].n; i++) {
        rjs_string_from_chars(rt, name, hostfns[i].n, -1); rjs_create_builtin_function(rt, NULL, hostfns[i].f, 0, name, realm, NULL, NULL, fn);
        rjs_property_name_init(rt, &pn, name); rjs_create_data_property_or_throw(rt, o, &pn, fn); rjs_property_name_deinit(rt, &pn);
    }
    rjs_string_from_chars(rt, name, "$", -1); rjs_property_name_init(rt, &pn, name); rjs_create_data_property_or_throw(rt, rjs_global_object(realm), &pn, o); rjs_property_name_deinit(rt, &pn);
    rjs_value_stack_restore(rt, top); return rt;
}
static void note_err(RJS_Runtime *rt, const char *tag) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *e = rjs_value_stack_push(rt), *s = rjs_value_stack_push(rt);
    if (rjs_catch(rt, e)) { const char *t = "?"; if (rjs_to_string(rt, e, s) == RJS_OK) t = rjs_string_to_enc_chars(rt, s, NULL, NULL); tr("%d %s %s", cur, tag, t); }
    rjs_value_stack_restore(rt, top);
}
static void run_script(RJS_Runtime *rt, const char *src, size_t n) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt), *rv = rjs_value_stack_push(rt);
    if (rjs_string_from_enc_chars(rt, s, src, n, NULL) == RJS_ERR || rjs_script_from_string(rt, sc, s, rjs_realm_current(rt), RJS_FALSE) == RJS_ERR) note_err(rt, "parse");
    else if (rjs_script_evaluation(rt, sc, rv) == RJS_ERR) note_err(rt, "uncaught");
    rjs_solve_jobs(rt); note_err(rt, "unhandled");
    rjs_value_stack_restore(rt, top);
}
static void fiber_main(void) {
    int k = cur; char key[16]; size_t n;
    for (int gen = 0; running; gen++) {
        snprintf(key, sizeof key, "%c%d", 'a' + gen, k); const char *src = cfg_bytes(key, &n); if (!src) break;
        if (!F[k].rt) F[k].rt = mk_runtime();
        run_script(F[k].rt, src, n);
        RJS_Runtime *rt = F[k].rt; F[k].rt = NULL; if (running) rjs_runtime_free(rt);
    }
    tr("%d end", k);
    F[k].st = ST_DONE; n_yield++; cur = 0;
    int t = pick(0); if (t) { cur = t; ilhash = (ilhash ^ (t + 1)) * 1099511628211ull; swapcontext(&F[k].uc, &F[t].uc); } else swapcontext(&F[k].uc, &uc_main);
}
void sim_init(void) {
    A = mmap((void*)0x100000000000ull, A_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    S = mmap((void*)0x110000000000ull, A_SIZE / 8 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    cells = mmap(NULL, sizeof(Cell) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    G = mmap(NULL, (_end - __data_start) / 8 * 4 + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
#define NPRE 4
void sim_pre(void) { for (int k = 1; k <= NPRE; k++) { cur = k; F[k].rt = mk_runtime(); } cur = 0; }
extern void rjs_dtoa_deinit(void) __attribute__((weak));
void run_case(int pre) {
    (void)pre; nf = cfgi("agents", 2); if (nf > MAXF) nf = MAXF;
    sched_parse(&sw_sched, cfg("sw", "off")); sched_parse(&jump_sched, cfg("jump", "off")); sched_parse(&clk_sched, cfg("clk", "off")); sched_parse(&spur_sched, cfg("spur", "off")); sched_parse(&gc_sched, cfg("gc", "off"));
    seed_who = strtoull(cfg("who", "1"), NULL, 10); race_on = cfgi("race", 1); max_yield = cfgi("maxyield", 3000000);
    long live0 = live_malloc;
    for (int k = 1; k <= NPRE; k++) if (F[k].rt && k > nf) { cur = k; rjs_runtime_free(F[k].rt); F[k].rt = NULL; cur = 0; }
    live0 = live_malloc; shm->stage = 1;
    for (int k = 0; k < 4; k++) { char key[8]; snprintf(key, sizeof key, "sab%d", k); long n = cfgi(key, -1); if (n >= 0) { slots[k].db = rjs_data_block_new(n, RJS_DATA_BLOCK_FL_SHARED); slots[k].len = n; content(slots[k].db, n); } }
    F[0].vc[0] = 2; int64_t t0 = mono_ns;
    for (int k = 1; k <= nf; k++) {
        Fib *f = &F[k]; f->stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(f->stk, 4096, PROT_NONE);
        getcontext(&f->uc); f->uc.uc_stack.ss_sp = f->stk; f->uc.uc_stack.ss_size = STK; f->uc.uc_link = NULL; makecontext(&f->uc, fiber_main, 0);
        f->st = ST_READY; memcpy(f->vc, F[0].vc, sizeof f->vc); f->vc[0] = 1; f->vc[k] = 1;
    }
    running = 1; shm->stage = 2; sim_armed = 1;
    int t = pick(0); if (t) switch_to(t);
    running = 0; int left = 0;
    for (int k = 1; k <= nf; k++) if (F[k].st != ST_DONE) { left++; tr("%d blocked %s", k, F[k].st == ST_COND ? "wait" : F[k].st == ST_MUTEX ? "lock" : F[k].st == ST_SLOT ? "slot" : F[k].st == ST_READY ? "ready" : "other"); }
    shm->stage = 3;
    for (int k = 0; k < NSLOT; k++) if (slots[k].db && !left) { rjs_data_block_unref(slots[k].db); slots[k].db = NULL; }
    if (!left) tr("leaks live=%ld", live_malloc);
    tr("!il %016llx yields %llu shared %llu races %d", (unsigned long long)ilhash, (unsigned long long)n_yield, (unsigned long long)n_shared, nrace);
    shm->n_probe = n_yield; shm->n_io = n_shared; shm->sim_us = (mono_ns - t0) / 1000; shm->stage = 4;
}
