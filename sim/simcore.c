/* Core services: trace, schedules, wrapped allocator, clock and randomness. */
#include "sim.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <unicode/ucnv.h>

#ifndef SIM_THREADS
SimShm *shm;
KV *kvs; int nkvs;
long live_malloc, live_file, live_dir, live_ucnv, live_bytes;
#include <malloc.h>
#define LB(p) ((p) ? (long)malloc_usable_size(p) : 0)
int  sim_armed;
int64_t sim_clock_us = 1700000000000000ll;
#endif

void tr(const char *fmt, ...) {
    va_list ap; char buf[4096]; int n;
    va_start(ap, fmt); n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    tr_bytes(NULL, buf, n);
}
void tr_bytes(const char *tag, const char *b, size_t n) {
    size_t t = tag ? strlen(tag) : 0;
    if (shm->len + n + t + 3 > SHM_SIZE) { shm->overflow = 1; return; }
    char *p = shm->text + shm->len;
    if (tag) { memcpy(p, tag, t); p += t; *p++ = ' '; }
    for (size_t i = 0; i < n; i++) *p++ = (b[i] == '\n') ? '\x1f' : b[i];
    *p++ = '\n';
    shm->len = p - shm->text;
}
void fired(uint32_t kind, uint64_t idx) {
    if (shm->nfired < MAX_FIRED) { shm->fired[shm->nfired].kind = kind; shm->fired[shm->nfired].idx = idx; shm->nfired++; }
}
const char *cfg_bytes(const char *key, size_t *len) {
    for (int i = 0; i < nkvs; i++) if (!strcmp(kvs[i].key, key)) { if (len) *len = kvs[i].len; return kvs[i].val; }
    return NULL;
}
const char *cfg(const char *key, const char *d) { const char *v = cfg_bytes(key, NULL); return v ? v : d; }
long cfgi(const char *key, long d) { const char *v = cfg(key, NULL); return v ? atol(v) : d; }

/* "off" | "rand:<per-million>:<seed>[:lo:hi]" | "list:1,2,3" | "range:lo:hi" | "every" */
void sched_parse(Sched *s, const char *t) {
    memset(s, 0, sizeof *s);
    s->hi = 0xffffffffu;
    if (!t || !strcmp(t, "off")) return;
    if (!strcmp(t, "every")) { s->mode = 3; return; }
    if (!strncmp(t, "rand:", 5)) {
        unsigned long long seed = 0; unsigned p = 0, lo = 0, hi = 0xffffffffu;
        sscanf(t + 5, "%u:%llu:%u:%u", &p, &seed, &lo, &hi);
        s->mode = 1; s->p = p; s->rng.s = seed; s->lo = lo; s->hi = hi; return;
    }
    if (!strncmp(t, "range:", 6)) { s->mode = 3; sscanf(t + 6, "%u:%u", &s->lo, &s->hi); return; }
    if (!strncmp(t, "list:", 5)) {
        s->mode = 2; const char *p = t + 5; size_t cap = 0;
        while (*p) {
            char *e; unsigned long v = strtoul(p, &e, 10);
            if (e == p) break;
            if (s->nlist == cap) { cap = cap ? cap * 2 : 64; s->list = realloc(s->list, cap * sizeof *s->list); }
            s->list[s->nlist++] = v; p = e; if (*p == ',') p++;
        }
    }
}
static int cmpu(const void *a, const void *b) { uint32_t x = *(uint32_t*)a, y = *(uint32_t*)b; return x < y ? -1 : x > y; }
int sched_hit(Sched *s, uint64_t idx) {
    switch (s->mode) {
    case 1: { int h = rng_below(&s->rng, 1000000) < s->p; return h && idx >= s->lo && idx < s->hi; }
    case 3: return idx >= s->lo && idx < s->hi;
    case 2: { uint32_t k = idx; return s->nlist && bsearch(&k, s->list, s->nlist, sizeof k, cmpu) != NULL; }
    }
    return 0;
}

#ifndef SIM_THREADS
/* ---- allocator ---- */
void *__real_malloc(size_t); void *__real_realloc(void*, size_t); void __real_free(void*); void *__real_calloc(size_t, size_t);
char *__real_strdup(const char*);
Sched malloc_sched;
int malloc_all; long malloc_min; long malloc_limit = -1;      /* requests above this size fail ("memory exhausted") */
static int alloc_fail(size_t n, int kind) {
    if (!sim_armed || !n) return 0;
    if (malloc_limit >= 0 && n > (size_t)malloc_limit) { fired(FK_MALLOC, 0); return 1; }
    if (malloc_sched.mode && (kind == 0 || malloc_all) && (long)n >= malloc_min) {          /* direct malloc only: realloc-based ones are fatal by design */
        uint64_t i = shm->n_malloc++;
        if (sched_hit(&malloc_sched, i)) { fired(FK_MALLOC, i); if (malloc_min) tr("!oom %lu", (unsigned long)n); return 1; }
    }
    return 0;
}
/* debugging aid: where each live block came from (case key leaktrace) */
#include <execinfo.h>
int leak_trace; typedef struct { void *p; void *bt[14]; int n; } Lt; static Lt *lts; static size_t ltn, ltcap;
static void lt_add(void *p) {
    if (!leak_trace || !p) return;
    if (ltn == ltcap) { ltcap = ltcap ? ltcap * 2 : 4096; lts = __real_realloc(lts, ltcap * sizeof *lts); }
    lts[ltn].p = p; lts[ltn].n = backtrace(lts[ltn].bt, 14); ltn++;
}
static void lt_del(void *p) {
    if (!leak_trace || !p) return;
    for (size_t i = ltn; i-- > 0;) if (lts[i].p == p) { lts[i] = lts[--ltn]; return; }
}
void lt_dump(void) { for (size_t i = 0; i < ltn && i < 20; i++) { fprintf(stderr, "live block %p\n", lts[i].p); fflush(stderr); backtrace_symbols_fd(lts[i].bt, lts[i].n, 2); } }
void *__wrap_malloc(size_t n) {
    if (alloc_fail(n, 0)) { errno = ENOMEM; return NULL; }
    void *p = __real_malloc(n); if (p) live_malloc++; live_bytes += LB(p); lt_add(p); return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (alloc_fail(a * b, 0)) { errno = ENOMEM; return NULL; }
    void *p = __real_calloc(a, b); if (p) live_malloc++; live_bytes += LB(p); lt_add(p); return p;
}
void *__wrap_realloc(void *o, size_t n) {
    if (alloc_fail(n, 1)) { errno = ENOMEM; return NULL; }
    long ob = LB(o);
    if (!n) { if (o) { lt_del(o); live_bytes -= ob; __real_free(o); live_malloc--; } return NULL; }
    if (o) lt_del(o); void *p = __real_realloc(o, n); if (p && !o) live_malloc++; if (p) live_bytes += LB(p) - ob; lt_add(p); return p;
}
void __wrap_free(void *p) { if (p) live_malloc--; live_bytes -= LB(p); lt_del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (p) live_malloc++; live_bytes += LB(p); lt_add(p); return p; }

/* blocks of the process-wide number conversion cache are counted apart */
long live_dtoa;
void *sim_dtoa_malloc(size_t n) { void *p = __real_malloc(n); if (p) live_dtoa++; return p; }
void *sim_dtoa_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (p && !o) live_dtoa++; return p; }
void sim_dtoa_free(void *p) { if (p) live_dtoa--; __real_free(p); }
UConverter *__real_ucnv_open_74(const char*, UErrorCode*); void __real_ucnv_close_74(UConverter*);
UConverter *__wrap_ucnv_open_74(const char *n, UErrorCode *e) { UConverter *c = __real_ucnv_open_74(n, e); if (c) live_ucnv++; return c; }
void __wrap_ucnv_close_74(UConverter *c) { if (c) live_ucnv--; __real_ucnv_close_74(c); }

/* ---- clock and randomness ---- */
static Rng rand_rng = { 12345 };
int64_t clock_step_us = 1; Sched clock_jump; static uint64_t n_clock;
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    if (sim_armed) {
        sim_clock_us += clock_step_us; shm->sim_us += clock_step_us;
    }
    tv->tv_sec = sim_clock_us / 1000000; tv->tv_usec = sim_clock_us % 1000000;
    if (tv->tv_usec < 0) { tv->tv_usec += 1000000; tv->tv_sec--; }
    n_clock++;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    (void)c;
    ts->tv_sec = sim_clock_us / 1000000; ts->tv_nsec = (sim_clock_us % 1000000) * 1000;
    return 0;
}
time_t __wrap_time(time_t *t) { time_t v = sim_clock_us / 1000000; if (t) *t = v; return v; }
int rand_extreme;             /* 1: always 0, 2: always RAND_MAX */
int __wrap_rand(void) {
    if (rand_extreme == 1) return 0;
    if (rand_extreme == 2) return RAND_MAX;
    return rng_next(&rand_rng) % ((uint64_t)RAND_MAX + 1);
}
void __wrap_srand(unsigned s) { rand_rng.s = s; }
#endif
