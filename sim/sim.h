/* Deterministic simulator for ratjs: shared declarations. */
#ifndef SIM_H
#define SIM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

#define SHM_SIZE   (8u << 20)
#define MAX_FIRED  200000

/* ---- shared result area (survives a crash of the simulated process) ---- */
typedef struct {
    volatile uint32_t len;         /* bytes of trace text */
    volatile uint32_t overflow;
    volatile uint64_t n_alloc;     /* collection opportunities seen */
    volatile uint64_t n_gc;        /* collections injected */
    volatile uint64_t n_probe;     /* host-call fault points seen */
    volatile uint64_t n_io;        /* simulated system calls */
    volatile uint64_t n_malloc;    /* allocation calls that may fail */
    volatile uint64_t sim_us;      /* simulated time covered, microseconds */
    volatile uint32_t stage;       /* how far the run got */
    volatile uint32_t nfired;
    struct { uint32_t kind; uint32_t idx; } fired[MAX_FIRED];
    char text[SHM_SIZE];
} SimShm;
extern SimShm *shm;

enum { FK_GC = 1, FK_PROBE, FK_IO, FK_MALLOC, FK_DETACH };

/* ---- prng ---- */
typedef struct { uint64_t s; } Rng;
static inline uint64_t rng_next(Rng *r) {
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint32_t rng_below(Rng *r, uint32_t n) { return n ? (uint32_t)((rng_next(r) >> 11) % n) : 0; }

/* ---- schedules: decide by index whether something happens ---- */
typedef struct {
    int       mode;      /* 0 off, 1 random, 2 list, 3 range */
    uint32_t  p;         /* per million */
    uint32_t  lo, hi;    /* active range of indices (mode 1 and 3) */
    Rng       rng;
    uint32_t *list;  size_t nlist;
} Sched;
void sched_parse(Sched *s, const char *txt);
int  sched_hit(Sched *s, uint64_t idx);

/* ---- case ---- */
typedef struct { char *key; char *val; size_t len; } KV;
extern KV *kvs; extern int nkvs;
const char *cfg(const char *key, const char *dflt);
long cfgi(const char *key, long dflt);
const char *cfg_bytes(const char *key, size_t *len);

/* ---- trace ---- */
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void tr_bytes(const char *tag, const char *b, size_t n);
void fired(uint32_t kind, uint64_t idx);

/* ---- live resource counters (wrapped allocators) ---- */
extern long live_malloc, live_file, live_dir, live_ucnv;
extern int  sim_armed;          /* faults may be injected now */
extern int64_t sim_clock_us;    /* simulated wall clock */

/* ---- simulated file system ---- */
void simfs_reset(void);
void simfs_setup_from_case(void);
void simfs_dump(void);
void simfs_put(const char *path, const char *data, size_t n, int dir);
const char *simfs_get(const char *path, size_t *n);
int  simfs_exists(const char *path);
void simfs_real_path(const char *in, char *out);

#endif
