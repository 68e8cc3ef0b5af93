/* Server: reads cases, runs each in a forked process, writes trace, fired points and counters. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <ratjs.h>
void run_case(int pre); void sim_pre(void); void sim_init(void);
/* ---------- server ---------- */
static void parse_case(char *b, size_t n) {
    char *p = b, *e = b + n; kvs = calloc(4096, sizeof *kvs); nkvs = 0;
    while (p < e && nkvs < 4096) {
        char *nl = memchr(p, '\n', e - p); if (!nl) break; *nl = 0;
        char *sp = strrchr(p, ' '); if (!sp) break; *sp = 0; size_t L = strtoul(sp + 1, NULL, 10);
        kvs[nkvs].key = p; kvs[nkvs].val = malloc(L + 1); memcpy(kvs[nkvs].val, nl + 1, L); kvs[nkvs].val[L] = 0; kvs[nkvs].len = L; nkvs++;
        p = nl + 1 + L + 1;
    }
}
static size_t rd(int fd, char *b, size_t n) { size_t g = 0; while (g < n) { ssize_t k = read(fd, b + g, n - g); if (k <= 0) break; g += k; } return g; }
static void wrall(const char *b, size_t n) { while (n) { ssize_t k = write(1, b, n); if (k <= 0) _exit(3); b += k; n -= k; } }

static void child(int pre) {
    struct rlimit rl; long cpu = cfgi("cpu", 20);
    rl.rlim_cur = cpu; rl.rlim_max = cpu + 2; setrlimit(RLIMIT_CPU, &rl);
    alarm((unsigned)(60 + 4 * cpu));      /* a run that sleeps for ever is a hang too */
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    run_case(pre);
    _exit(0);
}
int main(int argc, char **argv) {
    int pre = 0, ext = 0; for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--pre")) pre = 1; if (!strcmp(argv[i], "--ext")) ext = 1; }
    shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    setenv("TZ", "UTC", 1);
    rjs_log_set_level(RJS_LOG_NONE);
    sim_init();
    if (pre) { KV k = { "ext", ext ? "1" : "0", 1 }; kvs = &k; nkvs = 1; sim_pre(); kvs = NULL; nkvs = 0; }
    char hdr[64]; 
    for (;;) {
        size_t i = 0; char c; while (i < 63) { if (read(0, &c, 1) != 1) return 0; if (c == '\n') break; hdr[i++] = c; } hdr[i] = 0;
        size_t n = strtoul(hdr, NULL, 10); char *b = malloc(n + 1); if (rd(0, b, n) != n) return 0; b[n] = 0;
        parse_case(b, n);
        shm->len = 0; shm->overflow = 0; shm->n_alloc = shm->n_gc = shm->n_probe = shm->n_io = shm->n_malloc = shm->sim_us = 0; shm->nfired = 0; shm->stage = 0;
        int pe[2]; if (pipe(pe)) return 2;
        pid_t pid = fork();
        if (pid == 0) { close(pe[0]); dup2(pe[1], 2); close(pe[1]); close(0); child(pre); }
        close(pe[1]);
        char *err = malloc(1 << 16); size_t en = 0;
        for (;;) { char t[4096]; ssize_t k = read(pe[0], t, sizeof t); if (k <= 0) break; if (en + k < (1 << 16)) { memcpy(err + en, t, k); en += k; } }
        close(pe[0]); int st; waitpid(pid, &st, 0);
        char h[512]; int hl = snprintf(h, sizeof h, "R %d %d %u %u %llu %llu %llu %llu %llu %llu %u %u %zu\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, shm->stage, shm->overflow,
            (unsigned long long)shm->n_alloc, (unsigned long long)shm->n_gc, (unsigned long long)shm->n_probe, (unsigned long long)shm->n_io, (unsigned long long)shm->n_malloc, (unsigned long long)shm->sim_us, shm->nfired, shm->len, en);
        wrall(h, hl); wrall((const char*)shm->fired, shm->nfired * 8); wrall(shm->text, shm->len); wrall(err, en);
        free(err); for (int k = 0; k < nkvs; k++) free(kvs[k].val); free(kvs); kvs = NULL; nkvs = 0; free(b);
    }
}
