/* In-memory file system behind the C library calls the engine makes.  Files are
 * opened as stdio cookie streams, so the stdio layer itself (buffering, error
 * and end-of-file flags, flush at close) is the real C library. */
#include "sim.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>

typedef struct { char *data; size_t len, cap; int ref, isdir; mode_t mode; } Inode;
typedef struct { char *path; Inode *ino; } Ent;
static Ent *ents; static int nents, capents;
static char cwd[PATH_MAX] = "/sim";
Sched io_sched; uint64_t io_seed; long disk_cap = -1; static long disk_used;
int io_log;

static Inode *ino_new(int isdir) { Inode *i = calloc(1, sizeof *i); i->ref = 1; i->isdir = isdir; i->mode = isdir ? 0755 : 0644; return i; }
static void ino_unref(Inode *i) { if (--i->ref == 0) { disk_used -= i->len; free(i->data); free(i); } }
static int find(const char *p) { for (int i = 0; i < nents; i++) if (!strcmp(ents[i].path, p)) return i; return -1; }

static void norm(const char *in, char *out) {
    char tmp[PATH_MAX * 2]; char *parts[512]; int n = 0; char *sv;
    if (in[0] == '/') snprintf(tmp, sizeof tmp, "%s", in); else snprintf(tmp, sizeof tmp, "%s/%s", cwd, in);
    for (char *t = strtok_r(tmp, "/", &sv); t; t = strtok_r(NULL, "/", &sv)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { if (n) n--; continue; }
        if (n < 512) parts[n++] = t;
    }
    char *o = out; *o = 0;
    for (int i = 0; i < n; i++) { o += snprintf(o, PATH_MAX - (o - out), "/%s", parts[i]); }
    if (!n) strcpy(out, "/");
}
void simfs_real_path(const char *in, char *out) { norm(in, out); }
static int parent_ok(const char *p) {
    char b[PATH_MAX]; snprintf(b, sizeof b, "%s", p);
    char *s = strrchr(b, '/'); if (!s) return 0;
    if (s == b) strcpy(b, "/"); else *s = 0;
    int i = find(b); if (i < 0) { errno = ENOENT; return 0; }
    if (!ents[i].ino->isdir) { errno = ENOTDIR; return 0; }
    return 1;
}
static int add(const char *p, Inode *ino) {
    if (nents == capents) { capents = capents ? capents * 2 : 64; ents = realloc(ents, capents * sizeof *ents); }
    ents[nents].path = strdup(p); ents[nents].ino = ino; return nents++;
}
static void del(int i) { free(ents[i].path); ino_unref(ents[i].ino); memmove(ents + i, ents + i + 1, (nents - i - 1) * sizeof *ents); nents--; }
void simfs_reset(void) {
    while (nents) del(nents - 1);
    add("/", ino_new(1)); add("/sim", ino_new(1)); strcpy(cwd, "/sim");
}
static int ino_write(Inode *i, size_t pos, const char *b, size_t n) {
    if (pos + n > i->cap) { size_t c = i->cap ? i->cap : 64; while (c < pos + n) c *= 2; i->data = realloc(i->data, c); i->cap = c; }
    if (pos > i->len) memset(i->data + i->len, 0, pos - i->len);
    memcpy(i->data + pos, b, n);
    if (pos + n > i->len) { disk_used += pos + n - i->len; i->len = pos + n; }
    return 0;
}
void simfs_put(const char *path, const char *data, size_t n, int dir) {
    char p[PATH_MAX]; norm(path, p);
    for (char *s = p + 1; (s = strchr(s, '/')); s++) { *s = 0; if (find(p) < 0) add(p, ino_new(1)); *s = '/'; }
    int i = find(p); if (i < 0) i = add(p, ino_new(dir));
    if (!dir) { ents[i].ino->len = 0; if (n) ino_write(ents[i].ino, 0, data, n); }
}
const char *simfs_get(const char *path, size_t *n) {
    char p[PATH_MAX]; norm(path, p); int i = find(p);
    if (i < 0 || ents[i].ino->isdir) return NULL;
    if (n) *n = ents[i].ino->len;
    return ents[i].ino->data ? ents[i].ino->data : "";
}
int simfs_exists(const char *path) { char p[PATH_MAX]; norm(path, p); return find(p) >= 0; }
static int cmpent(const void *a, const void *b) { return strcmp(((Ent*)a)->path, ((Ent*)b)->path); }
void simfs_dump(void) {
    Ent *c = malloc((nents + 1) * sizeof *c); memcpy(c, ents, nents * sizeof *c); qsort(c, nents, sizeof *c, cmpent);
    for (int i = 0; i < nents; i++) {
        if (c[i].ino->isdir) tr("#dir %s", c[i].path);
        else {
            size_t n = c[i].ino->len; char *h = malloc(n * 2 + 1 + PATH_MAX + 64);
            int o = sprintf(h, "%s %o ", c[i].path, c[i].ino->mode & 0777);
            for (size_t k = 0; k < n; k++) o += sprintf(h + o, "%02x", (unsigned char)c[i].ino->data[k]);
            tr_bytes("#file", h, o); free(h);
        }
    }
    free(c);
}
void simfs_setup_from_case(void) {
    simfs_reset();
    for (int i = 0; i < nkvs; i++) {
        if (!strncmp(kvs[i].key, "file:", 5)) simfs_put(kvs[i].key + 5, kvs[i].val, kvs[i].len, 0);
        if (!strncmp(kvs[i].key, "dir:", 4)) simfs_put(kvs[i].key + 4, NULL, 0, 1);
    }
    sched_parse(&io_sched, cfg("io", "off"));
    io_seed = strtoull(cfg("ioseed", "1"), NULL, 10);
    disk_cap = cfgi("diskcap", -1);
    io_log = cfgi("iolog", 0);
    const char *c = cfg("cwd", NULL); if (c) { norm(c, cwd); if (find(cwd) < 0) simfs_put(cwd, NULL, 0, 1); }
}

/* one simulated system call: returns 0 = proceed, else a fault draw */
static uint64_t iocall(const char *op, const char *path) {
    if (!sim_armed) return 0;
    uint64_t i = shm->n_io++;
    if (!sched_hit(&io_sched, i)) { if (io_log) tr("!call %llu %s %s", (unsigned long long)i, op, path ? path : "-"); return 0; }
    Rng r = { io_seed * 1000003u + i };
    uint64_t d = rng_next(&r) | 1;
    fired(FK_IO, i);
    return d;
}
static void flt(const char *op, const char *path, const char *what) {
    tr("!io %llu %s %s %s", (unsigned long long)(shm->n_io - 1), op, what, path ? path : "-");
}
static const char *ename(int e) {
    switch (e) { case EIO: return "EIO"; case ENOSPC: return "ENOSPC"; case EACCES: return "EACCES"; case EMFILE: return "EMFILE"; case EDQUOT: return "EDQUOT"; case ENOMEM: return "ENOMEM"; case ESPIPE: return "ESPIPE"; case EINTR: return "EINTR"; case ENFILE: return "ENFILE"; }
    return "E";
}
static int errpick(const char *op, const char *path, uint64_t d, int n, ...) {
    va_list ap; va_start(ap, n); int e = 0, k = (d >> 8) % n; for (int i = 0; i <= k; i++) e = va_arg(ap, int); va_end(ap);
    flt(op, path, ename(e)); errno = e; return -1;
}

/* ---- streams ---- */
typedef struct { Inode *ino; off64_t pos; int rd, wr, app; char *buf; char path[]; } OF;
static ssize_t ck_read(void *c, char *b, size_t n) {
    OF *o = c; uint64_t d = iocall("read", o->path);
    if (!o->rd) { errno = EBADF; return -1; }
    if (o->ino->isdir) { errno = EISDIR; return -1; }
    size_t av = o->pos < (off64_t)o->ino->len ? o->ino->len - o->pos : 0;
    if (av > n) av = n;
    if (d) {
        if ((d >> 3) % 3 != 0 || av < 2) return errpick("read", o->path, d, 2, EIO, EINTR);
        av = 1 + (d >> 16) % (av - 1); flt("read", o->path, "SHORT");
    }
    memcpy(b, o->ino->data + o->pos, av); o->pos += av; return av;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    OF *o = c; uint64_t d = iocall("write", o->path); size_t w = n;
    if (!o->wr) { errno = EBADF; return 0; }
    if (o->app) o->pos = o->ino->len;
    if (d) {
        if ((d >> 3) % 2 || n < 2) { errpick("write", o->path, d, 3, ENOSPC, EIO, EDQUOT); return 0; }
        w = 1 + (d >> 16) % (n - 1); flt("write", o->path, "SHORT");
    } else if (disk_cap >= 0) {
        long room = disk_cap - disk_used; off64_t end = o->pos + n; long grow = end > (off64_t)o->ino->len ? end - o->ino->len : 0;
        if (grow > room) { w = grow - room >= (long)n ? 0 : n - (grow - room); tr("!io %llu write DISKFULL %s", (unsigned long long)(shm->n_io - 1), o->path); fired(FK_IO, shm->n_io - 1); }
    }
    if (w) { ino_write(o->ino, o->pos, b, w); o->pos += w; }
    if (w < n) errno = ENOSPC;
    return w;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    OF *o = c; uint64_t d = iocall("seek", o->path);
    if (d) return errpick("seek", o->path, d, 2, ESPIPE, EIO);
    off64_t p = *off; if (wh == SEEK_CUR) p += o->pos; else if (wh == SEEK_END) p += o->ino->len;
    if (p < 0) { errno = EINVAL; return -1; }
    o->pos = p; *off = p; return 0;
}
static int ck_close(void *c) {
    OF *o = c; uint64_t d = iocall("close", o->path); int r = 0;
    if (d) r = errpick("close", o->path, d, 3, EIO, ENOSPC, EDQUOT);
    int e = errno; ino_unref(o->ino); free(o->buf); free(o); errno = e; return r;
}
FILE *__wrap_fopen(const char *path, const char *mode) {
    char p[PATH_MAX]; norm(path, p);
    uint64_t d = iocall("open", p);
    if (d) { errpick("open", p, d, 3, EACCES, EMFILE, ENFILE); return NULL; }
    int rd = 0, wr = 0, app = 0, trunc = 0, creat = 0, excl = 0;
    switch (mode[0]) { case 'r': rd = 1; break; case 'w': wr = creat = trunc = 1; break; case 'a': wr = creat = app = 1; break; default: errno = EINVAL; return NULL; }
    for (const char *m = mode + 1; *m; m++) { if (*m == '+') rd = wr = 1; if (*m == 'x') excl = 1; }
    int i = find(p);
    if (i < 0) {
        if (!creat) { errno = ENOENT; return NULL; }
        if (!parent_ok(p)) return NULL;
        size_t L = strlen(path); if (L && path[L-1] == '/') { errno = EISDIR; return NULL; }
        i = add(p, ino_new(0));
    } else if (excl && creat) { errno = EEXIST; return NULL; }
    else if (ents[i].ino->isdir && wr) { errno = EISDIR; return NULL; }
    Inode *ino = ents[i].ino;
    if ((rd && !(ino->mode & 0400)) || (wr && !(ino->mode & 0200))) { errno = EACCES; return NULL; }
    if (trunc) { disk_used -= ino->len; ino->len = 0; }
    OF *o = calloc(1, sizeof *o + strlen(p) + 1); strcpy(o->path, p); o->ino = ino; ino->ref++; o->rd = rd; o->wr = wr; o->app = app;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    char m2[4]; m2[0] = mode[0]; m2[1] = rd && wr ? '+' : 0; m2[2] = 0;
    FILE *f = fopencookie(o, m2, io);
    if (f) { live_file++; long bs = cfgi("stdiobuf", 0); if (bs > 0) setvbuf(f, o->buf = malloc(bs), _IOFBF, bs); else if (bs < 0) setvbuf(f, NULL, _IONBF, 0); }
    return f;
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE *f) { live_file--; return __real_fclose(f); }

int __wrap_stat(const char *path, struct stat *st) {
    char p[PATH_MAX]; norm(path, p); uint64_t d = iocall("stat", p);
    if (d) return errpick("stat", p, d, 2, EACCES, EIO);
    int i = find(p); if (i < 0) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st); Inode *o = ents[i].ino;
    st->st_mode = (o->isdir ? S_IFDIR : S_IFREG) | (o->mode & 07777); st->st_size = o->isdir ? 4096 : o->len; st->st_nlink = 1; st->st_ino = (ino_t)(i + 1);
    st->st_mtime = st->st_atime = st->st_ctime = 1700000000; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
    return 0;
}
int __wrap_chmod(const char *path, mode_t m) {
    char p[PATH_MAX]; norm(path, p); uint64_t d = iocall("chmod", p);
    if (d) return errpick("chmod", p, d, 2, EACCES, EIO);
    int i = find(p); if (i < 0) { errno = ENOENT; return -1; }
    ents[i].ino->mode = m & 07777; return 0;
}
int __wrap_mkdir(const char *path, mode_t m) {
    char p[PATH_MAX]; norm(path, p); uint64_t d = iocall("mkdir", p);
    if (d) return errpick("mkdir", p, d, 3, EACCES, EIO, ENOSPC);
    if (find(p) >= 0) { errno = EEXIST; return -1; }
    if (!parent_ok(p)) return -1;
    int i = add(p, ino_new(1)); ents[i].ino->mode = m & 0777; return 0;
}
static int haskids(const char *p) { size_t n = strlen(p); for (int i = 0; i < nents; i++) if (!strncmp(ents[i].path, p, n) && ents[i].path[n] == '/') return 1; return 0; }
int __wrap_rmdir(const char *path) {
    char p[PATH_MAX]; norm(path, p); uint64_t d = iocall("rmdir", p);
    if (d) return errpick("rmdir", p, d, 2, EACCES, EIO);
    int i = find(p); if (i < 0) { errno = ENOENT; return -1; }
    if (!ents[i].ino->isdir) { errno = ENOTDIR; return -1; }
    if (haskids(p)) { errno = ENOTEMPTY; return -1; }
    del(i); return 0;
}
int __wrap_unlink(const char *path) {
    char p[PATH_MAX]; norm(path, p); uint64_t d = iocall("unlink", p);
    if (d) return errpick("unlink", p, d, 2, EACCES, EIO);
    int i = find(p); if (i < 0) { errno = ENOENT; return -1; }
    if (ents[i].ino->isdir) { errno = EISDIR; return -1; }
    del(i); return 0;
}
int __wrap_rename(const char *a, const char *b) {
    char p[PATH_MAX], q[PATH_MAX]; norm(a, p); norm(b, q); uint64_t d = iocall("rename", p);
    if (d) return errpick("rename", p, d, 3, EACCES, EIO, ENOSPC);
    int i = find(p); if (i < 0) { errno = ENOENT; return -1; }
    if (!parent_ok(q)) return -1;
    if (!strcmp(p, q)) return 0;
    size_t n = strlen(p);
    if (!strncmp(q, p, n) && q[n] == '/') { errno = EINVAL; return -1; }
    int j = find(q);
    if (j >= 0) {
        if (ents[i].ino->isdir && !ents[j].ino->isdir) { errno = ENOTDIR; return -1; }
        if (!ents[i].ino->isdir && ents[j].ino->isdir) { errno = EISDIR; return -1; }
        if (ents[j].ino->isdir && haskids(q)) { errno = ENOTEMPTY; return -1; }
        del(j); i = find(p);
    }
    for (int k = 0; k < nents; k++) if (k == i || (!strncmp(ents[k].path, p, n) && ents[k].path[n] == '/')) {
        char nb[PATH_MAX * 2]; snprintf(nb, sizeof nb, "%s%s", q, ents[k].path + n); free(ents[k].path); ents[k].path = strdup(nb);
    }
    return 0;
}
char *__wrap_realpath(const char *path, char *out) {
    char p[PATH_MAX]; norm(path, p); uint64_t d = iocall("realpath", p);
    if (d) { errpick("realpath", p, d, 2, EACCES, EIO); return NULL; }
    if (find(p) < 0) { errno = ENOENT; return NULL; }
    if (!out) { out = malloc(PATH_MAX); live_malloc++; }
    strcpy(out, p); return out;
}
char *__wrap_getcwd(char *b, size_t n) {
    uint64_t d = iocall("getcwd", "-");
    if (d) { errpick("getcwd", "-", d, 2, EACCES, ENOMEM); return NULL; }
    if (strlen(cwd) + 1 > n) { errno = ERANGE; return NULL; }
    strcpy(b, cwd); return b;
}
char *__wrap_getenv(const char *k) {
    char kk[256]; snprintf(kk, sizeof kk, "env:%s", k);
    return (char*)cfg(kk, NULL);
}
int __wrap_system(const char *c) { tr("!system %s", c ? c : "(null)"); return (int)cfgi("systemrc", 0); }
int __wrap_isatty(int fd) { (void)fd; return 0; }

typedef struct { char **names; int *isdir; int n, i; char path[PATH_MAX]; struct dirent de; } SD;
void *__wrap_opendir(const char *path) {
    char p[PATH_MAX]; norm(path, p); uint64_t d = iocall("opendir", p);
    if (d) { errpick("opendir", p, d, 2, EACCES, EMFILE); return NULL; }
    int i = find(p); if (i < 0) { errno = ENOENT; return NULL; }
    if (!ents[i].ino->isdir) { errno = ENOTDIR; return NULL; }
    SD *s = calloc(1, sizeof *s); strcpy(s->path, p);
    size_t n = strlen(p); if (n == 1) n = 0;
    s->names = calloc(nents + 3, sizeof(char*)); s->isdir = calloc(nents + 3, sizeof(int));
    s->names[s->n] = strdup("."); s->isdir[s->n++] = 1; s->names[s->n] = strdup(".."); s->isdir[s->n++] = 1;
    for (int k = 0; k < nents; k++) { const char *q = ents[k].path; if (!strncmp(q, p, n) && q[n] == '/' && q[n + 1] && !strchr(q + n + 1, '/')) { s->names[s->n] = strdup(q + n + 1); s->isdir[s->n++] = ents[k].ino->isdir; } }
    live_dir++;
    return s;
}
struct dirent *__wrap_readdir(void *v) {
    SD *s = v; uint64_t d = iocall("readdir", s->path);
    if (d) { errpick("readdir", s->path, d, 2, EIO, EIO); return NULL; }
    if (s->i >= s->n) return NULL;
    memset(&s->de, 0, sizeof s->de); s->de.d_type = s->isdir[s->i] ? DT_DIR : DT_REG;
    snprintf(s->de.d_name, sizeof s->de.d_name, "%s", s->names[s->i++]); return &s->de;
}
int __wrap_closedir(void *v) {
    SD *s = v; uint64_t d = iocall("closedir", s->path); int r = d ? errpick("closedir", s->path, d, 2, EIO, EINTR) : 0; int e = errno;
    for (int i = 0; i < s->n; i++) free(s->names[i]);
    free(s->names); free(s->isdir); free(s); live_dir--; errno = e; return r;
}
