/* The simulated host of one JavaScript agent. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <ratjs.h>
#include "prelude_inc.h"

extern Sched malloc_sched; extern long malloc_limit, malloc_min; extern int malloc_all; extern int64_t clock_step_us; extern int rand_extreme;
extern int io_log, leak_trace; void lt_dump(void);
static Sched gc_sched, probe_sched, detach_sched;
static uint64_t gc_max = 12000;        /* at most this many injected collections in a run */
static int   gc_off;                    /* collections disabled altogether (reference run) */
static int   rt_ready;
static RJS_Runtime *g_rt;
extern void rjs_dtoa_deinit(void) __attribute__((weak));   /* process-wide number-conversion cache */

/* ---------- rooted host values ---------- */
typedef struct Ext { RJS_Value v[3]; char *name; int kind; int live; } Ext;   /* v: promise/resolve/reject */
static Ext **exts; static int nexts, capexts;
static RJS_Value main_vals[8];
static void host_scan(RJS_Runtime *rt, void *d) {
    (void)d;
    for (int i = 0; i < nexts; i++) rjs_gc_scan_value_buffer(rt, exts[i]->v, 3);
    rjs_gc_scan_value_buffer(rt, main_vals, 8);
}
static void host_free(RJS_Runtime *rt, void *d) { (void)rt; (void)d; }
static Ext *ext_new(RJS_Runtime *rt, const char *name, int kind) {
    Ext *e = calloc(1, sizeof *e); e->name = strdup(name); e->kind = kind; e->live = 1;
    for (int i = 0; i < 3; i++) rjs_value_set_undefined(rt, &e->v[i]);
    if (nexts == capexts) { capexts = capexts ? capexts * 2 : 16; exts = realloc(exts, capexts * sizeof *exts); }
    exts[nexts++] = e; return e;
}

/* ---------- collection injection ---------- */
void __real_rjs_gc_add(RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops);
void __wrap_rjs_gc_add(RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops) {
    RJS_RuntimeBase *rb = (RJS_RuntimeBase*)rt;
    RJS_Bool en = rb->gc_enable;
    if (!rt_ready || rb->gc_running) { __real_rjs_gc_add(rt, thing, ops); return; }
    rb->gc_enable = 0;
    __real_rjs_gc_add(rt, thing, ops);
    rb->gc_enable = en;
    if (!en || gc_off || !sim_armed) return;
    uint64_t i = shm->n_alloc++;
    if (shm->n_gc < gc_max && sched_hit(&gc_sched, i)) { shm->n_gc++; fired(FK_GC, i); rjs_gc_run(rt); }
}
/* keep natural collections out of the schedule: they depend on heap size only */

/* ---------- host functions ---------- */
static const char *cstr(RJS_Runtime *rt, RJS_Value *v, RJS_Value *tmp, RJS_Result *r) {
    if ((*r = rjs_to_string(rt, v, tmp)) == RJS_ERR) return NULL;
    const char *s = rjs_string_to_enc_chars(rt, tmp, NULL, NULL);
    if (!s) { *r = RJS_ERR; return NULL; }
    return s;
}
static RJS_NF(h_log) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt); RJS_Result r;
    const char *s = cstr(rt, rjs_argument_get(rt, args, argc, 0), t, &r);
    if (s) { tr_bytes(NULL, s, strlen(s)); r = RJS_OK; }
    rjs_value_set_undefined(rt, rv);
    rjs_value_stack_restore(rt, top); return r;
}
static RJS_NF(h_probe) {
    int code = 0; uint64_t i = 0;
    if (sim_armed) {
        i = shm->n_probe++;
        if (sched_hit(&probe_sched, i)) { code = 1; fired(FK_PROBE, i); }
        else if (sched_hit(&detach_sched, i)) { code = 2; fired(FK_DETACH, i); }
    }
    rjs_value_set_number(rt, rv, code);
    return RJS_OK;
}
static RJS_NF(h_gc) { if (!gc_off) rjs_gc_run(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_solve) { rjs_solve_jobs(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_detach) {
    RJS_Value *v = rjs_argument_get(rt, args, argc, 0);
    RJS_Result r = RJS_OK;
    if (rjs_is_array_buffer(rt, v) && !rjs_is_shared_array_buffer(rt, v)) r = rjs_detach_array_buffer(rt, v);
    rjs_value_set_undefined(rt, rv); return r;
}
static RJS_NF(h_ext) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt); RJS_Result r;
    const char *s = cstr(rt, rjs_argument_get(rt, args, argc, 0), t, &r);
    if (s) {
        Ext *e = ext_new(rt, s, 0);
        rjs_value_copy(rt, &e->v[1], rjs_argument_get(rt, args, argc, 1));
        rjs_value_copy(rt, &e->v[2], rjs_argument_get(rt, args, argc, 2));
        r = RJS_OK;
    }
    rjs_value_set_undefined(rt, rv);
    rjs_value_stack_restore(rt, top); return r;
}
static RJS_NF(h_realm) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt);
    RJS_Realm *realm = rjs_realm_new(rt, t);
    if (cfgi("ext", 0)) rjs_realm_load_extension(rt, realm);
    rjs_value_copy(rt, rv, rjs_global_object(realm));
    rjs_value_stack_restore(rt, top); return RJS_OK;
}
static RJS_NF(h_arm) { sim_armed = rjs_value_is_undefined(rt, rjs_argument_get(rt, args, argc, 0)) ? 1 : rjs_to_boolean(rt, rjs_argument_get(rt, args, argc, 0)); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_advance) {
    RJS_Number n; RJS_Result r;
    if ((r = rjs_to_number(rt, rjs_argument_get(rt, args, argc, 0), &n)) == RJS_ERR) return r;
    sim_clock_us += (int64_t)(n * 1000); if (n > 0) shm->sim_us += (int64_t)(n * 1000);
    rjs_value_set_number(rt, rv, (double)sim_clock_us / 1000.0); return RJS_OK;
}
static RJS_NF(h_setclock) {
    RJS_Number n; RJS_Result r;
    if ((r = rjs_to_number(rt, rjs_argument_get(rt, args, argc, 0), &n)) == RJS_ERR) return r;
    sim_clock_us = (int64_t)n; rjs_value_set_undefined(rt, rv); return RJS_OK;
}
static RJS_NF(h_stat) {   /* live resource counters */
    size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt); RJS_Result r;
    const char *s = cstr(rt, rjs_argument_get(rt, args, argc, 0), t, &r); double v = 0;
    if (s) { if (!strcmp(s, "file")) v = live_file; else if (!strcmp(s, "dir")) v = live_dir; else if (!strcmp(s, "ucnv")) v = live_ucnv; else if (!strcmp(s, "malloc")) v = live_malloc; else if (!strcmp(s, "dtoa")) { extern long live_dtoa; v = live_dtoa; } else if (!strcmp(s, "stack")) v = (double)top; }
    rjs_value_set_number(rt, rv, v); rjs_value_stack_restore(rt, top); return RJS_OK;
}
static RJS_NF(h_malloclimit) { RJS_Number n = 0; rjs_to_number(rt, rjs_argument_get(rt, args, argc, 0), &n); malloc_limit = (long)n; rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_evalScript) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt); RJS_Result r;
    if ((r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), t)) == RJS_ERR) goto end;
    if ((r = rjs_script_from_string(rt, sc, t, rjs_realm_current(rt), RJS_FALSE)) == RJS_ERR) { r = rjs_throw_syntax_error(rt, "syntax error"); goto end; }
    r = rjs_script_evaluation(rt, sc, rv);
end: rjs_value_stack_restore(rt, top); return r;
}
static RJS_NF(h_put) { /* put file */
    size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt); RJS_Result r; char *p;
    const char *s = cstr(rt, rjs_argument_get(rt, args, argc, 0), t, &r); if (!s) goto end; p = strdup(s);
    s = cstr(rt, rjs_argument_get(rt, args, argc, 1), t, &r); if (s) { simfs_put(p, s, strlen(s), 0); r = RJS_OK; } free(p);
end: rjs_value_set_undefined(rt, rv); rjs_value_stack_restore(rt, top); return r;
}
static struct { const char *n; RJS_NativeFunc f; } hostfns[] = {
    {"log", h_log}, {"probe", h_probe}, {"gc", h_gc}, {"solve", h_solve}, {"detach", h_detach}, {"ext", h_ext}, {"realm", h_realm},
    {"arm", h_arm}, {"advance", h_advance}, {"setclock", h_setclock}, {"stat", h_stat}, {"malloclimit", h_malloclimit}, {"evalScript", h_evalScript}, {"put", h_put},
    {NULL, NULL}
};
static void install_host(RJS_Runtime *rt, RJS_Realm *realm) {
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *name = rjs_value_stack_push(rt), *fn = rjs_value_stack_push(rt), *o = rjs_value_stack_push(rt);
    RJS_PropertyName pn;
    rjs_ordinary_object_create(rt, NULL, o);
    for (int i = 0; hostfns[i].n; i++) {
        rjs_string_from_chars(rt, name, hostfns[i].n, -1);
        rjs_create_builtin_function(rt, NULL, hostfns[i].f, 0, name, realm, NULL, NULL, fn);
        rjs_property_name_init(rt, &pn, name); rjs_create_data_property_or_throw(rt, o, &pn, fn); rjs_property_name_deinit(rt, &pn);
    }
    rjs_string_from_chars(rt, name, "__sim", -1);
    rjs_property_name_init(rt, &pn, name); rjs_create_data_property_or_throw(rt, rjs_global_object(realm), &pn, o); rjs_property_name_deinit(rt, &pn);
    rjs_value_stack_restore(rt, top);
}

/* ---------- modules ---------- */
static int async_modules;
static RJS_Result m_lookup(RJS_Runtime *rt, const char *base, const char *name, char *path) {
    (void)rt; char b[PATH_MAX * 2];
    if (name[0] == '.') {
        snprintf(b, sizeof b, "%s", base ? base : "/sim/x"); char *s = strrchr(b, '/'); if (s) *s = 0;
        strncat(b, "/", sizeof b - strlen(b) - 1); strncat(b, name, sizeof b - strlen(b) - 1);
    } else if (name[0] == '/') snprintf(b, sizeof b, "%s", name);
    else snprintf(b, sizeof b, "/sim/%s", name);
    simfs_real_path(b, path);
    if (!strcmp(name, "./nolookup")) { tr("!lookupfail %s", path); return RJS_ERR; }
    return RJS_OK;
}
static RJS_Result m_load_now(RJS_Runtime *rt, const char *id, RJS_PromiseCapability *pc, int fail) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *mod = rjs_value_stack_push(rt), *err = rjs_value_stack_push(rt);
    RJS_Input in; int has = 0; RJS_Result r = RJS_ERR;
    const char *sup = strrchr(id, '.'); RJS_ModuleType ty = sup && !strcasecmp(sup, ".json") ? RJS_MODULE_TYPE_JSON : RJS_MODULE_TYPE_SCRIPT;
    if (!fail) {
        if ((r = rjs_file_input_init(rt, &in, id, NULL)) == RJS_OK) { has = 1; r = rjs_load_module(rt, ty, &in, id, NULL, mod); }
        if (has) rjs_input_deinit(rt, &in);
    } else rjs_throw_type_error(rt, "simulated load failure");
    if (r == RJS_ERR) { rjs_catch(rt, err); r = rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL); }
    else r = rjs_call(rt, pc->resolve, rjs_v_undefined(rt), mod, 1, NULL);
    rjs_value_stack_restore(rt, top); return r;
}
static Sched load_sched; static uint64_t n_load;
static RJS_Result m_load(RJS_Runtime *rt, const char *id, RJS_PromiseCapability *pc) {
    uint64_t i = n_load++; int fail = sched_hit(&load_sched, i);
    tr("!load %s%s", id, fail ? " FAIL" : "");
    if (fail) fired(FK_IO, i);
    if (async_modules) {
        Ext *e = ext_new(rt, id, fail ? 2 : 1);
        rjs_value_copy(rt, &e->v[0], pc->promise); rjs_value_copy(rt, &e->v[1], pc->resolve); rjs_value_copy(rt, &e->v[2], pc->reject);
        return RJS_OK;
    }
    return m_load_now(rt, id, pc, fail);
}

/* ---------- running ---------- */
static int order[4096], norder, iorder;
static RJS_Result main_state; 
static RJS_NF(on_ok)  { rjs_value_copy(rt, &main_vals[2], rjs_argument_get(rt, args, argc, 0)); rjs_value_set_undefined(rt, rv); main_state = RJS_OK;  return RJS_OK; }
static RJS_NF(on_err) { rjs_value_copy(rt, &main_vals[2], rjs_argument_get(rt, args, argc, 0)); rjs_value_set_undefined(rt, rv); main_state = RJS_ERR; return RJS_OK; }

static void note_error(RJS_Runtime *rt, const char *tag, RJS_Value *err) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *n = rjs_value_stack_push(rt), *s = rjs_value_stack_push(rt); RJS_PropertyName pn; RJS_Result r; char nm[256] = "?";
    if (rjs_value_is_object(rt, err)) {
        rjs_string_from_chars(rt, n, "name", -1); rjs_property_name_init(rt, &pn, n);
        r = rjs_get(rt, err, &pn, s); rjs_property_name_deinit(rt, &pn);
        if (r == RJS_OK && rjs_value_is_string(rt, s)) snprintf(nm, sizeof nm, "%s", rjs_string_to_enc_chars(rt, s, NULL, NULL));
        if (cfgi("errmsg", 0)) {
            r = rjs_to_string(rt, err, s); if (r == RJS_OK) snprintf(nm, sizeof nm, "%s", rjs_string_to_enc_chars(rt, s, NULL, NULL));
        }
    } else if ((r = rjs_to_string(rt, err, s)) == RJS_OK) snprintf(nm, sizeof nm, "%s", rjs_string_to_enc_chars(rt, s, NULL, NULL));
    RJS_Value *d = rjs_value_stack_push(rt); rjs_catch(rt, d);
    tr("%s %s", tag, nm);
    rjs_value_stack_restore(rt, top);
}
static void note_pending_error(RJS_Runtime *rt, const char *tag) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *e = rjs_value_stack_push(rt);
    if (rjs_catch(rt, e)) note_error(rt, tag, e);
    rjs_value_stack_restore(rt, top);
}
static int settle_one(RJS_Runtime *rt) {
    int n = 0, k; for (int i = 0; i < nexts; i++) n += exts[i]->live;
    if (!n) return 0;
    int o = iorder < norder ? order[iorder] : 0; iorder++;
    k = (o >> 2) % n; int how = o & 3;        /* how: 3 = reject, else fulfil */
    Ext *e = NULL; for (int i = 0; i < nexts; i++) if (exts[i]->live && k-- == 0) { e = exts[i]; break; }
    e->live = 0;
    size_t top = rjs_value_stack_save(rt); RJS_Value *v = rjs_value_stack_push(rt);
    if (e->kind == 0) {
        char b[512]; tr("settle %s %s", e->name, how == 3 ? "reject" : "fulfil");
        snprintf(b, sizeof b, "%s:%s", e->name, how == 3 ? "r" : "v"); rjs_string_from_chars(rt, v, b, -1);
        rjs_call(rt, how == 3 ? &e->v[2] : &e->v[1], rjs_v_undefined(rt), v, 1, NULL);
    } else {
        RJS_PromiseCapability pc; rjs_promise_capability_init_vp(rt, &pc, &e->v[0], &e->v[1], &e->v[2]);
        tr("!loaded %s%s", e->name, e->kind == 2 ? " FAIL" : "");
        m_load_now(rt, e->name, &pc, e->kind == 2);
    }
    rjs_value_stack_restore(rt, top);
    return 1;
}
static void drain(RJS_Runtime *rt) {
    int max = cfgi("maxsettle", 100000);
    do { rjs_solve_jobs(rt); } while (max-- > 0 && settle_one(rt));
    rjs_solve_jobs(rt);
}
static void call_global(RJS_Runtime *rt, const char *fn) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *n = rjs_value_stack_push(rt), *f = rjs_value_stack_push(rt), *rv = rjs_value_stack_push(rt); RJS_PropertyName pn; RJS_Result r;
    rjs_string_from_chars(rt, n, fn, -1); rjs_property_name_init(rt, &pn, n);
    r = rjs_get(rt, rjs_global_object(rjs_realm_current(rt)), &pn, f); rjs_property_name_deinit(rt, &pn);
    if (r == RJS_OK && rjs_is_callable(rt, f)) { r = rjs_call(rt, f, rjs_v_undefined(rt), NULL, 0, rv); if (r == RJS_ERR) note_pending_error(rt, "uncaught"); }
    rjs_value_stack_restore(rt, top);
}
static void run_script(RJS_Runtime *rt, const char *src, size_t n, const char *what) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt), *rv = rjs_value_stack_push(rt); RJS_Result r;
    if ((r = rjs_string_from_enc_chars(rt, s, src, n, NULL)) == RJS_ERR) { tr("badsource %s", what); goto end; }
    if ((r = rjs_script_from_string(rt, sc, s, rjs_realm_current(rt), RJS_FALSE)) == RJS_ERR) { note_pending_error(rt, "parse"); tr("parsefail %s", what); goto end; }
    if ((r = rjs_script_evaluation(rt, sc, rv)) == RJS_ERR) note_pending_error(rt, "uncaught");
end: rjs_value_stack_restore(rt, top);
}
static int wait_main(RJS_Runtime *rt, RJS_Value *promise) {
    main_state = 0;
    if (rjs_promise_then_native(rt, promise, on_ok, on_err, NULL) == RJS_ERR) { note_pending_error(rt, "uncaught"); return 0; }
    int max = cfgi("maxsettle", 100000);
    while (main_state == 0 && max-- > 0) { rjs_solve_jobs(rt); if (main_state) break; if (!settle_one(rt)) break; }
    if (main_state == 0) { tr("stuck"); return 0; }
    if (main_state == RJS_ERR) { note_error(rt, "main-rejected", &main_vals[2]); return 0; }
    return 1;
}
static void run_module(RJS_Runtime *rt, const char *path) {
    RJS_Input in; RJS_Result r; RJS_Value *mod = &main_vals[0], *pr = &main_vals[1];
    if ((r = rjs_file_input_init(rt, &in, path, NULL)) == RJS_ERR) { note_pending_error(rt, "input"); tr("main-inputfail"); return; }
    r = rjs_load_module(rt, RJS_MODULE_TYPE_SCRIPT, &in, path, rjs_realm_current(rt), mod); rjs_input_deinit(rt, &in);
    if (r == RJS_ERR) { note_pending_error(rt, "main-load"); tr("main-loadfail"); return; }
    if ((r = rjs_module_load_requested(rt, mod, pr)) == RJS_ERR) { note_pending_error(rt, "main-loadreq"); return; }
    if (!wait_main(rt, pr)) return;
    if ((r = rjs_module_link(rt, mod)) == RJS_ERR) { note_pending_error(rt, "main-link"); return; }
    if ((r = rjs_module_evaluate(rt, mod, pr)) == RJS_ERR) { note_pending_error(rt, "main-eval"); return; }
    if (!wait_main(rt, pr)) return;
    tr("main-done");
}
int ratjs_main(int argc, char **argv);

static ssize_t out_write(void *c, const char *b, size_t n) { tr_bytes(c ? "!err" : "!out", b, n); return n; }
static void capture_stdio(void) {
    cookie_io_functions_t io = { NULL, out_write, NULL, NULL };
    stdout = fopencookie((void*)0, "w", io); setvbuf(stdout, NULL, _IOLBF, 4096);
    if (!cfgi("rawstderr", 0)) { stderr = fopencookie((void*)1, "w", io); setvbuf(stderr, NULL, _IOLBF, 4096); }
}
static void new_runtime(void) {
    g_rt = rjs_runtime_new();
    for (int i = 0; i < 8; i++) rjs_value_set_undefined(g_rt, &main_vals[i]);
    rjs_runtime_set_data(g_rt, exts, host_scan, host_free);
    if (cfgi("ext", 0)) rjs_realm_load_extension(g_rt, NULL);
    install_host(g_rt, rjs_realm_current(g_rt));
    run_script(g_rt, (const char*)prelude_js, prelude_js_len, "prelude");
    rt_ready = 1;
}
void run_case(int pre) {
    const char *type = cfg("type", "script"); size_t n, len; const char *src;
    leak_trace = cfgi("leaktrace", 0);
    sched_parse(&gc_sched, cfg("gc", "off")); gc_off = cfgi("gcoff", 0); gc_max = (uint64_t)cfgi("gcmax", 12000);
    sched_parse(&probe_sched, cfg("probe", "off")); sched_parse(&detach_sched, cfg("pdetach", "off"));
    sched_parse(&malloc_sched, cfg("malloc", "off")); malloc_limit = cfgi("malloclimit", -1); malloc_all = cfgi("mallocall", 0); malloc_min = cfgi("mallocmin", 0);
    sched_parse(&load_sched, cfg("load", "off")); async_modules = cfgi("asyncmod", 0);
    rand_extreme = cfgi("rand", 0); clock_step_us = strtoll(cfg("clockstep", "1"), NULL, 10);
    { const char *c = cfg("clock", NULL); if (c) sim_clock_us = strtoll(c, NULL, 10); }
    { const char *p = cfg("order", ""); while (*p && norder < 4096) { char *e; long v = strtol(p, &e, 10); if (e == p) break; order[norder++] = v; p = *e ? e + 1 : e; } }
    simfs_setup_from_case();
    capture_stdio();
    if (!strcmp(type, "cli")) {
        char *argv[64]; int argc = 0; char *a = strdup(cfg("args", "ratjs"));
        while (a && argc < 63) argv[argc++] = strsep(&a, "\x1e");
        argv[argc] = NULL; sim_armed = cfgi("armed", 1); shm->stage = 2;
        rt_ready = 1;
        long m0 = live_malloc, f0 = live_file, d0 = live_dir, u0 = live_ucnv;
        int ec = ratjs_main(argc, argv);
        fflush(stdout); fflush(stderr); sim_armed = 0;
        if (rjs_dtoa_deinit) rjs_dtoa_deinit();
        tr("exit %d", ec); tr("leaks malloc=%ld file=%ld dir=%ld ucnv=%ld", live_malloc - m0, live_file - f0, live_dir - d0, live_ucnv - u0);
        if (cfgi("fsdump", 0)) simfs_dump();
        shm->stage = 4; return;
    }
    if (!pre) new_runtime(); else if (cfgi("ext", 0)) rjs_realm_load_extension(g_rt, NULL);
    rjs_set_module_lookup_func(g_rt, m_lookup); rjs_set_module_load_func(g_rt, m_load);
    shm->stage = 1;
    src = cfg_bytes("prologue", &n);
    if (src) run_script(g_rt, src, n, "prologue");
    sim_armed = 1; shm->stage = 2;
    RJS_Value *bal = rjs_value_stack_push(g_rt); (void)bal;
    size_t top0 = rjs_value_stack_save(g_rt);
    if (!strcmp(type, "module")) run_module(g_rt, cfg("main", "/sim/main.js"));
    else if (!strcmp(type, "file")) {
        RJS_Value *sc = rjs_value_stack_push(g_rt), *rv = rjs_value_stack_push(g_rt);
        if (rjs_script_from_file(g_rt, sc, cfg("main", "/sim/main.js"), rjs_realm_current(g_rt), RJS_FALSE) == RJS_ERR) { tr("loadfail"); note_pending_error(g_rt, "error"); }
        else if (rjs_script_evaluation(g_rt, sc, rv) == RJS_ERR) note_pending_error(g_rt, "uncaught");
        rjs_value_stack_restore(g_rt, top0);
    } else if (!cfgi("repeat", 0)) { src = cfg_bytes("src", &n); if (src) run_script(g_rt, src, n, "main"); }
    for (int k = 0, n = cfgi("repeat", 0); k < n; k++) {      /* run the same source again and again, collecting in between */
        extern long live_dtoa, live_bytes; shm->n_probe = 0;              /* the same host calls fail in every run */
        src = cfg_bytes("src", &len); run_script(g_rt, src, len, "main"); drain(g_rt); note_pending_error(g_rt, "!unhandled");
        for (int i = 0; i < nexts; i++) { free(exts[i]->name); free(exts[i]); } nexts = 0; iorder = 0;
        for (int i = 0; i < 8; i++) rjs_value_set_undefined(g_rt, &main_vals[i]);
        rjs_gc_run(g_rt); rjs_solve_jobs(g_rt); rjs_gc_run(g_rt);
        tr("!live %d malloc=%ld dtoa=%ld file=%ld dir=%ld ucnv=%ld bytes=%ld stack=%ld", k, live_malloc, live_dtoa, live_file, live_dir, live_ucnv, live_bytes, (long)rjs_value_stack_save(g_rt));
    }
    if (cfgi("drain", 1)) {
        drain(g_rt); note_pending_error(g_rt, "!unhandled");
        call_global(g_rt, "$final"); drain(g_rt);
    }
    note_pending_error(g_rt, "!unhandled");
    sim_armed = 0;
    src = cfg_bytes("epilogue", &n);
    if (src) { run_script(g_rt, src, n, "epilogue"); drain(g_rt); }
    if (rjs_value_stack_save(g_rt) != top0) tr("STACK-IMBALANCE %zu %zu", top0, rjs_value_stack_save(g_rt));
    shm->stage = 3;
    /* teardown */
    sim_armed = 0; rt_ready = 0;
    rjs_runtime_free(g_rt);
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < nexts; i++) { free(exts[i]->name); free(exts[i]); }
    free(exts);
    if (rjs_dtoa_deinit) rjs_dtoa_deinit();
    tr("leaks malloc=%ld file=%ld dir=%ld ucnv=%ld", live_malloc, live_file, live_dir, live_ucnv);
    if (leak_trace) lt_dump();
    if (cfgi("fsdump", 0)) simfs_dump();
    shm->stage = 4;
}
void sim_pre(void) { simfs_reset(); new_runtime(); }
void sim_init(void) { simfs_reset(); }
