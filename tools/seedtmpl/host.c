/* Minimal host: runs a script with log(), gc(), solve() and detach(), drives the jobs, tears the runtime down. */
#include <ratjs.h>
#include <stdio.h>
#include <string.h>
static const char *chars(RJS_Runtime *rt, RJS_Value *v, RJS_Value *t) { return rjs_to_string(rt, v, t) == RJS_ERR ? NULL : rjs_string_to_enc_chars(rt, t, NULL, NULL); }
static RJS_NF(h_log) { size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt); const char *s = chars(rt, rjs_argument_get(rt, args, argc, 0), t); if (s) printf("%s\n", s); rjs_value_set_undefined(rt, rv); rjs_value_stack_restore(rt, top); return s ? RJS_OK : RJS_ERR; }
static RJS_NF(h_gc) { rjs_gc_run(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_solve) { rjs_solve_jobs(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_detach) { RJS_Result r = rjs_detach_array_buffer(rt, rjs_argument_get(rt, args, argc, 0)); rjs_value_set_undefined(rt, rv); return r; }
static void put(RJS_Runtime *rt, const char *n, RJS_NativeFunc f) {
    size_t top = rjs_value_stack_save(rt); RJS_Value *name = rjs_value_stack_push(rt), *fn = rjs_value_stack_push(rt); RJS_PropertyName pn; RJS_Realm *realm = rjs_realm_current(rt);
    rjs_string_from_chars(rt, name, n, -1); rjs_create_builtin_function(rt, NULL, f, 0, name, realm, NULL, NULL, fn);
    rjs_property_name_init(rt, &pn, name); rjs_create_data_property_or_throw(rt, rjs_global_object(realm), &pn, fn); rjs_property_name_deinit(rt, &pn); rjs_value_stack_restore(rt, top);
}
int main(int argc, char **argv) {
    RJS_Runtime *rt = rjs_runtime_new(); int rc = 0; setvbuf(stdout, NULL, _IOLBF, 0);
    put(rt, "log", h_log); put(rt, "gc", h_gc); put(rt, "solve", h_solve); put(rt, "detach", h_detach);
    size_t top = rjs_value_stack_save(rt); RJS_Value *sc = rjs_value_stack_push(rt), *rv = rjs_value_stack_push(rt);
    if (rjs_script_from_file(rt, sc, argv[1], NULL, RJS_FALSE) == RJS_ERR || rjs_script_evaluation(rt, sc, rv) == RJS_ERR) { RJS_Value *e = rjs_value_stack_push(rt), *t = rjs_value_stack_push(rt); rjs_catch(rt, e); const char *s = chars(rt, e, t); printf("uncaught %s\n", s ? s : "?"); rc = 3; }
    else for (int i = 0; i < (argc > 2 ? 0 : 1); i++) rjs_solve_jobs(rt);
    rjs_value_stack_restore(rt, top); rjs_runtime_free(rt); return rc;
}
