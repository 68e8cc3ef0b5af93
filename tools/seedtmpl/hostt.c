/* Minimal host with threads: N runtimes (argv[2]), each in its own thread, run the same script with the globals sab (64 shared bytes) and id;
   log() prints, sleep(ms) sleeps, keep(sab2) / take() hand a shared buffer over between threads. */
#include <ratjs.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <unistd.h>
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER; static RJS_DataBlock *DB, *kept; static const char *script; static int bad;
static RJS_NF(h_log) { size_t top = rjs_value_stack_save(rt); RJS_Value *t = rjs_value_stack_push(rt); RJS_Result r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), t);
    const char *s = r == RJS_ERR ? NULL : rjs_string_to_enc_chars(rt, t, NULL, NULL); if (s) { pthread_mutex_lock(&M); printf("%s\n", s); fflush(stdout); pthread_mutex_unlock(&M); } rjs_value_set_undefined(rt, rv); rjs_value_stack_restore(rt, top); return r; }
static RJS_NF(h_sleep) { RJS_Number n; if (rjs_to_number(rt, rjs_argument_get(rt, args, argc, 0), &n) == RJS_ERR) return RJS_ERR; usleep(n * 1000); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_gc) { rjs_gc_run(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_keep) { RJS_DataBlock *n = rjs_data_block_ref(rjs_array_buffer_get_data_block(rt, rjs_argument_get(rt, args, argc, 0))), *o; pthread_mutex_lock(&M); o = kept; kept = n; pthread_mutex_unlock(&M); if (o) rjs_data_block_unref(o); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_take) { RJS_DataBlock *k; pthread_mutex_lock(&M); k = kept; kept = NULL; pthread_mutex_unlock(&M); rjs_value_set_undefined(rt, rv); if (!k) return RJS_OK;
    RJS_Result r = rjs_allocate_shared_array_buffer(rt, NULL, rjs_data_block_get_size(k), k, rv); rjs_data_block_unref(k); return r; }
static void set(RJS_Runtime *rt, const char *n, RJS_Value *v) { size_t top = rjs_value_stack_save(rt); RJS_Value *name = rjs_value_stack_push(rt); RJS_PropertyName pn; rjs_string_from_chars(rt, name, n, -1); rjs_property_name_init(rt, &pn, name);
    rjs_create_data_property_or_throw(rt, rjs_global_object(rjs_realm_current(rt)), &pn, v); rjs_property_name_deinit(rt, &pn); rjs_value_stack_restore(rt, top); }
static void put(RJS_Runtime *rt, const char *n, RJS_NativeFunc f) { size_t top = rjs_value_stack_save(rt); RJS_Value *name = rjs_value_stack_push(rt), *fn = rjs_value_stack_push(rt); rjs_string_from_chars(rt, name, n, -1);
    rjs_create_builtin_function(rt, NULL, f, 0, name, rjs_realm_current(rt), NULL, NULL, fn); set(rt, n, fn); rjs_value_stack_restore(rt, top); }
static void *agent(void *p) {
    RJS_Runtime *rt = rjs_runtime_new(); rjs_set_agent_can_block(rt, RJS_TRUE); size_t top = rjs_value_stack_save(rt); RJS_Value *v = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt), *rv = rjs_value_stack_push(rt);
    put(rt, "log", h_log); put(rt, "sleep", h_sleep); put(rt, "keep", h_keep); put(rt, "take", h_take); put(rt, "gc", h_gc); rjs_value_set_number(rt, v, (long)p); set(rt, "id", v);
    rjs_allocate_shared_array_buffer(rt, NULL, 64, DB, v); set(rt, "sab", v);
    if (rjs_script_from_file(rt, sc, script, NULL, RJS_FALSE) == RJS_ERR || rjs_script_evaluation(rt, sc, rv) == RJS_ERR) { bad = 1; printf("error in agent %ld\n", (long)p); }
    else rjs_solve_jobs(rt);
    rjs_value_stack_restore(rt, top); rjs_runtime_free(rt); return NULL;
}
int main(int argc, char **argv) {
    pthread_t t[16]; int n = argc > 2 ? atoi(argv[2]) : 2; script = argv[1]; DB = rjs_data_block_new(64, RJS_DATA_BLOCK_FL_SHARED);
    for (long i = 0; i < n; i++) pthread_create(&t[i], NULL, agent, (void *)i);
    for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
    if (kept) rjs_data_block_unref(kept); rjs_data_block_unref(DB); return bad ? 3 : 0;
}
