From 9fc25284d6351a939792465df4de5b3902b0cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 01/85] fix: keep weak map values alive while the map and the
 key are alive

A value only reachable through a WeakMap was freed by the collector while its
key was still alive; reading the entry then touched freed memory.
---
 src/lib/include/rjs_weak_ref.h    | 10 +++++++
 src/lib/rjs_gc.c                  |  4 +++
 src/lib/rjs_weak_map_object_inc.c |  3 ++
 src/lib/rjs_weak_ref_opt.c        | 47 +++++++++++++++++++++++++++++++
 4 files changed, 64 insertions(+)

diff --git a/src/lib/include/rjs_weak_ref.h b/src/lib/include/rjs_weak_ref.h
index 1e55019..d0336e4 100644
--- a/src/lib/include/rjs_weak_ref.h
+++ b/src/lib/include/rjs_weak_ref.h
@@ -40,9 +40,19 @@ struct RJS_WeakRef_s {
     RJS_List     ln;   /**< List node data.*/
     RJS_Value    base; /**< The base value.*/
     RJS_Value    ref;  /**< The referenced value.*/
+    RJS_Value   *value; /**< The value kept alive while both the base and the referenced things are alive, or NULL.*/
     RJS_WeakRefOnFinalFunc on_final; /**< On final function.*/
 };
 
+/**
+ * Scan the values kept alive by the weak references whose base and referenced things are marked.
+ * \param rt The current runtime.
+ * \retval RJS_TRUE Some things are newly marked.
+ * \retval RJS_FALSE No more things are marked.
+ */
+RJS_INTERNAL RJS_Bool
+rjs_gc_scan_weak_refs (RJS_Runtime *rt);
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_gc.c b/src/lib/rjs_gc.c
index bf61cb4..2465a1d 100644
--- a/src/lib/rjs_gc.c
+++ b/src/lib/rjs_gc.c
@@ -177,6 +177,10 @@ gc_run (RJS_Runtime *rt)
     gc_scan_things(rt);
 
 #if ENABLE_WEAK_REF
+    /*Scan the values kept alive by the weak references.*/
+    while (rjs_gc_scan_weak_refs(rt))
+        gc_scan_things(rt);
+
     /*Solve the weak references.*/
     rjs_solve_weak_refs(rt);
 #endif /*ENABLE_WEAK_REF*/
diff --git a/src/lib/rjs_weak_map_object_inc.c b/src/lib/rjs_weak_map_object_inc.c
index 41021b2..047aafe 100644
--- a/src/lib/rjs_weak_map_object_inc.c
+++ b/src/lib/rjs_weak_map_object_inc.c
@@ -185,6 +185,9 @@ static RJS_NF(WeakMap_prototype_set)
 
     wme->weak_ref = rjs_weak_ref_add(rt, thiz, k, weak_map_on_final);
 
+    /*The value is alive while both the map and the key are alive.*/
+    wme->weak_ref->value = &wme->me.value;
+
     rjs_value_copy(rt, rv, thiz);
     r = RJS_OK;
 end:
diff --git a/src/lib/rjs_weak_ref_opt.c b/src/lib/rjs_weak_ref_opt.c
index 5437b46..9371c59 100644
--- a/src/lib/rjs_weak_ref_opt.c
+++ b/src/lib/rjs_weak_ref_opt.c
@@ -46,6 +46,7 @@ rjs_weak_ref_add (RJS_Runtime *rt, RJS_Value *base, RJS_Value *ref,
     rjs_value_copy(rt, &wr->base, base);
     rjs_value_copy(rt, &wr->ref, ref);
 
+    wr->value    = NULL;
     wr->on_final = on_final;
 
     rjs_list_append(&rt->weak_ref_list, &wr->ln);
@@ -66,6 +67,52 @@ rjs_weak_ref_free (RJS_Runtime *rt, RJS_WeakRef *wr)
     RJS_DEL(rt, wr);
 }
 
+/**
+ * Scan the values kept alive by the weak references whose base and referenced things are marked.
+ * \param rt The current runtime.
+ * \retval RJS_TRUE Some things are newly marked.
+ * \retval RJS_FALSE No more things are marked.
+ */
+RJS_Bool
+rjs_gc_scan_weak_refs (RJS_Runtime *rt)
+{
+    RJS_WeakRef *r;
+    RJS_Bool     scanned = RJS_FALSE;
+
+    rjs_list_foreach_c(&rt->weak_ref_list, r, RJS_WeakRef, ln) {
+        RJS_GcThing *base_gt, *ref_gt, *value_gt;
+
+        if (!r->value)
+            continue;
+
+        switch (rjs_value_get_tag(r->value)) {
+        case RJS_VALUE_TAG_STRING:
+        case RJS_VALUE_TAG_SYMBOL:
+#if ENABLE_BIG_INT
+        case RJS_VALUE_TAG_BIG_INT:
+#endif /*ENABLE_BIG_INT*/
+        case RJS_VALUE_TAG_OBJECT:
+        case RJS_VALUE_TAG_GC_THING:
+            break;
+        default:
+            continue;
+        }
+
+        base_gt  = rjs_value_get_gc_thing(rt, &r->base);
+        ref_gt   = rjs_value_get_gc_thing(rt, &r->ref);
+        value_gt = rjs_value_get_gc_thing(rt, r->value);
+
+        if ((base_gt->next_flags & RJS_GC_THING_FL_MARKED)
+                && (ref_gt->next_flags & RJS_GC_THING_FL_MARKED)
+                && !(value_gt->next_flags & RJS_GC_THING_FL_MARKED)) {
+            rjs_gc_scan_value(rt, r->value);
+            scanned = RJS_TRUE;
+        }
+    }
+
+    return scanned;
+}
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
-- 
2.43.0


From 6637e64e0d8022e00eddc34504c3148f0dae52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 02/85] fix: release the properties of weak reference and data
 view objects

Their free functions dropped the object without releasing its property table,
so properties added to a WeakRef or a DataView leaked.
---
 src/lib/rjs_data_view_object_inc.c | 2 ++
 src/lib/rjs_weak_ref_object_inc.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/rjs_data_view_object_inc.c b/src/lib/rjs_data_view_object_inc.c
index 88d3c2a..d17d0e6 100644
--- a/src/lib/rjs_data_view_object_inc.c
+++ b/src/lib/rjs_data_view_object_inc.c
@@ -49,6 +49,8 @@ data_view_op_gc_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_DataView *dv = ptr;
 
+    rjs_object_deinit(rt, &dv->objcet);
+
     RJS_DEL(rt, dv);
 }
 
diff --git a/src/lib/rjs_weak_ref_object_inc.c b/src/lib/rjs_weak_ref_object_inc.c
index 7aba0e6..1695a1f 100644
--- a/src/lib/rjs_weak_ref_object_inc.c
+++ b/src/lib/rjs_weak_ref_object_inc.c
@@ -47,6 +47,8 @@ weak_ref_op_gc_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_WeakRefObject *wro = ptr;
 
+    rjs_object_deinit(rt, &wro->object);
+
     RJS_DEL(rt, wro);
 }
 
-- 
2.43.0


From 51d9e6ccf0efdad109076629b25cceb28a3600ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 03/85] fix: do not run a job again when jobs are solved inside
 the job

The running job stayed at the head of the queue, so solveJobs() called from a
job ran the same job again and again.
---
 src/lib/include/rjs_job.h |  1 +
 src/lib/rjs_job.c         | 30 +++++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/lib/include/rjs_job.h b/src/lib/include/rjs_job.h
index 0bdb83c..2831351 100644
--- a/src/lib/include/rjs_job.h
+++ b/src/lib/include/rjs_job.h
@@ -43,6 +43,7 @@ typedef struct {
     RJS_JobFunc     func;  /**< Callback function.*/
     RJS_ScanFunc    scan;  /**< Data scan function.*/
     RJS_FreeFunc    free;  /**< Data free function.*/
+    RJS_Bool        running; /**< The job's function is running.*/
 } RJS_Job;
 
 /**
diff --git a/src/lib/rjs_job.c b/src/lib/rjs_job.c
index a23bf94..0ff7ab0 100644
--- a/src/lib/rjs_job.c
+++ b/src/lib/rjs_job.c
@@ -61,6 +61,7 @@ rjs_job_enqueue (RJS_Runtime *rt, RJS_JobFunc func, RJS_Realm *realm,
     job->scan  = scan;
     job->free  = free;
     job->data  = data;
+    job->running = RJS_FALSE;
 
     rjs_list_append(&rt->job_list, &job->ln);
 
@@ -74,20 +75,31 @@ rjs_job_enqueue (RJS_Runtime *rt, RJS_JobFunc func, RJS_Realm *realm,
 void
 rjs_solve_jobs (RJS_Runtime *rt)
 {
-    RJS_Job   *j, *nj;
+    RJS_Job   *j, *next;
     RJS_Realm *old_realm = rt->rb.bot_realm;
 
-    while (!rjs_list_is_empty(&rt->job_list)) {
-        rjs_list_foreach_safe_c(&rt->job_list, j, nj, RJS_Job, ln) {
+    while (1) {
+        /*This function may be invoked by a job, skip the running jobs.*/
+        next = NULL;
 
-            rt->rb.bot_realm = j->realm;
-            
-            j->func(rt, j->data);
+        rjs_list_foreach_c(&rt->job_list, j, RJS_Job, ln) {
+            if (!j->running) {
+                next = j;
+                break;
+            }
+        }
 
-            rjs_list_remove(&j->ln);
+        if (!next)
+            break;
 
-            job_free(rt, j);
-        }
+        rt->rb.bot_realm = next->realm;
+
+        next->running = RJS_TRUE;
+        next->func(rt, next->data);
+
+        rjs_list_remove(&next->ln);
+
+        job_free(rt, next);
     }
 
     rt->rb.bot_realm = old_realm;
-- 
2.43.0


From 8c0ad9843858a292d6d8af727e36d10e229c4844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 04/85] fix: keep every finalization registration that shares
 an unregister token

Registering a second target with a token replaced the first registration, whose
callback then never ran; unregister() must remove all of them.
---
 src/lib/include/rjs_finalization_registry.h |  2 -
 src/lib/rjs_finalization_registry_opt.c     | 65 +++++----------------
 2 files changed, 15 insertions(+), 52 deletions(-)

diff --git a/src/lib/include/rjs_finalization_registry.h b/src/lib/include/rjs_finalization_registry.h
index 6ce30c0..5919d43 100644
--- a/src/lib/include/rjs_finalization_registry.h
+++ b/src/lib/include/rjs_finalization_registry.h
@@ -38,13 +38,11 @@ extern "C" {
 /**Finalization registry.*/
 typedef struct {
     RJS_Object  object;  /**< The base object data.*/
-    RJS_Hash    cb_hash; /**< The callback hash table.*/
     RJS_Value   func;    /**< The callback function.*/
 } RJS_FinalizationRegistry;
 
 /**Finalization callback.*/
 typedef struct {
-    RJS_HashEntry he;       /**< Hash table entry.*/
     RJS_List      ln;       /**< List node data.*/
     RJS_Value     registry; /**< The registry.*/
     RJS_Value     target;   /**< The target value.*/
diff --git a/src/lib/rjs_finalization_registry_opt.c b/src/lib/rjs_finalization_registry_opt.c
index 3dffa7b..98314e0 100644
--- a/src/lib/rjs_finalization_registry_opt.c
+++ b/src/lib/rjs_finalization_registry_opt.c
@@ -131,16 +131,6 @@ rjs_solve_finalization_registry (RJS_Runtime *rt)
             rjs_job_enqueue(rt, finalization_func, realm, finalization_scan, finalization_free, f);
 
             /*Remove the finalization entry.*/
-            if (!rjs_value_is_undefined(rt, &fcb->token)) {
-                RJS_HashEntry *he, **phe;
-                RJS_Result     r;
-
-                r = rjs_hash_lookup(&fr->cb_hash, &fcb->token, &he, &phe, &rjs_hash_value_ops, rt);
-                if (r) {
-                    rjs_hash_remove(&fr->cb_hash, phe, rt);
-                }
-            }
-
             rjs_list_remove(&fcb->ln);
 
             RJS_DEL(rt, fcb);
@@ -167,8 +157,6 @@ finalization_registry_op_gc_free (RJS_Runtime *rt, void *ptr)
 
     rjs_object_deinit(rt, &fr->object);
 
-    rjs_hash_deinit(&fr->cb_hash, &rjs_hash_value_ops, rt);
-
     RJS_DEL(rt, fr);
 }
 
@@ -207,12 +195,10 @@ rjs_finalization_registry_new (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *
     RJS_NEW(rt, fr);
 
     rjs_value_copy(rt, &fr->func, func);
-    rjs_hash_init(&fr->cb_hash);
 
     r = rjs_ordinary_init_from_constructor(rt, &fr->object, nt,
             RJS_O_FinalizationRegistry_prototype, &finalization_registry_ops, registry);
     if (r == RJS_ERR) {
-        rjs_hash_deinit(&fr->cb_hash, &rjs_hash_value_ops, rt);
         RJS_DEL(rt, fr);
         return r;
     }
@@ -234,9 +220,7 @@ RJS_Result
 rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *target,
         RJS_Value *held, RJS_Value *token)
 {
-    RJS_FinalizationRegistry *fr;
-    RJS_HashEntry            *he, **phe = NULL;
-    RJS_FinalizationCallback *fcb = NULL;
+    RJS_FinalizationCallback *fcb;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -252,27 +236,9 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
             return rjs_throw_type_error(rt, _("unregister token cannot be held weakly"));
     }
 
-    fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
-
-    if (!rjs_value_is_undefined(rt, token)) {
-        RJS_Result r;
-
-        r = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
-
-        if (r)
-            fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
-    }
-
-    if (!fcb) {
-        RJS_NEW(rt, fcb);
-
-        rjs_value_copy(rt, &fcb->token, token);
+    RJS_NEW(rt, fcb);
 
-        rjs_list_append(&rt->final_cb_list, &fcb->ln);
-
-        if (!rjs_value_is_undefined(rt, token))
-            rjs_hash_insert(&fr->cb_hash, &fcb->token, &fcb->he, phe, &rjs_hash_value_ops, rt);
-    }
+    rjs_list_append(&rt->final_cb_list, &fcb->ln);
 
     rjs_value_copy(rt, &fcb->registry, registry);
     rjs_value_copy(rt, &fcb->target, target);
@@ -293,10 +259,8 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
 RJS_Result
 rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *token)
 {
-    RJS_FinalizationRegistry *fr;
-    RJS_FinalizationCallback *fcb;
-    RJS_Result                r;
-    RJS_HashEntry            *he, **phe;
+    RJS_FinalizationCallback *fcb, *nfcb;
+    RJS_Bool                  removed = RJS_FALSE;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -304,16 +268,17 @@ rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *to
     if (!rjs_can_be_held_weakly(rt, token))
         return rjs_throw_type_error(rt, _("the unregister token cannot be held weakly"));
 
-    fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
-    r  = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
-    if (!r)
-        return RJS_FALSE;
+    /*Remove all the callbacks registered with the token.*/
+    rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
+        if (rjs_same_value(rt, &fcb->registry, registry)
+                && rjs_same_value(rt, &fcb->token, token)) {
+            rjs_list_remove(&fcb->ln);
 
-    fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
+            RJS_DEL(rt, fcb);
 
-    rjs_hash_remove(&fr->cb_hash, phe, rt);
-    rjs_list_remove(&fcb->ln);
+            removed = RJS_TRUE;
+        }
+    }
 
-    RJS_DEL(rt, fcb);
-    return RJS_TRUE;
+    return removed;
 }
-- 
2.43.0


From 0887b65acc9194d4e1d40f74b7bf9d3b0688da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 05/85] fix: hold the unregister token of a finalization
 registration weakly

A token that references the target kept the target alive for ever, so its
finalization callback could never run.
---
 src/lib/rjs_finalization_registry_opt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_finalization_registry_opt.c b/src/lib/rjs_finalization_registry_opt.c
index 98314e0..2bba761 100644
--- a/src/lib/rjs_finalization_registry_opt.c
+++ b/src/lib/rjs_finalization_registry_opt.c
@@ -61,9 +61,6 @@ rjs_gc_scan_finalization_registry (RJS_Runtime *rt)
     rjs_list_foreach_c(&rt->final_cb_list, fcb, RJS_FinalizationCallback, ln) {
         rjs_gc_scan_value(rt, &fcb->registry);
         rjs_gc_scan_value(rt, &fcb->held);
-
-        if (!rjs_same_value(rt, &fcb->target, &fcb->token))
-            rjs_gc_scan_value(rt, &fcb->token);
     }
 }
 
@@ -134,6 +131,12 @@ rjs_solve_finalization_registry (RJS_Runtime *rt)
             rjs_list_remove(&fcb->ln);
 
             RJS_DEL(rt, fcb);
+        } else if (!rjs_value_is_undefined(rt, &fcb->token)) {
+            /*The unregister token is held weakly.*/
+            gt = rjs_value_get_gc_thing(rt, &fcb->token);
+
+            if (!(gt->next_flags & RJS_GC_THING_FL_MARKED))
+                rjs_value_set_undefined(rt, &fcb->token);
         }
     }
 }
-- 
2.43.0


From c4a637f378d87db92845002c580fec10d77f3a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 06/85] fix: keep the target of a weak reference alive until
 the current job ends

deref() could return the target and then undefined inside one job when a
collection ran in between.
---
 src/lib/include/rjs_runtime.h     |  1 +
 src/lib/include/rjs_weak_ref.h    | 24 +++++++++++++++
 src/lib/rjs_context.c             |  6 ++++
 src/lib/rjs_gc.c                  |  5 ++++
 src/lib/rjs_weak_ref_object_inc.c |  6 ++++
 src/lib/rjs_weak_ref_opt.c        | 50 +++++++++++++++++++++++++++++++
 6 files changed, 92 insertions(+)

diff --git a/src/lib/include/rjs_runtime.h b/src/lib/include/rjs_runtime.h
index 2bbae00..d891ee2 100644
--- a/src/lib/include/rjs_runtime.h
+++ b/src/lib/include/rjs_runtime.h
@@ -78,6 +78,7 @@ struct RJS_Runtime_s {
 #endif /*ENABLE_MODULE*/
 #if ENABLE_WEAK_REF
     RJS_List         weak_ref_list;        /**< Weak references' list.*/
+    RJS_List         kept_weak_ref_list;   /**< Weak references kept until the current job ends.*/
 #endif /*ENABLE_WEAK_REF*/
 #if ENABLE_FINALIZATION_REGISTRY
     RJS_List         final_cb_list;        /**< Finalization callback list.*/
diff --git a/src/lib/include/rjs_weak_ref.h b/src/lib/include/rjs_weak_ref.h
index d0336e4..7586375 100644
--- a/src/lib/include/rjs_weak_ref.h
+++ b/src/lib/include/rjs_weak_ref.h
@@ -38,6 +38,8 @@ extern "C" {
 /**Weak reference.*/
 struct RJS_WeakRef_s {
     RJS_List     ln;   /**< List node data.*/
+    RJS_List     kept_ln; /**< Kept references' list node data.*/
+    RJS_Bool     kept; /**< The referenced thing is kept alive until the current job ends.*/
     RJS_Value    base; /**< The base value.*/
     RJS_Value    ref;  /**< The referenced value.*/
     RJS_Value   *value; /**< The value kept alive while both the base and the referenced things are alive, or NULL.*/
@@ -53,6 +55,28 @@ struct RJS_WeakRef_s {
 RJS_INTERNAL RJS_Bool
 rjs_gc_scan_weak_refs (RJS_Runtime *rt);
 
+/**
+ * Keep the referenced thing alive until the current job ends.
+ * \param rt The current runtime.
+ * \param wr The weak reference.
+ */
+RJS_INTERNAL void
+rjs_weak_ref_keep (RJS_Runtime *rt, RJS_WeakRef *wr);
+
+/**
+ * Clear the kept weak references when the current job ends.
+ * \param rt The current runtime.
+ */
+RJS_INTERNAL void
+rjs_clear_kept_weak_refs (RJS_Runtime *rt);
+
+/**
+ * Scan the things kept alive until the current job ends.
+ * \param rt The current runtime.
+ */
+RJS_INTERNAL void
+rjs_gc_scan_kept_weak_refs (RJS_Runtime *rt);
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_context.c b/src/lib/rjs_context.c
index bdbd133..8de740a 100644
--- a/src/lib/rjs_context.c
+++ b/src/lib/rjs_context.c
@@ -464,6 +464,12 @@ rjs_context_pop (RJS_Runtime *rt)
 
     rt->rb.ctxt_stack = ctxt->bot;
 
+#if ENABLE_WEAK_REF
+    /*The job ends.*/
+    if (!rt->rb.ctxt_stack)
+        rjs_clear_kept_weak_refs(rt);
+#endif /*ENABLE_WEAK_REF*/
+
 #if ENABLE_GENERATOR || ENABLE_ASYNC
     if (
 #if ENABLE_GENERATOR
diff --git a/src/lib/rjs_gc.c b/src/lib/rjs_gc.c
index 2465a1d..4e1524d 100644
--- a/src/lib/rjs_gc.c
+++ b/src/lib/rjs_gc.c
@@ -78,6 +78,11 @@ gc_scan_root (RJS_Runtime *rt)
     /*State the native stack.*/
     rjs_gc_scan_native_stack(rt, &rt->native_stack);
 
+#if ENABLE_WEAK_REF
+    /*Things kept until the current job ends.*/
+    rjs_gc_scan_kept_weak_refs(rt);
+#endif /*ENABLE_WEAK_REF*/
+
     /*Job queue.*/
     rjs_gc_scan_job(rt);
 
diff --git a/src/lib/rjs_weak_ref_object_inc.c b/src/lib/rjs_weak_ref_object_inc.c
index 1695a1f..9aa7c2d 100644
--- a/src/lib/rjs_weak_ref_object_inc.c
+++ b/src/lib/rjs_weak_ref_object_inc.c
@@ -99,6 +99,8 @@ static RJS_NF(WeakRef_constructor)
     }
 
     wro->weak_ref = rjs_weak_ref_add(rt, rv, target, weak_ref_on_final);
+
+    rjs_weak_ref_keep(rt, wro->weak_ref);
     return RJS_OK;
 }
 
@@ -134,6 +136,10 @@ static RJS_NF(WeakRef_prototype_deref)
 
     wro = (RJS_WeakRefObject*)rjs_value_get_object(rt, thiz);
 
+    /*The target must be alive until the current job ends.*/
+    if (wro->weak_ref)
+        rjs_weak_ref_keep(rt, wro->weak_ref);
+
     rjs_value_copy(rt, rv, &wro->target);
 
     r = RJS_OK;
diff --git a/src/lib/rjs_weak_ref_opt.c b/src/lib/rjs_weak_ref_opt.c
index 9371c59..88793d6 100644
--- a/src/lib/rjs_weak_ref_opt.c
+++ b/src/lib/rjs_weak_ref_opt.c
@@ -47,6 +47,7 @@ rjs_weak_ref_add (RJS_Runtime *rt, RJS_Value *base, RJS_Value *ref,
     rjs_value_copy(rt, &wr->ref, ref);
 
     wr->value    = NULL;
+    wr->kept     = RJS_FALSE;
     wr->on_final = on_final;
 
     rjs_list_append(&rt->weak_ref_list, &wr->ln);
@@ -64,9 +65,57 @@ rjs_weak_ref_free (RJS_Runtime *rt, RJS_WeakRef *wr)
 {
     rjs_list_remove(&wr->ln);
 
+    if (wr->kept)
+        rjs_list_remove(&wr->kept_ln);
+
     RJS_DEL(rt, wr);
 }
 
+/**
+ * Keep the referenced thing alive until the current job ends.
+ * \param rt The current runtime.
+ * \param wr The weak reference.
+ */
+void
+rjs_weak_ref_keep (RJS_Runtime *rt, RJS_WeakRef *wr)
+{
+    if (!wr->kept) {
+        wr->kept = RJS_TRUE;
+        rjs_list_append(&rt->kept_weak_ref_list, &wr->kept_ln);
+    }
+}
+
+/**
+ * Clear the kept weak references when the current job ends.
+ * \param rt The current runtime.
+ */
+void
+rjs_clear_kept_weak_refs (RJS_Runtime *rt)
+{
+    RJS_WeakRef *r;
+
+    rjs_list_foreach_c(&rt->kept_weak_ref_list, r, RJS_WeakRef, kept_ln) {
+        r->kept = RJS_FALSE;
+    }
+
+    rjs_list_init(&rt->kept_weak_ref_list);
+}
+
+/**
+ * Scan the things kept alive until the current job ends.
+ * \param rt The current runtime.
+ */
+void
+rjs_gc_scan_kept_weak_refs (RJS_Runtime *rt)
+{
+    RJS_WeakRef *r;
+
+    rjs_list_foreach_c(&rt->kept_weak_ref_list, r, RJS_WeakRef, kept_ln) {
+        rjs_gc_scan_value(rt, &r->base);
+        rjs_gc_scan_value(rt, &r->ref);
+    }
+}
+
 /**
  * Scan the values kept alive by the weak references whose base and referenced things are marked.
  * \param rt The current runtime.
@@ -150,6 +199,7 @@ void
 rjs_runtime_weak_ref_init (RJS_Runtime *rt)
 {
     rjs_list_init(&rt->weak_ref_list);
+    rjs_list_init(&rt->kept_weak_ref_list);
 }
 
 /**
-- 
2.43.0


From fda08469b283e7b90c1457f8e9c1e3cee193a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 07/85] fix: keep the completion of a block while its finally
 block or iterator close runs

A break or continue out of a finally block did not discard a pending
return, a pending error was lost or reported instead of a newer one when
the finally block or the iterator's return method ran other code, and
the return value or the error of an async function was lost when the
async iterator's close had to be awaited.
---
 src/lib/rjs_bc_call.c  | 44 ++++++++++++++++++++++--------------------
 src/lib/rjs_iterator.c | 23 +++++++++++++---------
 2 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 03974fe..2e65872 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -48,12 +48,19 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
 
     ASYNC_OP_DEBUG();
 
+    /*The error thrown in the loop body is prior to the closing's result.*/
+    if (ac->i0 == RJS_ERR)
+        return rjs_throw(rt, &ac->v0);
+
     if ((r = rjs_await_async_iterator_close(rt, type, iv, rv)) == RJS_ERR)
         return r;
 
     r = ac->i0;
-    if (r == RJS_ERR)
-        rjs_throw(rt, &ac->v0);
+    if (r == RJS_RETURN) {
+        RJS_ScriptContext *sc = (RJS_ScriptContext*)ac;
+
+        rjs_value_copy(rt, rv, &sc->retv);
+    }
 
     return r;
 }
@@ -1099,15 +1106,7 @@ end:
             sc->ip = s->s.s_try.finally_ip;\
             goto restart;\
         case RJS_TRY_STATE_FINALLY:\
-            switch (s->s.s_try.next_op) {\
-            case RJS_TRY_NEXT_OP_NORMAL:\
-            case RJS_TRY_NEXT_OP_THROW:\
-                break;\
-            case RJS_TRY_NEXT_OP_RETURN:\
-                rjs_state_pop(rt);\
-                r = RJS_RETURN;\
-                goto ret;\
-            }\
+            /*Break or continue from the finally block.*/\
             break;\
         case RJS_TRY_STATE_END:\
             switch (s->s.s_try.next_op) {\
@@ -1125,6 +1124,7 @@ end:
                 r = RJS_ERR;\
                 goto error;\
             case RJS_TRY_NEXT_OP_RETURN:\
+                rjs_value_copy(rt, &sc->retv, s->s.s_try.error);\
                 rjs_state_pop(rt);\
                 r = RJS_RETURN;\
                 goto ret;\
@@ -1162,8 +1162,7 @@ end:
     assert(s->type == RJS_STATE_TRY);\
     s->s.s_try.state   = RJS_TRY_STATE_CATCH;\
     s->s.s_try.next_op = RJS_TRY_NEXT_OP_NORMAL;\
-    if (!rjs_catch(rt, dest))\
-        rjs_value_set_undefined(rt, dest);
+    rjs_value_copy(rt, dest, s->s.s_try.error);
 
 #define bc_finally()\
     RJS_State *s = rjs_state_top(rt);\
@@ -1319,7 +1318,7 @@ restart:
         }
     }
 
-    rjs_value_set_undefined(rt, rv);
+    rjs_value_set_undefined(rt, &sc->retv);
 
     r = RJS_OK;
 ret:
@@ -1337,14 +1336,17 @@ error:
 
             switch (s->s.s_try.state) {
             case RJS_TRY_STATE_TRY:
-                if (r == RJS_ERR)
-                    rjs_value_copy(rt, s->s.s_try.error, &rt->error);
-                sc->ip = (r == RJS_ERR) ? s->s.s_try.catch_ip : s->s.s_try.finally_ip;
-                goto restart;
             case RJS_TRY_STATE_CATCH:
+                /*Store the completion value, the catch or finally block may overwrite it.*/
                 if (r == RJS_ERR)
-                    rjs_value_copy(rt, s->s.s_try.error, &rt->error);
-                sc->ip = s->s.s_try.finally_ip;
+                    rjs_catch(rt, s->s.s_try.error);
+                else if (r == RJS_RETURN)
+                    rjs_value_copy(rt, s->s.s_try.error, &sc->retv);
+
+                if ((s->s.s_try.state == RJS_TRY_STATE_TRY) && (r == RJS_ERR))
+                    sc->ip = s->s.s_try.catch_ip;
+                else
+                    sc->ip = s->s.s_try.finally_ip;
                 goto restart;
             case RJS_TRY_STATE_FINALLY:
                 rjs_state_pop(rt);
@@ -1353,7 +1355,7 @@ error:
                 assert(0);
             }
         } else {
-            if ((r1 = rjs_state_pop_await(rt, await_pop_async_iter_state, r, &rt->error)) == RJS_FALSE) {
+            if ((r1 = rjs_state_pop_await(rt, await_pop_async_iter_state, r, NULL)) == RJS_FALSE) {
                 r = RJS_SUSPEND;
                 goto end;
             } else if (r1 == RJS_ERR) {
diff --git a/src/lib/rjs_iterator.c b/src/lib/rjs_iterator.c
index 0d57001..32b19ce 100644
--- a/src/lib/rjs_iterator.c
+++ b/src/lib/rjs_iterator.c
@@ -272,9 +272,8 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
     RJS_Bool   is_err;
     RJS_Result r;
 
-    is_err = rt->error_flag;
-    if (is_err)
-        rjs_value_copy(rt, err, &rt->error);
+    /*Keep the pending error, the return method may overwrite it.*/
+    is_err = rjs_catch(rt, err);
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -294,8 +293,11 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
 
     r = RJS_OK;
 end:
-    if (is_err)
+    /*The pending error is prior to the error thrown by the return method.*/
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
@@ -310,6 +312,7 @@ end:
  * \param op The await operation function.
  * \param ip The integer parameter of the function.
  * \param vp The value parameter of the function.
+ * If there is a pending error, the error is used as the value parameter.
  * \retval RJS_OK On success.
  * \retval RJS_ERR On error.
  * \retval RJS_SUSPEND Async wait a promise.
@@ -324,9 +327,8 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
     RJS_Bool    is_err;
     RJS_Result  r;
 
-    is_err = rt->error_flag;
-    if (is_err)
-        rjs_value_copy(rt, err, &rt->error);
+    /*Keep the pending error, the return method may overwrite it.*/
+    is_err = rjs_catch(rt, err);
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -340,10 +342,13 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
         goto end;
 
     if (op)
-        r = rjs_await(rt, res, op, ip, vp);
+        r = rjs_await(rt, res, op, ip, is_err ? err : vp);
 end:
-    if (is_err)
+    /*The pending error is prior to the error thrown by the return method.*/
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From 47bdb679443c433481b0fa07f0bdbed63c89273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 08/85] fix: answer the queued next requests of a completed
 async generator with undefined

---
 src/lib/rjs_generator_opt.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 17d9a48..56ca900 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -432,7 +432,13 @@ rjs_async_generator_drain_queue (RJS_Runtime *rt, RJS_Value *gv)
             async_generator_await_return(rt, gv);
             break;
         } else {
-            rjs_async_generator_complete_step(rt, gv, agr->type, &agr->value, RJS_TRUE, NULL);
+            RJS_Value *v = &agr->value;
+
+            /*The generator is completed, "next" returns undefined.*/
+            if (agr->type == RJS_GENERATOR_REQUEST_NEXT)
+                v = rjs_v_undefined(rt);
+
+            rjs_async_generator_complete_step(rt, gv, agr->type, v, RJS_TRUE, NULL);
         }
     }
 
-- 
2.43.0


From c7cfe48159dc3fe6bc8a91107e5f17524c07f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 09/85] fix: clear the pending error when it becomes the
 rejection of an async function

---
 src/lib/rjs_script.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_script.c b/src/lib/rjs_script.c
index 7cdb799..2d58a40 100644
--- a/src/lib/rjs_script.c
+++ b/src/lib/rjs_script.c
@@ -933,7 +933,7 @@ rjs_script_func_call (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value *v, RJ
                     req_type = RJS_GENERATOR_REQUEST_NEXT;
                 } else {
                     req_type = RJS_GENERATOR_REQUEST_THROW;
-                    rjs_value_copy(rt, rv, &rt->error);
+                    rjs_catch(rt, rv);
                 }
 
                 rjs_async_generator_complete_step(rt, &ctxt->function, req_type, rv, RJS_TRUE, NULL);
@@ -959,10 +959,14 @@ rjs_script_func_call (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value *v, RJ
             RJS_AsyncContext *ac = (RJS_AsyncContext*)ctxt;
 
             if (!rjs_value_is_undefined(rt, ac->capability.promise)) {
-                if (r == RJS_OK)
+                if (r == RJS_OK) {
                     rjs_call(rt, ac->capability.resolve, rjs_v_undefined(rt), rv, 1, NULL);
-                else
-                    rjs_call(rt, ac->capability.reject, rjs_v_undefined(rt), &rt->error, 1, NULL);
+                } else {
+                    RJS_Value *err = rjs_value_stack_push(rt);
+
+                    rjs_catch(rt, err);
+                    rjs_call(rt, ac->capability.reject, rjs_v_undefined(rt), err, 1, NULL);
+                }
             }
         }
 #endif /*ENABLE_ASYNC*/
-- 
2.43.0


From 0cb3b615217bd0b7ae3765b7af503e1ff9d74fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 10/85] fix: do not restart the function when a tail called
 function returns RJS_FALSE

Calling a generator function or resuming a generator returns
RJS_SUSPEND, which has the value of RJS_FALSE.
---
 src/lib/rjs_native_stack.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 33d250c..37b35b9 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1196,7 +1196,11 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
 #endif /*ENABLE_EVAL*/
     } else {
         r = rjs_call(rt, s->s.s_call.func, s->s.s_call.thiz, s->s.s_call.args, s->s.s_call.argc, rv);
-        
+
+        /*RJS_FALSE is only used by the tail call.*/
+        if (r != RJS_ERR)
+            r = RJS_OK;
+
         rjs_state_pop(rt);
     }
 
-- 
2.43.0


From 14ff8c4cbcbc42538d563a2bfd3a9dc7c9f4aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 11/85] fix: release a generator suspended in an array literal
 or a class definition

---
 src/lib/rjs_native_stack.c     | 4 ++++
 src/lib/rjs_private_name_opt.c | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 37b35b9..0f8e9e2 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1712,6 +1712,10 @@ rjs_native_stack_clear (RJS_Runtime *rt, RJS_NativeStack *ns)
     rt->rb.curr_native_stack = ns;
 
     rjs_vector_foreach(&ns->state, i, s) {
+        /*The array may be collected already, do not set its length.*/
+        if (s->type == RJS_STATE_ARRAY)
+            continue;
+
         /*Set the iterator done flag to avoid "close" be called*/
         if ((s->type == RJS_STATE_FOR_IN)
                 || (s->type == RJS_STATE_FOR_OF)
diff --git a/src/lib/rjs_private_name_opt.c b/src/lib/rjs_private_name_opt.c
index d83b685..7c4f2f5 100644
--- a/src/lib/rjs_private_name_opt.c
+++ b/src/lib/rjs_private_name_opt.c
@@ -184,7 +184,12 @@ rjs_private_env_push (RJS_Runtime *rt, RJS_Script *script, RJS_ScriptPrivEnv *sp
 void
 rjs_private_env_pop (RJS_Runtime *rt, RJS_PrivateEnv *env)
 {
-    RJS_ScriptContext *sc = (RJS_ScriptContext*)rjs_context_running(rt);
+    RJS_Context       *ctxt = rjs_context_running(rt);
+    RJS_ScriptContext *sc   = (RJS_ScriptContext*)ctxt;
+
+    /*The unused generator's class state may be released in any context.*/
+    if (!ctxt || (ctxt->gc_thing.ops->type == RJS_GC_THING_CONTEXT))
+        return;
 
     if (env == sc->scb.priv_env)
         sc->scb.priv_env = env->outer;
-- 
2.43.0


From e446fb14b9d8f37395987d35272bba2712ce22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 12/85] fix: do not reuse the captured environment in a tail
 call, no tail call in async functions and generators

---
 src/lib/rjs_bc_gen.c       | 7 +++++++
 src/lib/rjs_native_stack.c | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 022eb19..65d9fa3 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -4431,6 +4431,13 @@ rjs_bc_gen_func (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstFunc *func)
     bg->stack_depth    = 0;
     bg->func_ast       = func;
     bg->rv_reg         = -1;
+    bg->tco            = RJS_TRUE;
+
+#if ENABLE_GENERATOR || ENABLE_ASYNC
+    /*The call in a generator or an async function is not a tail call.*/
+    if (func->flags & (RJS_AST_FUNC_FL_GENERATOR|RJS_AST_FUNC_FL_ASYNC))
+        bg->tco = RJS_FALSE;
+#endif /*ENABLE_GENERATOR || ENABLE_ASYNC*/
 
     /*Generate the function's byte code.*/
 #if ENABLE_SCRIPT
diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 0f8e9e2..3e0ba9c 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1172,11 +1172,14 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
         sc->args = args;
         sc->argc = argc;
 
+        /*Create a new environment, the old one may be captured by closures.*/
+        rjs_function_env_new(rt, &rt->env, &ctxt->function, rjs_v_undefined(rt));
+        sc->scb.var_env = rt->env;
+
         /*Bind this argument.*/
         rt->env         = sc->scb.lex_env;
         sc->scb.lex_env = sc->scb.var_env;
 
-        rjs_function_env_clear(rt, sc->scb.var_env);
         rjs_ordinary_call_bind_this(rt, &ctxt->function, s->s.s_call.thiz);
         sc->scb.lex_env = rt->env;
 
@@ -1186,6 +1189,8 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
                 return r;
         }
 
+        sc->scb.lex_env = sc->scb.var_env;
+
         r = RJS_FALSE;
 #if ENABLE_EVAL
     } else if ((flags & RJS_CALL_FL_EVAL)
-- 
2.43.0


From d13ad7f7af7020fbcc08f10bacb3da0f86c37f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 13/85] fix: keep the compile time state depth correct after a
 tail call, no tail call in a for-of body

---
 src/lib/rjs_bc_gen.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 65d9fa3..89c6133 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -141,11 +141,13 @@ bc_cmd_add_stack_check (RJS_Runtime *rt, RJS_BcGen *bg, RJS_BcType type, int lin
             break;
         case RJS_BC_pop_state:
         case RJS_BC_call:
+        case RJS_BC_tail_call:
         case RJS_BC_super_call:
         case RJS_BC_new:
         case RJS_BC_save_lex_env:
 #if ENABLE_EVAL
         case RJS_BC_eval:
+        case RJS_BC_tail_eval:
 #endif /*ENABLE_EVAL*/
             bg->stack_depth --;
             break;
@@ -3359,7 +3361,8 @@ bc_gen_for_in_of_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstForStmt *fs)
         assert(0);
     }
 
-    if (fs->ast.type == RJS_AST_AwaitForOfStmt)
+    /*The iterator must be closed after the return value is evaluated.*/
+    if (fs->ast.type != RJS_AST_ForInStmt)
         bg->tco = RJS_FALSE;
 
     /*Run loop statement.*/
-- 
2.43.0


From e3d529e4635bc932870731e6110cb694fec3a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 14/85] fix: share the called flag of the two element functions
 of Promise.allSettled

---
 src/lib/rjs_promise_object_inc.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 5f6849a..c9db5fd 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -87,6 +87,7 @@ typedef struct {
 
 /**Promise single task data.*/
 typedef struct {
+    int             ref;    /**< Reference counter.*/
     RJS_PromiseAll *all;    /**< All reference*/
     size_t          index;  /**< The current promise index.*/
     RJS_Bool        called; /**< The function is already called.*/
@@ -155,6 +156,11 @@ promise_single_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_PromiseSingle *s = ptr;
 
+    s->ref --;
+
+    if (s->ref > 0)
+        return;
+
     if (s->all)
         promise_all_free(rt, s->all);
 
@@ -169,6 +175,7 @@ promise_single_new (RJS_Runtime *rt, RJS_PromiseAll *all, size_t index)
 
     RJS_NEW(rt, s);
 
+    s->ref    = 1;
     s->called = RJS_FALSE;
     s->index  = index;
 
@@ -224,6 +231,24 @@ promise_all_func_new (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, size_t i
     return RJS_OK;
 }
 
+/*Create a new promise all built-in function which shares the task data with another function.*/
+static RJS_Result
+promise_all_func_share (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, RJS_Value *f)
+{
+    RJS_Realm         *realm  = rjs_realm_current(rt);
+    RJS_PromiseSingle *single = rjs_native_object_get_data(rt, f);
+    RJS_Result         r;
+
+    r = rjs_create_native_function(rt, NULL, nf, 1, rjs_s_empty(rt), realm, NULL, NULL, v);
+    if (r == RJS_ERR)
+        return r;
+
+    single->ref ++;
+    rjs_native_object_set_data(rt, v, NULL, single, promise_single_scan, promise_single_free);
+
+    return RJS_OK;
+}
+
 /*Perform promise all operation.*/
 static RJS_Result
 perform_promise_all (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
@@ -473,7 +498,7 @@ perform_promise_all_settled (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *con
         if ((r = promise_all_func_new(rt, fulfill, promise_all_settled_resolve, index, all)) == RJS_ERR)
             goto end;
 
-        if ((r = promise_all_func_new(rt, reject, promise_all_settled_reject, index, all)) == RJS_ERR)
+        if ((r = promise_all_func_share(rt, reject, promise_all_settled_reject, fulfill)) == RJS_ERR)
             goto end;
 
         all->left ++;
-- 
2.43.0


From 927ece1f5eff0c12bd303db69e7478a92a651b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 15/85] fix: let a finalization be unregistered until its
 callback runs

---
 src/lib/include/rjs_finalization_registry.h |  1 +
 src/lib/rjs_finalization_registry_opt.c     | 98 ++++++++++++++-------
 2 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/src/lib/include/rjs_finalization_registry.h b/src/lib/include/rjs_finalization_registry.h
index 5919d43..cefe925 100644
--- a/src/lib/include/rjs_finalization_registry.h
+++ b/src/lib/include/rjs_finalization_registry.h
@@ -48,6 +48,7 @@ typedef struct {
     RJS_Value     target;   /**< The target value.*/
     RJS_Value     held;     /**< Held value.*/
     RJS_Value     token;    /**< Token value.*/
+    void         *job;      /**< The enqueued finalization job's data.*/
 } RJS_FinalizationCallback;
 
 /**
diff --git a/src/lib/rjs_finalization_registry_opt.c b/src/lib/rjs_finalization_registry_opt.c
index 2bba761..92be049 100644
--- a/src/lib/rjs_finalization_registry_opt.c
+++ b/src/lib/rjs_finalization_registry_opt.c
@@ -35,20 +35,6 @@ rjs_runtime_finalization_registry_init (RJS_Runtime *rt)
     rjs_list_init(&rt->final_cb_list);
 }
 
-/**
- * Release tje finalization registry data in the rt.
- * \param rt The current runtime.
- */
-void
-rjs_runtime_finalization_registry_deinint (RJS_Runtime *rt)
-{
-    RJS_FinalizationCallback *fcb, *nfcb;
-
-    rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
-        RJS_DEL(rt, fcb);
-    }
-}
-
 /**
  * Scan the referenced things in the finalization registry data.
  * \param rt The current runtime.
@@ -66,16 +52,38 @@ rjs_gc_scan_finalization_registry (RJS_Runtime *rt)
 
 /**Finalization.*/
 typedef struct {
-    RJS_Value func; /**< The function.*/
-    RJS_Value held; /**< The held parameter.*/
+    RJS_FinalizationCallback *fcb;  /**< The callback record, NULL if it is unregistered.*/
+    RJS_Value                 func; /**< The function.*/
+    RJS_Value                 held; /**< The held parameter.*/
 } RJS_Finalization;
 
+/*Remove and free the callback record.*/
+static void
+finalization_callback_free (RJS_Runtime *rt, RJS_FinalizationCallback *fcb)
+{
+    if (fcb->job) {
+        RJS_Finalization *f = fcb->job;
+
+        f->fcb = NULL;
+    }
+
+    rjs_list_remove(&fcb->ln);
+
+    RJS_DEL(rt, fcb);
+}
+
 /**Finalization job function.*/
 static void
 finalization_func (RJS_Runtime *rt, void *data)
 {
     RJS_Finalization *f = data;
 
+    /*The callback is unregistered after the job was enqueued.*/
+    if (!f->fcb)
+        return;
+
+    finalization_callback_free(rt, f->fcb);
+
     rjs_call(rt, &f->func, rjs_v_undefined(rt), &f->held, 1, NULL);
 }
 
@@ -95,9 +103,26 @@ finalization_free (RJS_Runtime *rt, void *data)
 {
     RJS_Finalization *f = data;
 
+    if (f->fcb)
+        f->fcb->job = NULL;
+
     RJS_DEL(rt, f);
 }
 
+/**
+ * Release tje finalization registry data in the rt.
+ * \param rt The current runtime.
+ */
+void
+rjs_runtime_finalization_registry_deinint (RJS_Runtime *rt)
+{
+    RJS_FinalizationCallback *fcb, *nfcb;
+
+    rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
+        finalization_callback_free(rt, fcb);
+    }
+}
+
 /**
  * Solve the callback functions in the finalization registry.
  * \param rt The current runtime.
@@ -110,28 +135,33 @@ rjs_solve_finalization_registry (RJS_Runtime *rt)
     rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
         RJS_GcThing *gt;
 
-        gt = rjs_value_get_gc_thing(rt, &fcb->target);
+        if (!fcb->job) {
+            gt = rjs_value_get_gc_thing(rt, &fcb->target);
+
+            if (!(gt->next_flags & RJS_GC_THING_FL_MARKED)) {
+                RJS_FinalizationRegistry *fr;
+                RJS_Finalization         *f;
+                RJS_Realm                *realm = rjs_realm_current(rt);
 
-        if (!(gt->next_flags & RJS_GC_THING_FL_MARKED)) {
-            RJS_FinalizationRegistry *fr;
-            RJS_Finalization         *f;
-            RJS_Realm                *realm = rjs_realm_current(rt);
+                /*Enqueue the finalization function. The record is kept until
+                  the job is running, so it still can be unregistered.*/
+                fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, &fcb->registry);
 
-            /*Enqueue the finalization function.*/
-            fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, &fcb->registry);
+                RJS_NEW(rt, f);
 
-            RJS_NEW(rt, f);
+                f->fcb = fcb;
 
-            rjs_value_copy(rt, &f->func, &fr->func);
-            rjs_value_copy(rt, &f->held, &fcb->held);
+                rjs_value_copy(rt, &f->func, &fr->func);
+                rjs_value_copy(rt, &f->held, &fcb->held);
 
-            rjs_job_enqueue(rt, finalization_func, realm, finalization_scan, finalization_free, f);
+                rjs_job_enqueue(rt, finalization_func, realm, finalization_scan, finalization_free, f);
 
-            /*Remove the finalization entry.*/
-            rjs_list_remove(&fcb->ln);
+                rjs_value_set_undefined(rt, &fcb->target);
+                fcb->job = f;
+            }
+        }
 
-            RJS_DEL(rt, fcb);
-        } else if (!rjs_value_is_undefined(rt, &fcb->token)) {
+        if (!rjs_value_is_undefined(rt, &fcb->token)) {
             /*The unregister token is held weakly.*/
             gt = rjs_value_get_gc_thing(rt, &fcb->token);
 
@@ -248,6 +278,8 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
     rjs_value_copy(rt, &fcb->held, held);
     rjs_value_copy(rt, &fcb->token, token);
 
+    fcb->job = NULL;
+
     return RJS_OK;
 }
 
@@ -275,9 +307,7 @@ rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *to
     rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
         if (rjs_same_value(rt, &fcb->registry, registry)
                 && rjs_same_value(rt, &fcb->token, token)) {
-            rjs_list_remove(&fcb->ln);
-
-            RJS_DEL(rt, fcb);
+            finalization_callback_free(rt, fcb);
 
             removed = RJS_TRUE;
         }
-- 
2.43.0


From f8a8a2a6388146223c6048c9f28198b3fb25d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 16/85] fix: use the property reference table of an arrow
 function for its parameters

---
 gen/bc/bc.c          |  2 +-
 src/lib/rjs_bc_gen.c | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/gen/bc/bc.c b/gen/bc/bc.c
index 85b7634..406c886 100644
--- a/gen/bc/bc.c
+++ b/gen/bc/bc.c
@@ -201,7 +201,7 @@ bc_store (const char *cmd, const char *type, const char *name)
         printf("        if ((r = bc_index_store(rt, bg, bc, id, \"%s\")) == RJS_ERR) return r;\n",
                 type);
     } else if (!strcmp(type, "prop")) {
-        printf("        id = rjs_code_gen_prop_ref_idx(rt, cmd->%s.%s);\n",
+        printf("        id = bc_prop_ref_idx(rt, bg, cmd->%s.%s);\n",
                 cmd, name);
         printf("        if ((r = bc_index_store(rt, bg, bc, id, \"%s\")) == RJS_ERR) return r;\n",
                 type);
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 89c6133..eb97239 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -4262,6 +4262,24 @@ bc_index_store (RJS_Runtime *rt, RJS_BcGen *bg, uint8_t *bc, int id, const char
     return 2;
 }
 
+/*Get the index of the property reference.*/
+static int
+bc_prop_ref_idx (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstPropRef *pr)
+{
+    /*The parameters of an arrow function are parsed as an expression of the outer
+      function, but they use the property reference table of the arrow function.*/
+    if (pr && (pr->func != bg->func_ast)) {
+        size_t     top = rjs_value_stack_save(rt);
+        RJS_Value *tmp = rjs_value_stack_push(rt);
+
+        pr = rjs_code_gen_prop_ref(rt, tmp, &pr->ast.location, bg->func_ast, &pr->prop->value);
+
+        rjs_value_stack_restore(rt, top);
+    }
+
+    return rjs_code_gen_prop_ref_idx(rt, pr);
+}
+
 #include <rjs_bc_inc.c>
 
 /*Allocate function.*/
-- 
2.43.0


From 724b67e2a423c4fa8249e5d9e99db4d956244111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 17/85] fix: load a module graph completely, and reject it,
 whatever order the host answers in

A module loaded later than its importer never reached the list of loaded
modules, two imports of one loading module loaded it twice or moved it
between their lists, and a failed module was marked unlinked; linking then
failed an assertion.
---
 src/lib/rjs_module_opt.c | 165 ++++++++++++++++++++++-----------------
 1 file changed, 92 insertions(+), 73 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index 76598c0..c6973b9 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -432,7 +432,8 @@ typedef struct {
     int       ref;      /**< Reference counter.*/
     int       wait_cnt; /**< Waiting module's counter.*/
     RJS_Hash  mod_hash; /**< Module hash table.*/
-    RJS_List  mod_list; /**< The module list.*/
+    RJS_Bool  failed;   /**< Some modules cannot be loaded.*/
+    RJS_Bool  end;      /**< The result is already reported.*/
     RJS_PromiseCapability pc; /**< Promise capability.*/
     RJS_Value promise;  /**< The proimise.*/
     RJS_Value resolve;  /**< The resolve function.*/
@@ -479,62 +480,25 @@ module_load_req_data_free (RJS_Runtime *rt, void *ptr)
 static RJS_Result
 module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
 {
-    if (mlrd->wait_cnt == 0) {
-        RJS_Bool failed = RJS_FALSE;
+    if ((mlrd->wait_cnt == 0) && !mlrd->end) {
+        mlrd->end = RJS_TRUE;
 
-        while (!rjs_list_is_empty(&mlrd->mod_list)) {
-            RJS_Module *m, *nm;
-            RJS_Bool action = RJS_FALSE;
-
-            rjs_list_foreach_safe_c(&mlrd->mod_list, m, nm, RJS_Module, ln) {
-                RJS_Bool mod_failed  = RJS_FALSE;
-                RJS_Bool mod_not_end = RJS_FALSE;
-                size_t   i;
-
-                for (i = 0; i < m->module_request_num; i ++) {
-                    RJS_ModuleRequest *mr = &m->module_requests[i];
-
-                    if (rjs_value_is_undefined(rt, &mr->module)) {
-                        mod_failed = RJS_TRUE;
-                    } else {
-                        RJS_Module *rm = rjs_value_get_gc_thing(rt, &mr->module);
-
-                        if (rm->status == RJS_MODULE_STATUS_LOADING_FAILED)
-                            mod_failed = RJS_TRUE;
-                        else if (rm->status == RJS_MODULE_STATUS_LOADING_REQUESTED)
-                            mod_not_end = RJS_TRUE;
-                    }
-
-                    if (mod_failed)
-                        break;
-                }
-
-                if (mod_failed) {
-                    m->status = RJS_MODULE_STATUS_LOADING_FAILED;
-                    failed = RJS_TRUE;
-                    mod_not_end = RJS_FALSE;
-                }
+        if (mlrd->failed) {
+            rjs_call(rt, mlrd->pc.reject, rjs_v_undefined(rt), &mlrd->error, 1, NULL);
+        } else {
+            RJS_HashEntry *e;
+            size_t         i;
 
-                if (!mod_not_end) {
-                    m->status = RJS_MODULE_STATUS_UNLINKED;
-                    rjs_value_set_undefined(rt, m->top_level_capability.promise);
-                    rjs_list_remove(&m->ln);
-                    action = RJS_TRUE;
-                }
-            }
+            /*All the modules in the graph are loaded.*/
+            rjs_hash_foreach(&mlrd->mod_hash, i, e) {
+                RJS_Module *m = e->key;
 
-            if (!action) {
-                rjs_list_foreach_safe_c(&mlrd->mod_list, m, nm, RJS_Module, ln) {
+                if (m->status == RJS_MODULE_STATUS_LOADING_REQUESTED) {
                     m->status = RJS_MODULE_STATUS_UNLINKED;
                     rjs_value_set_undefined(rt, m->top_level_capability.promise);
-                    rjs_list_remove(&m->ln);
                 }
             }
-        }
 
-        if (failed) {
-            rjs_call(rt, mlrd->pc.reject, rjs_v_undefined(rt), &mlrd->error, 1, NULL);
-        } else {
             rjs_call(rt, mlrd->pc.resolve, rjs_v_undefined(rt), NULL, 0, NULL);
         }
     }
@@ -546,6 +510,16 @@ module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
 static RJS_Result
 module_load_req_data_add (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_Value *modv);
 
+/*Some modules cannot be loaded.*/
+static void
+module_load_req_failed (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_Value *err)
+{
+    if (!mlrd->failed) {
+        mlrd->failed = RJS_TRUE;
+        rjs_value_copy(rt, &mlrd->error, err);
+    }
+}
+
 /*Load all the requested moudles.*/
 static RJS_Result
 module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_Value *modv)
@@ -553,6 +527,7 @@ module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS
     RJS_Module *mod    = rjs_value_get_gc_thing(rt, modv);
     size_t      top    = rjs_value_stack_save(rt);
     RJS_Value  *p      = rjs_value_stack_push(rt);
+    RJS_Value  *err    = rjs_value_stack_push(rt);
     RJS_Script *script = &mod->script;
     size_t      i;
     RJS_Result  r;
@@ -563,13 +538,15 @@ module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS
 
         if (rjs_value_is_undefined(rt, &mr->module)) {
             if ((r = lookup_module(rt, modv, name, p, &mr->module, RJS_FALSE)) == RJS_ERR) {
-                rjs_catch(rt, &mlrd->error);
+                rjs_catch(rt, err);
+                module_load_req_failed(rt, mlrd, err);
                 goto end;
             }
         }
 
         if ((r = module_load_req_data_add(rt, mlrd, &mr->module)) == RJS_ERR) {
-            rjs_catch(rt, &mlrd->error);
+            rjs_catch(rt, err);
+            module_load_req_failed(rt, mlrd, err);
             goto end;
         }
     }
@@ -578,19 +555,35 @@ end:
     return RJS_OK;
 }
 
+/*Load the modules requested by a loaded module.*/
+static void
+module_load_req_loaded (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_Value *modv)
+{
+    RJS_Module *mod = rjs_value_get_gc_thing(rt, modv);
+
+    switch (mod->status) {
+    case RJS_MODULE_STATUS_LOADED:
+        mod->status = RJS_MODULE_STATUS_LOADING_REQUESTED;
+    case RJS_MODULE_STATUS_LOADING_REQUESTED:
+        module_load_req_modules(rt, mlrd, modv);
+        break;
+    case RJS_MODULE_STATUS_LOADING_FAILED:
+        module_load_req_failed(rt, mlrd, &mod->eval_error);
+        break;
+    default:
+        break;
+    }
+}
+
 /*Load module ok.*/
 static RJS_NF(module_load_ok)
 {
     RJS_ModuleLoadRequestedData *mlrd = rjs_native_object_get_data(rt, f);
     RJS_Value                   *modv = rjs_argument_get(rt, args, argc, 0);
-    RJS_Module                  *mod  = rjs_value_get_gc_thing(rt, modv);
 
     mlrd->wait_cnt --;
 
-    if (mod->status == RJS_MODULE_STATUS_LOADED) {
-        mod->status = RJS_MODULE_STATUS_LOADING_REQUESTED;
-        module_load_req_modules(rt, mlrd, modv);
-    }
+    module_load_req_loaded(rt, mlrd, modv);
 
     return module_load_req_result(rt, mlrd);
 }
@@ -602,7 +595,7 @@ static RJS_NF(module_load_error)
     RJS_Value                   *err  = rjs_argument_get(rt, args, argc, 0);
 
     mlrd->wait_cnt --;
-    rjs_value_copy(rt, &mlrd->error, err);
+    module_load_req_failed(rt, mlrd, err);
 
     return module_load_req_result(rt, mlrd);
 }
@@ -638,16 +631,8 @@ module_load_req_data_add (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJ
         rjs_promise_then(rt, mod->top_level_capability.promise, fulfill, reject, rv);
         mlrd->wait_cnt ++;
         break;
-    case RJS_MODULE_STATUS_LOADED:
-        mod->status = RJS_MODULE_STATUS_LOADING_REQUESTED;
-    case RJS_MODULE_STATUS_LOADING_REQUESTED:
-        module_load_req_modules(rt, mlrd, modv);
-        rjs_list_append(&mlrd->mod_list, &mod->ln);
-        break;
-    case RJS_MODULE_STATUS_LOADING_FAILED:
-        rjs_value_copy(rt, &mlrd->error, &mod->eval_error);
-        break;
     default:
+        module_load_req_loaded(rt, mlrd, modv);
         break;
     }
 
@@ -659,7 +644,7 @@ end:
 
 /*Allocate a new module load requested modules data.*/
 static RJS_ModuleLoadRequestedData*
-module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapability *pc)
+module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapability *pc, RJS_Value *holder)
 {
     RJS_ModuleLoadRequestedData *mlrd;
 
@@ -667,6 +652,8 @@ module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapabilit
 
     mlrd->ref      = 1;
     mlrd->wait_cnt = 0;
+    mlrd->failed   = RJS_FALSE;
+    mlrd->end      = RJS_FALSE;
 
     rjs_value_set_undefined(rt, &mlrd->promise);
     rjs_value_set_undefined(rt, &mlrd->resolve);
@@ -676,11 +663,15 @@ module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapabilit
     rjs_value_copy(rt, &mlrd->module, modv);
 
     rjs_hash_init(&mlrd->mod_hash);
-    rjs_list_init(&mlrd->mod_list);
 
     rjs_promise_capability_init_vp(rt, &mlrd->pc, &mlrd->promise, &mlrd->resolve, &mlrd->reject);
     rjs_promise_capability_copy(rt, &mlrd->pc, pc);
 
+    /*Keep the values in the data alive.*/
+    rjs_native_func_object_new(rt, holder, rjs_realm_current(rt), NULL, NULL, module_load_ok, 0);
+    rjs_native_object_set_data(rt, holder, NULL, mlrd, module_load_req_data_scan, module_load_req_data_free);
+    mlrd->ref ++;
+
     module_load_req_data_add(rt, mlrd, modv);
 
     return mlrd;
@@ -700,8 +691,9 @@ rjs_module_load_requested (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *promise)
     RJS_Module *mod;
     RJS_Result  r;
     RJS_ModuleLoadRequestedData *mlrd = NULL;
-    size_t      top   = rjs_value_stack_save(rt);
-    RJS_Realm  *realm = rjs_realm_current(rt);
+    size_t      top    = rjs_value_stack_save(rt);
+    RJS_Value  *holder = rjs_value_stack_push(rt);
+    RJS_Realm  *realm  = rjs_realm_current(rt);
     RJS_PromiseCapability pc;
 
     rjs_promise_capability_init(rt, &pc);
@@ -710,11 +702,12 @@ rjs_module_load_requested (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *promise)
 
     mod = rjs_value_get_gc_thing(rt, modv);
 
-    assert(mod->status == RJS_MODULE_STATUS_LOADED);
+    assert((mod->status == RJS_MODULE_STATUS_LOADED)
+            || (mod->status == RJS_MODULE_STATUS_LOADING_REQUESTED));
 
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
-    mlrd = module_load_req_data_new(rt, modv, &pc);
+    mlrd = module_load_req_data_new(rt, modv, &pc, holder);
 
     r = module_load_req_result(rt, mlrd);
 
@@ -1700,6 +1693,23 @@ load_module (RJS_Runtime *rt, RJS_ModuleType type, RJS_Input *input, const char
     return r;
 }
 
+/*Check if the module is loading now.*/
+static RJS_Bool
+module_is_loading (RJS_Runtime *rt, RJS_Module *mod)
+{
+    RJS_Promise *p;
+
+    if (mod->status != RJS_MODULE_STATUS_ALLOCATED)
+        return RJS_FALSE;
+
+    if (rjs_value_is_undefined(rt, mod->top_level_capability.promise))
+        return RJS_FALSE;
+
+    p = (RJS_Promise*)rjs_value_get_object(rt, mod->top_level_capability.promise);
+
+    return p->state == RJS_PROMISE_STATE_PENDING;
+}
+
 /*Lookup the module.*/
 static RJS_Result
 lookup_module (RJS_Runtime *rt, RJS_Value *script, RJS_Value *name, RJS_Value *promise,
@@ -1764,6 +1774,14 @@ lookup_module (RJS_Runtime *rt, RJS_Value *script, RJS_Value *name, RJS_Value *p
     } else if (modp->status != RJS_MODULE_STATUS_ALLOCATED) {
         r = rjs_call(rt, pc.resolve, rjs_v_undefined(rt), mod, 1, NULL);
         goto end;
+    } else if (module_is_loading(rt, modp)) {
+        /*The module is loading, wait for the same promise.*/
+        if (promise) {
+            rjs_value_copy(rt, promise, modp->top_level_capability.promise);
+            promise = NULL;
+        }
+        r = RJS_OK;
+        goto end;
     }
 
     rjs_value_copy(rt, modp->top_level_capability.promise, pc.promise);
@@ -2215,7 +2233,8 @@ static RJS_NF(module_load_resolve)
 
     rjs_value_copy(rt, &mdd->mod, mod);
 
-    if (modp->status != RJS_MODULE_STATUS_LOADED) {
+    if ((modp->status != RJS_MODULE_STATUS_LOADED)
+            && (modp->status != RJS_MODULE_STATUS_LOADING_REQUESTED)) {
         r = module_load_requested(rt, mdd);
         goto end;
     }
-- 
2.43.0


From 95444879fc33b4995e5f24bf34237c6cfe57c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 18/85] fix: link a JSON module only once

The module was linked before its status allowed it, which failed an
assertion, and was marked loaded afterwards, so that a second linking
replaced the environment that holds its value.
---
 src/lib/rjs_module_opt.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index c6973b9..7098caf 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -1573,6 +1573,7 @@ load_json_module (RJS_Runtime *rt, RJS_Value *mod, RJS_Input *input, const char
         rjs_hash_insert(&m->export_hash, key, &ee->he, NULL, &rjs_hash_size_ops, rt);
 
         /*Create the module environment.*/
+        m->status = RJS_MODULE_STATUS_UNLINKED;
         rjs_module_link(rt, mod);
 
         /*Store JSON as *default* binding.*/
@@ -1687,7 +1688,12 @@ load_module (RJS_Runtime *rt, RJS_ModuleType type, RJS_Input *input, const char
         }
     } else {
         m = rjs_value_get_gc_thing(rt, mod);
-        m->status = RJS_MODULE_STATUS_LOADED;
+
+        /*The JSON module is linked already.*/
+        if (m->status == RJS_MODULE_STATUS_ALLOCATED)
+            m->status = RJS_MODULE_STATUS_LOADED;
+
+        rjs_value_set_undefined(rt, m->top_level_capability.promise);
     }
 
     return r;
-- 
2.43.0


From fb3e507974cb248fb22ff8359b503738176219b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 19/85] fix: evaluate a module after every module it waits for

A module that waits for two modules which became ready together was only
counted down once, and the modules above it ran before it.
---
 src/lib/rjs_module_opt.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index 7098caf..1402586 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -970,9 +970,6 @@ gather_available_ancestors (RJS_Runtime *rt, RJS_Module *mod, RJS_ModuleVector *
         if (r)
             continue;
 
-        RJS_NEW(rt, e);
-        rjs_hash_insert(hash, pmod, e, pe, &rjs_hash_size_ops, rt);
-
         assert(pmod->status == RJS_MODULE_STATUS_EVALUATING_ASYNC);
         assert(pmod->eval_result != RJS_ERR);
         assert(pmod->async_eval);
@@ -981,6 +978,9 @@ gather_available_ancestors (RJS_Runtime *rt, RJS_Module *mod, RJS_ModuleVector *
         pmod->pending_async --;
 
         if (pmod->pending_async == 0) {
+            RJS_NEW(rt, e);
+            rjs_hash_insert(hash, pmod, e, pe, &rjs_hash_size_ops, rt);
+
             rjs_vector_append(vec, pmod, rt);
 
             if (!module_has_tla(rt, pmod))
@@ -1003,10 +1003,8 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
     size_t            top   = rjs_value_stack_save(rt);
     RJS_Value        *err   = rjs_value_stack_push(rt);
     RJS_Value        *pmodv = rjs_value_stack_push(rt);
-    RJS_List          mod_list;
 
     rjs_vector_init(&mod_vec);
-    rjs_list_init(&mod_list);
 
     mod = rjs_value_get_gc_thing(rt, modv);
 
@@ -1046,17 +1044,10 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
 
                     rjs_call(rt, pmod->top_level_capability.resolve, rjs_v_undefined(rt), NULL, 0, NULL);
                 }
-
-                rjs_list_append(&mod_list, &pmod->ln);
             }
         }
     }
 
-    rjs_list_foreach_c(&mod_list, mod, RJS_Module, ln) {
-        rjs_value_set_gc_thing(rt, pmodv, mod);
-        execute_valid_modules(rt, pmodv);
-    }
-
     rjs_vector_deinit(&mod_vec, rt);
     rjs_value_stack_restore(rt, top);
 }
-- 
2.43.0


From 9f870c2b3896e44363d253d110c1584ff25e5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 20/85] fix: settle imports of a module that finished after an
 awaited dependency

The module kept its asynchronous mark after it had run, so an import of it
on its own, or a module importing it, waited for ever.
---
 src/lib/rjs_module_opt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index 1402586..db2abff 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -1037,7 +1037,8 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
                 rjs_catch(rt, err);
                 async_module_execution_rejected(rt, pmodv, err);
             } else {
-                pmod->status = RJS_MODULE_STATUS_EVALUATED;
+                pmod->async_eval = 0;
+                pmod->status     = RJS_MODULE_STATUS_EVALUATED;
 
                 if (!rjs_value_is_undefined(rt, pmod->top_level_capability.promise)) {
                     assert(same_module(rt, &pmod->cycle_root, pmodv));
-- 
2.43.0


From 1982c78233771d3f437f69e49f03e2ba1e023835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 21/85] fix: propagate an ambiguous star export through further
 star exports

---
 src/lib/rjs_module_opt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index db2abff..d6178d9 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -1943,7 +1943,8 @@ resolve_export (RJS_Runtime *rt, RJS_Value *mod, RJS_Value *name, ResolveBinding
 
         assert(!rjs_value_is_undefined(rt, &mr->module));
 
-        if ((r = resolve_export(rt, &mr->module, name, rb_set, &star_rb)) == RJS_ERR)
+        r = resolve_export(rt, &mr->module, name, rb_set, &star_rb);
+        if ((r == RJS_ERR) || (r == RJS_AMBIGUOUS))
             goto end;
 
         if (r) {
-- 
2.43.0


From 17a342655853565e213b6497fd438d6960a4cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 22/85] fix: lock the buffer in atomic read-modify-write
 operations, check it after converting the operands

---
 src/lib/rjs_atomics_object_inc.c | 330 +++++++++++++++++++++++++++++--
 1 file changed, 309 insertions(+), 21 deletions(-)

diff --git a/src/lib/rjs_atomics_object_inc.c b/src/lib/rjs_atomics_object_inc.c
index ddb895d..70ec6af 100644
--- a/src/lib/rjs_atomics_object_inc.c
+++ b/src/lib/rjs_atomics_object_inc.c
@@ -104,6 +104,35 @@ validate_atomic_access (RJS_Runtime *rt, RJS_Value *ta, RJS_Value *req_idx, size
     return RJS_OK;
 }
 
+/*Lock the buffer of the typed array and get the address of the element.
+ *The buffer may be detached when the arguments are converted.*/
+static RJS_Result
+atomic_access_begin (RJS_Runtime *rt, RJS_Value *ta, size_t off, uint8_t **pptr)
+{
+    RJS_IntIndexedObject *iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
+    RJS_ArrayBuffer      *ab;
+
+    if (rjs_is_detached_buffer(rt, &iio->buffer))
+        return rjs_throw_type_error(rt, _("the array buffer is detached"));
+
+    ab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
+
+    rjs_array_buffer_lock(rt, &iio->buffer);
+
+    *pptr = rjs_data_block_get_buffer(ab->data_block) + off;
+
+    return RJS_OK;
+}
+
+/*Unlock the buffer of the typed array.*/
+static void
+atomic_access_end (RJS_Runtime *rt, RJS_Value *ta)
+{
+    RJS_IntIndexedObject *iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
+
+    rjs_array_buffer_unlock(rt, &iio->buffer);
+}
+
 /*Atomics.add*/
 static RJS_NF(Atomics_add)
 {
@@ -116,7 +145,6 @@ static RJS_NF(Atomics_add)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -127,8 +155,6 @@ static RJS_NF(Atomics_add)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -138,10 +164,15 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_add(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -152,10 +183,15 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_add(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -166,10 +202,15 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_add(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -180,10 +221,15 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_add(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -194,10 +240,15 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_add(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -208,10 +259,15 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_add(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -226,10 +282,15 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_add(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_int64(rt, rv, i);
         break;
     }
@@ -243,10 +304,15 @@ static RJS_NF(Atomics_add)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_add(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_uint64(rt, rv, i);
         break;
     }
@@ -273,7 +339,6 @@ static RJS_NF(Atomics_and)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -284,8 +349,6 @@ static RJS_NF(Atomics_and)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -295,10 +358,15 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_and(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -309,10 +377,15 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_and(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -323,10 +396,15 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_and(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -337,10 +415,15 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_and(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -351,10 +434,15 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_and(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -365,10 +453,15 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_and(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -383,10 +476,15 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_and(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_int64(rt, rv, i);
         break;
     }
@@ -400,10 +498,15 @@ static RJS_NF(Atomics_and)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_and(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_uint64(rt, rv, i);
         break;
     }
@@ -431,7 +534,6 @@ static RJS_NF(Atomics_compareExchange)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -442,8 +544,6 @@ static RJS_NF(Atomics_compareExchange)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -455,10 +555,15 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_int8(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         atomic_compare_exchange_strong(p, (char*)&i, ri);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -471,10 +576,15 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_int16(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -487,10 +597,15 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_int32(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -503,10 +618,15 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_uint8(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -519,10 +639,15 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_uint16(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -535,10 +660,15 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_to_uint32(rt, repv, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         atomic_compare_exchange_strong(p, &i, ri);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -556,10 +686,15 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_big_int_to_int64(rt, bi, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         atomic_compare_exchange_strong(p, (long long*)&i, ri);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_int64(rt, rv, i);
         break;
     }
@@ -576,10 +711,15 @@ static RJS_NF(Atomics_compareExchange)
         if ((r = rjs_big_int_to_uint64(rt, bi, &ri)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         atomic_compare_exchange_strong(p, (unsigned long long*)&i, ri);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_uint64(rt, rv, i);
         break;
     }
@@ -606,7 +746,6 @@ static RJS_NF(Atomics_exchange)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -617,8 +756,6 @@ static RJS_NF(Atomics_exchange)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -628,10 +765,15 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_exchange(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -642,10 +784,15 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_exchange(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -656,10 +803,15 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_exchange(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -670,10 +822,15 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_exchange(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -684,10 +841,15 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_exchange(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -698,10 +860,15 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_exchange(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -716,10 +883,15 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_exchange(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_int64(rt, rv, i);
         break;
     }
@@ -733,10 +905,15 @@ static RJS_NF(Atomics_exchange)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_exchange(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_uint64(rt, rv, i);
         break;
     }
@@ -812,7 +989,6 @@ static RJS_NF(Atomics_or)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -823,8 +999,6 @@ static RJS_NF(Atomics_or)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -834,10 +1008,15 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_or(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -848,10 +1027,15 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_or(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -862,10 +1046,15 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_or(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -876,10 +1065,15 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_or(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -890,10 +1084,15 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_or(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -904,10 +1103,15 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_or(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -922,10 +1126,15 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_or(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_int64(rt, rv, i);
         break;
     }
@@ -939,10 +1148,15 @@ static RJS_NF(Atomics_or)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_or(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_uint64(rt, rv, i);
         break;
     }
@@ -1012,7 +1226,6 @@ static RJS_NF(Atomics_sub)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -1023,8 +1236,6 @@ static RJS_NF(Atomics_sub)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -1034,10 +1245,15 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_sub(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1048,10 +1264,15 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_sub(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1062,10 +1283,15 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_sub(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1076,10 +1302,15 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_sub(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1090,10 +1321,15 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_sub(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1104,10 +1340,15 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_sub(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1122,10 +1363,15 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_sub(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_int64(rt, rv, i);
         break;
     }
@@ -1139,10 +1385,15 @@ static RJS_NF(Atomics_sub)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_sub(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_uint64(rt, rv, i);
         break;
     }
@@ -1330,7 +1581,6 @@ static RJS_NF(Atomics_xor)
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
     RJS_IntIndexedObject *iio;
-    RJS_ArrayBuffer      *ab;
     uint8_t              *ptr;
     RJS_Result            r;
 
@@ -1341,8 +1591,6 @@ static RJS_NF(Atomics_xor)
         goto end;
 
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
-    ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
-    ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
 
     switch (iio->type) {
     case RJS_ARRAY_ELEMENT_INT8: {
@@ -1352,10 +1600,15 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_int8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_char*)ptr;
 
         i = atomic_fetch_xor(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1366,10 +1619,15 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_int16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_short*)ptr;
 
         i = atomic_fetch_xor(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1380,10 +1638,15 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_int32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_int*)ptr;
 
         i = atomic_fetch_xor(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1394,10 +1657,15 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_uint8(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uchar*)ptr;
 
         i = atomic_fetch_xor(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1408,10 +1676,15 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_uint16(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ushort*)ptr;
 
         i = atomic_fetch_xor(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1422,10 +1695,15 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_to_uint32(rt, value, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_uint*)ptr;
 
         i = atomic_fetch_xor(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_value_set_number(rt, rv, i);
         break;
     }
@@ -1440,10 +1718,15 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_big_int_to_int64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_llong*)ptr;
 
         i = atomic_fetch_xor(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_int64(rt, rv, i);
         break;
     }
@@ -1457,10 +1740,15 @@ static RJS_NF(Atomics_xor)
         if ((r = rjs_big_int_to_uint64(rt, bi, &i)) == RJS_ERR)
             goto end;
 
+        if ((r = atomic_access_begin(rt, ta, idx_pos, &ptr)) == RJS_ERR)
+            goto end;
+
         p = (atomic_ullong*)ptr;
 
         i = atomic_fetch_xor(p, i);
 
+        atomic_access_end(rt, ta);
+
         rjs_big_int_from_uint64(rt, rv, i);
         break;
     }
-- 
2.43.0


From 26df9b9b221cc9ea932c21009bdb11acef1f561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 23/85] fix: make Atomics.wait return only when notified or
 when the timeout has passed

---
 src/lib/include/rjs_data_block.h |  5 ++-
 src/lib/rjs_data_block_opt.c     | 67 ++++++++++++++++++++++++--------
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/lib/include/rjs_data_block.h b/src/lib/include/rjs_data_block.h
index 250d7c6..011c103 100644
--- a/src/lib/include/rjs_data_block.h
+++ b/src/lib/include/rjs_data_block.h
@@ -53,8 +53,9 @@ struct RJS_DataBlock_s {
 
 /**Waiter.*/
 struct RJS_Waiter_s {
-    RJS_List       ln;   /**< List node data.*/
-    pthread_cond_t cond; /**< Condtion variable.*/
+    RJS_List       ln;       /**< List node data.*/
+    pthread_cond_t cond;     /**< Condtion variable.*/
+    RJS_Bool       notified; /**< The waiter has been notified.*/
 };
 
 /**Waiter list.*/
diff --git a/src/lib/rjs_data_block_opt.c b/src/lib/rjs_data_block_opt.c
index ea0cee4..a94a7a6 100644
--- a/src/lib/rjs_data_block_opt.c
+++ b/src/lib/rjs_data_block_opt.c
@@ -26,6 +26,35 @@
 #include "ratjs_internal.h"
 
 #if ENABLE_ATOMICS
+
+/*The clock used to measure the timeout of the waiters.*/
+#if defined(_POSIX_CLOCK_SELECTION) && (_POSIX_CLOCK_SELECTION > 0)
+    #define WAITER_CLOCK CLOCK_MONOTONIC
+#else
+    #define WAITER_CLOCK CLOCK_REALTIME
+#endif
+
+/*The timeout value treated as infinite.*/
+#define WAIT_FOREVER_MS 1e14
+
+/*Initialize the waiter.*/
+static void
+waiter_init (RJS_Waiter *w)
+{
+#if defined(_POSIX_CLOCK_SELECTION) && (_POSIX_CLOCK_SELECTION > 0)
+    pthread_condattr_t attr;
+
+    pthread_condattr_init(&attr);
+    pthread_condattr_setclock(&attr, WAITER_CLOCK);
+    pthread_cond_init(&w->cond, &attr);
+    pthread_condattr_destroy(&attr);
+#else
+    pthread_cond_init(&w->cond, NULL);
+#endif
+
+    w->notified = RJS_FALSE;
+}
+
 /*Free the waiter.*/
 static void
 waiter_free (RJS_Waiter *w)
@@ -252,39 +281,43 @@ rjs_get_waiter_list (RJS_Runtime *rt, RJS_DataBlock *db, size_t pos)
 RJS_Result
 rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Number timeout)
 {
-    RJS_Waiter      *w;
-    struct timespec  ts;
-    RJS_Result       r;
+    RJS_Waiter *w;
+    RJS_Result  r = 0;
 
     w = malloc(sizeof(RJS_Waiter));
     assert(w);
 
-    pthread_cond_init(&w->cond, NULL);
+    waiter_init(w);
 
     rjs_list_append(&wl->waiters, &w->ln);
 
-    if (timeout == INFINITY) {
-        r = pthread_cond_wait(&w->cond, &db->lock);
+    /*The condition variable may wake up without any notification.*/
+    if (timeout >= WAIT_FOREVER_MS) {
+        while (!w->notified)
+            pthread_cond_wait(&w->cond, &db->lock);
     } else {
-        uint64_t ms = timeout;
+        struct timespec ts;
+        int64_t         sec  = timeout / 1000;
+        int64_t         nsec = ceil((timeout - sec * 1000.) * 1000000);
 
-        clock_gettime(CLOCK_REALTIME, &ts);
+        clock_gettime(WAITER_CLOCK, &ts);
 
-        ts.tv_sec  += ms / 1000;
-        ts.tv_nsec += (ms % 1000) * 1000000;
+        nsec += ts.tv_nsec;
 
-        if (ts.tv_nsec >= 1000000000) {
-            ts.tv_sec ++;
-            ts.tv_nsec -= 1000000000;
-        }
+        ts.tv_sec += sec + nsec / 1000000000;
+        ts.tv_nsec = nsec % 1000000000;
 
-        r = pthread_cond_timedwait(&w->cond, &db->lock, &ts);
+        while (!w->notified && (r != ETIMEDOUT))
+            r = pthread_cond_timedwait(&w->cond, &db->lock, &ts);
     }
 
+    /*The notification may arrive when the timeout has been reached.*/
+    r = w->notified;
+
     rjs_list_remove(&w->ln);
     waiter_free(w);
 
-    return (r == ETIMEDOUT) ? RJS_FALSE : RJS_TRUE;
+    return r;
 }
 
 /**
@@ -297,6 +330,8 @@ rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Numb
 RJS_Result
 rjs_notify_waiter (RJS_Runtime *rt, RJS_Waiter *w)
 {
+    w->notified = RJS_TRUE;
+
     pthread_cond_signal(&w->cond);
 
     return RJS_OK;
-- 
2.43.0


From 9073e65c1a2ced09f43309d58c394239b2521af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 24/85] fix: let the byte length of a detached array buffer be
 zero

---
 src/lib/rjs_array_buffer_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_array_buffer_object_inc.c b/src/lib/rjs_array_buffer_object_inc.c
index 6909880..c6854f7 100644
--- a/src/lib/rjs_array_buffer_object_inc.c
+++ b/src/lib/rjs_array_buffer_object_inc.c
@@ -243,7 +243,8 @@ static RJS_NF(ArrayBuffer_prototype_byteLength_get)
     }
 
     if (rjs_is_detached_buffer(rt, thiz)) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        rjs_value_set_number(rt, rv, 0);
+        r = RJS_OK;
         goto end;
     }
 
-- 
2.43.0


From c8405346b46969fb5f4ae215e3bcd03abf06c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 25/85] fix: list no elements among the keys of a detached
 typed array

---
 src/lib/rjs_int_indexed_object_opt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_int_indexed_object_opt.c b/src/lib/rjs_int_indexed_object_opt.c
index 5366144..7299468 100644
--- a/src/lib/rjs_int_indexed_object_opt.c
+++ b/src/lib/rjs_int_indexed_object_opt.c
@@ -298,14 +298,17 @@ int_indexed_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Valu
     size_t                top = rjs_value_stack_save(rt);
     RJS_Value            *tmp = rjs_value_stack_push(rt);
     RJS_PropertyKeyList  *pkl;
-    size_t                i, cap;
+    size_t                i, len, cap;
     RJS_Result            r;
 
-    cap = iio->array_length + iio->object.array_item_num + iio->object.prop_hash.entry_num;
+    /*A detached array has no elements.*/
+    len = rjs_is_detached_buffer(rt, &iio->buffer) ? 0 : iio->array_length;
+
+    cap = len + iio->object.array_item_num + iio->object.prop_hash.entry_num;
 
     pkl = rjs_property_key_list_new(rt, keys, cap);
 
-    for (i = 0; i < iio->array_length; i ++) {
+    for (i = 0; i < len; i ++) {
         RJS_Value *kv = pkl->keys.items + pkl->keys.item_num ++;
 
         rjs_value_set_number(rt, tmp, i);
-- 
2.43.0


From 8725cd1550408273e09a9dcb6ef633e6d225162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 26/85] fix: let TypedArray.prototype.filter throw when a kept
 value cannot be stored

---
 src/lib/rjs_typed_array_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 3f9a229..8633d45 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -649,7 +649,8 @@ static RJS_NF(TypedArray_prototype_filter)
     k = 0;
     rjs_list_foreach_c(&vl->seg_list, vls, RJS_ValueListSegment, ln) {
         for (i = 0; i < vls->num; i ++) {
-            rjs_set_index(rt, rv, k, &vls->v[i], RJS_TRUE);
+            if ((r = rjs_set_index(rt, rv, k, &vls->v[i], RJS_TRUE)) == RJS_ERR)
+                goto end;
             k ++;
         }
     }
-- 
2.43.0


From b68ff389c5fe5cf15f3597042f0fe6e1feed8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 27/85] fix: store the key -0 of maps and sets as +0

---
 src/lib/rjs_hash_object_inc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index ede08b0..5413de3 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -323,7 +323,11 @@ hash_add (RJS_Runtime *rt, RJS_Value *hashv, RJS_Value *k, size_t esize)
 
         se = rjs_alloc_assert_0(rt, esize);
 
-        rjs_value_copy(rt, &se->key, k);
+        /*The key -0 is stored as +0.*/
+        if (rjs_value_is_number(rt, k) && (rjs_value_get_number(rt, k) == 0))
+            rjs_value_set_number(rt, &se->key, 0);
+        else
+            rjs_value_copy(rt, &se->key, k);
 
         rjs_hash_insert(&ho->hash, &se->key, &se->he, phe, &rjs_hash_value_ops_0, rt);
         rjs_list_append(&ho->list, &se->ln);
-- 
2.43.0


From 13b481749585d8b394717f3deae5f3b158ee760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 28/85] fix: let JSON.stringify read each property once and
 skip those that vanished

---
 src/lib/rjs_json_opt.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 32031fa..d5cb81c 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -694,7 +694,6 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
     RJS_Value         *stepback = rjs_value_stack_push(rt);
     RJS_Value         *indent   = rjs_value_stack_push(rt);
     RJS_Value         *keys     = rjs_value_stack_push(rt);
-    RJS_Value         *kv       = rjs_value_stack_push(rt);
     RJS_Value         *str      = rjs_value_stack_push(rt);
     RJS_Bool           empty    = RJS_TRUE;
     RJS_UCharBuffer    ucb;
@@ -739,10 +738,8 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
             r = rjs_object_get_own_property(rt, value, &pn, &pd);
-            if (r == RJS_OK) {
-                if (r && !(pd.flags & RJS_PROP_FL_ENUMERABLE))
-                    rjs_value_set_undefined(rt, key);
-            }
+            if ((r == RJS_FALSE) || ((r == RJS_OK) && !(pd.flags & RJS_PROP_FL_ENUMERABLE)))
+                rjs_value_set_undefined(rt, key);
             rjs_property_name_deinit(rt, &pn);
 
             if (r == RJS_ERR)
@@ -759,23 +756,20 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
 
-            r = rjs_get(rt, value, &pn, kv);
+            r = serialize_json_property(rt, js, &pn, value, str);
             if (r == RJS_OK) {
-                r = serialize_json_property(rt, js, &pn, value, str);
-                if (r == RJS_OK) {
-                    if (rjs_value_is_string(rt, str)) {
-                        if (!empty)
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
+                if (rjs_value_is_string(rt, str)) {
+                    if (!empty)
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
 
-                        if (js->gap) {
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
-                            rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
-                        }
+                    if (js->gap) {
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
+                        rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
+                    }
 
-                        serialize_key_value(rt, js, &ucb, key, str);
+                    serialize_key_value(rt, js, &ucb, key, str);
 
-                        empty = RJS_FALSE;
-                    }
+                    empty = RJS_FALSE;
                 }
             }
 
-- 
2.43.0


From c3a39877a5d9ad5a381f9942a0bf210577f28c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 29/85] fix: let Array.prototype.toSorted define its elements
 instead of assigning them

---
 src/lib/rjs_array_object_inc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index e32663a..5e354b2 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2722,12 +2722,12 @@ static RJS_NF(Array_prototype_toSorted)
         goto end;
 
     for (k = 0; k < nitem; k ++) {
-        if ((r = rjs_set_index(rt, a, k, &vb->value[k], RJS_TRUE)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, a, k, &vb->value[k])) == RJS_ERR)
             goto end;
     }
 
     for (; k < len; k ++) {
-        if ((r = rjs_set_index(rt, a, k, rjs_v_undefined(rt), RJS_TRUE)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, a, k, rjs_v_undefined(rt))) == RJS_ERR)
             goto end;
     }
 
-- 
2.43.0


From 3ed36c89295009fd778e42742f99f700a7f5cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 30/85] fix: let Array.prototype.splice move only the elements
 behind the deleted ones

---
 src/lib/rjs_array_object_inc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index 5e354b2..db0036d 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2490,7 +2490,7 @@ static RJS_NF(Array_prototype_splice)
         goto end;
 
     if (insert_cnt < act_del_cnt) {
-        for (k = act_start; k < len; k ++) {
+        for (k = act_start; k < len - act_del_cnt; k ++) {
             rjs_value_set_number(rt, idx, k + act_del_cnt);
             rjs_to_string(rt, idx, pk);
 
@@ -2517,7 +2517,7 @@ static RJS_NF(Array_prototype_splice)
                 goto end;
         }
     } else if (insert_cnt > act_del_cnt) {
-        for (k = len - act_del_cnt; k >= act_start; k --) {
+        for (k = len - act_del_cnt; k > act_start; k --) {
             rjs_value_set_number(rt, idx, k + act_del_cnt - 1);
             rjs_to_string(rt, idx, pk);
 
-- 
2.43.0


From a29a7176b7c866079954f59d6f1f2fde093f5830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 31/85] fix: let RegExp replace collect all matches before
 calling the replacer, keep unmatched captures undefined

---
 src/lib/rjs_regexp_object_inc.c | 94 ++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 38 deletions(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 6b75315..bc3acb0 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -423,8 +423,11 @@ replace_func (RJS_Runtime *rt, RJS_Value *s, RJS_Value *fn, RJS_Value *mstr, siz
         arg = rjs_value_buffer_item(rt, args, aid);
         aid ++;
 
-        if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
+        if (rjs_value_is_undefined(rt, cap)) {
+            rjs_value_set_undefined(rt, arg);
+        } else if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR) {
             goto end;
+        }
     }
 
     arg = rjs_value_buffer_item(rt, args, aid);
@@ -469,8 +472,11 @@ static RJS_NF(RegExp_prototype_replace)
     RJS_Value *mstrv   = rjs_value_stack_push(rt);
     RJS_Value *mstr    = rjs_value_stack_push(rt);
     RJS_Value *rstr    = rjs_value_stack_push(rt);
+    RJS_Value *vlv     = rjs_value_stack_push(rt);
     size_t     len, start;
     RJS_Bool   func_rep, global, unicode = RJS_FALSE;
+    RJS_ValueList        *vl;
+    RJS_ValueListSegment *vls;
     RJS_UCharBuffer  ucb;
     const RJS_UChar *chars;
     RJS_Result r;
@@ -508,74 +514,86 @@ static RJS_NF(RegExp_prototype_replace)
             goto end;
     }
 
-    chars = rjs_string_get_uchars(rt, s);
-    start = 0;
+    /*Collect all the match results first.*/
+    vl = rjs_value_list_new(rt, vlv);
 
     while (1) {
-        RJS_Number posn;
-        size_t     pos;
-        int64_t    idx;
-
         if ((r = rjs_regexp_exec(rt, thiz, s, match)) == RJS_ERR)
             goto end;
 
         if (rjs_value_is_null(rt, match))
             break;
 
-        if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
-            goto end;
+        rjs_value_list_append(rt, vl, match);
+
+        if (!global)
+            break;
 
-        if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
+        if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
             goto end;
 
-        pos = RJS_CLAMP(posn, 0, len);
+        if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            goto end;
 
-        if (pos >= start) {
-            if (pos > start) {
-                rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
-            }
+        if (rjs_string_get_length(rt, mstr) == 0) {
+            int64_t idx;
 
-            if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
+            if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
                 goto end;
 
-            if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
                 goto end;
 
-            if (func_rep) {
-                r = replace_func(rt, s, repv, mstr, pos, match, rstr);
-            } else {
-                r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
-            }
+            idx = adv_str_index(rt, s, idx, unicode);
 
-            if (r == RJS_ERR)
+            rjs_value_set_number(rt, idxv, idx);
+
+            if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
                 goto end;
+        }
+    }
+
+    /*Replace the matched substrings.*/
+    chars = rjs_string_get_uchars(rt, s);
+    start = 0;
 
-            rjs_uchar_buffer_append_string(rt, &ucb, rstr);
+    rjs_list_foreach_c(&vl->seg_list, vls, RJS_ValueListSegment, ln) {
+        size_t i;
 
-            if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
+        for (i = 0; i < vls->num; i ++) {
+            RJS_Number posn;
+            size_t     pos;
+
+            rjs_value_copy(rt, match, &vls->v[i]);
+
+            if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
                 goto end;
 
-            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
+            if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
                 goto end;
 
-            start = idx + rjs_string_get_length(rt, mstr);
+            if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
+                goto end;
 
-            if (!global)
-                break;
+            if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
+                goto end;
 
-            if (rjs_string_get_length(rt, mstr) == 0) {
-                if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
-                    goto end;
+            pos = RJS_CLAMP(posn, 0, len);
 
-                if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
-                    goto end;
+            if (func_rep) {
+                r = replace_func(rt, s, repv, mstr, pos, match, rstr);
+            } else {
+                r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
+            }
 
-                idx = adv_str_index(rt, s, idx, unicode);
+            if (r == RJS_ERR)
+                goto end;
 
-                rjs_value_set_number(rt, idxv, idx);
+            if (pos >= start) {
+                rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
+                rjs_uchar_buffer_append_string(rt, &ucb, rstr);
 
-                if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
-                    goto end;
+                start = pos + rjs_string_get_length(rt, mstr);
             }
         }
     }
-- 
2.43.0


From 552ebd8f776f4f61b8844da3b100bc4afa41b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 32/85] fix: let an exhausted array iterator stay exhausted

---
 src/lib/rjs_array_object_inc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index db0036d..a61069d 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -3333,6 +3333,11 @@ static RJS_NF(ArrayIteratorPrototype_next)
 
     ai = (RJS_ArrayIterator*)rjs_value_get_object(rt, thiz);
 
+    if (rjs_value_is_undefined(rt, &ai->array)) {
+        r = rjs_create_iter_result_object(rt, iv, RJS_TRUE, rv);
+        goto end;
+    }
+
 #if ENABLE_INT_INDEXED_OBJECT
     if (rjs_value_get_gc_thing_type(rt, &ai->array) == RJS_GC_THING_INT_INDEXED_OBJECT) {
         RJS_IntIndexedObject *iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, &ai->array);
@@ -3352,6 +3357,7 @@ static RJS_NF(ArrayIteratorPrototype_next)
 
     if (ai->curr >= len) {
         rjs_value_set_undefined(rt, iv);
+        rjs_value_set_undefined(rt, &ai->array);
 
         done = RJS_TRUE;
     } else {
-- 
2.43.0


From fab4e058372da10c81755e348b5cbafaf9e30606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 33/85] fix: define instead of assign the elements of newly
 created arrays

---
 src/lib/rjs_extension_opt.c      |  2 +-
 src/lib/rjs_hash_object_inc.c    |  8 ++++----
 src/lib/rjs_json_opt.c           |  2 +-
 src/lib/rjs_operation.c          |  2 +-
 src/lib/rjs_promise_object_inc.c | 14 +++++++-------
 src/lib/rjs_proxy_object_opt.c   |  4 ++--
 src/lib/rjs_string_object_inc.c  |  6 +++---
 7 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 1570318..c7b9132 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -592,7 +592,7 @@ static RJS_NF(ext_modules)
 
     rjs_hash_foreach_c(&rt->mod_hash, i, mod, RJS_Module, he) {
         rjs_string_from_enc_chars(rt, name, mod->script.path, -1, NULL);
-        if ((r = rjs_set_index(rt, rv, idx, name, RJS_TRUE)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, rv, idx, name)) == RJS_ERR)
             goto end;
 
         idx ++;
diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index 5413de3..9eff922 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -535,8 +535,8 @@ static RJS_NF(hash_iter_next)
 #if ENABLE_SET
             {
                 se = RJS_CONTAINER_OF(hi->curr, RJS_SetEntry, ln);
-                rjs_set_index(rt, v, 0, &se->key, RJS_TRUE);
-                rjs_set_index(rt, v, 1, &se->key, RJS_TRUE);
+                rjs_create_data_property_or_throw_index(rt, v, 0, &se->key);
+                rjs_create_data_property_or_throw_index(rt, v, 1, &se->key);
             }
 #endif /*ENABLE_SET*/
 #if ENABLE_MAP && ENABLE_SET
@@ -545,8 +545,8 @@ static RJS_NF(hash_iter_next)
 #if ENABLE_MAP
             {
                 me = RJS_CONTAINER_OF(hi->curr, RJS_MapEntry, se.ln);
-                rjs_set_index(rt, v, 0, &me->se.key, RJS_TRUE);
-                rjs_set_index(rt, v, 1, &me->value, RJS_TRUE);
+                rjs_create_data_property_or_throw_index(rt, v, 0, &me->se.key);
+                rjs_create_data_property_or_throw_index(rt, v, 1, &me->value);
             }
 #endif /*ENABLE_MAP*/
             break;
diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index d5cb81c..671eda2 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -165,7 +165,7 @@ parse_array (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
         if ((r = parse_value(rt, jp, item)) == RJS_ERR)
             goto end;
 
-        rjs_set_index(rt, v, idx, item, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, v, idx, item);
 
         idx ++;
 
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 3988ba9..7a70d8c 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -761,7 +761,7 @@ rjs_create_array_from_list (RJS_Runtime *rt, RJS_ValueList *vl, RJS_Value *a)
 
     rjs_list_foreach_c(&vl->seg_list, vls, RJS_ValueListSegment, ln) {
         for (i = 0; i < vls->num; i ++) {
-            if ((r = rjs_set_index(rt, a, k, &vls->v[i], RJS_TRUE)) == RJS_ERR)
+            if ((r = rjs_create_data_property_or_throw_index(rt, a, k, &vls->v[i])) == RJS_ERR)
                 return r;
 
             k ++;
diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index c9db5fd..3fe1f0e 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -201,7 +201,7 @@ static RJS_NF(promise_all_resolve)
     single->called = RJS_TRUE;
     all->left --;
 
-    rjs_set_index(rt, &all->values, single->index, x, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, x);
 
     if (all->left == 0) {
         r = rjs_call(rt, all->pc.resolve, rjs_v_undefined(rt), &all->values, 1, rv);
@@ -296,7 +296,7 @@ perform_promise_all (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
             goto end;
         }
 
-        rjs_set_index(rt, values, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, values, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
@@ -389,7 +389,7 @@ static RJS_NF(promise_all_settled_resolve)
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_status(rt), rjs_s_fulfilled(rt));
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_value(rt), x);
 
-    rjs_set_index(rt, &all->values, single->index, obj, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, obj);
 
     all->left --;
 
@@ -428,7 +428,7 @@ static RJS_NF(promise_all_settled_reject)
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_status(rt), rjs_s_rejected(rt));
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_reason(rt), x);
 
-    rjs_set_index(rt, &all->values, single->index, obj, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, obj);
 
     all->left --;
     
@@ -490,7 +490,7 @@ perform_promise_all_settled (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *con
             goto end;
         }
 
-        rjs_set_index(rt, values, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, values, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
@@ -583,7 +583,7 @@ static RJS_NF(promise_any_reject)
 
     single->called = RJS_TRUE;
 
-    rjs_set_index(rt, &all->values, single->index, x, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, x);
 
     all->left --;
 
@@ -655,7 +655,7 @@ perform_promise_any (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
             goto end;
         }
 
-        rjs_set_index(rt, errors, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, errors, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index f08b8c3..68b8bb9 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -992,7 +992,7 @@ proxy_object_op_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_Value
     rjs_array_new(rt, targs, argc, NULL);
     for (i = 0; i < argc; i ++) {
         arg = rjs_value_buffer_item(rt, args, i);
-        rjs_set_index(rt, targs, i, arg, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, targs, i, arg);
     }
 
     r = rjs_call(rt, trap, handler, target, 3, rv);
@@ -1038,7 +1038,7 @@ proxy_object_op_construct (RJS_Runtime *rt, RJS_Value *o, RJS_Value *args, size_
     rjs_array_new(rt, targs, argc, NULL);
     for (i = 0; i < argc; i ++) {
         arg = rjs_value_buffer_item(rt, args, i);
-        rjs_set_index(rt, targs, i, arg, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, targs, i, arg);
     }
 
     if ((r = rjs_call(rt, trap, handler, target, 3, rv)) == RJS_ERR)
diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 1f689c1..2c326b3 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -1279,7 +1279,7 @@ static RJS_NF(String_prototype_split)
             if ((r = rjs_string_substr(rt, s, i, i + 1, sub)) == RJS_ERR)
                 goto end;
 
-            if ((r = rjs_set_index(rt, rv, i, sub, RJS_TRUE)) == RJS_ERR)
+            if ((r = rjs_create_data_property_or_throw_index(rt, rv, i, sub)) == RJS_ERR)
                 goto end;
         }
 
@@ -1302,7 +1302,7 @@ static RJS_NF(String_prototype_split)
         if ((r = rjs_string_substr(rt, s, start, idx, sub)) == RJS_ERR)
             goto end;
 
-        if ((r = rjs_set_index(rt, rv, n, sub, RJS_TRUE)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, rv, n, sub)) == RJS_ERR)
             goto end;
 
         n ++;
@@ -1319,7 +1319,7 @@ static RJS_NF(String_prototype_split)
     if ((r = rjs_string_substr(rt, s, start, len, sub)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_set_index(rt, rv, n, sub, RJS_TRUE)) == RJS_ERR)
+    if ((r = rjs_create_data_property_or_throw_index(rt, rv, n, sub)) == RJS_ERR)
         goto end;
 
     r = RJS_OK;
-- 
2.43.0


From a741bf6f729804df7ea511d1496c53d067c021f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 34/85] fix: let Array.prototype.unshift move only the existing
 elements

---
 src/lib/rjs_array_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index a61069d..03e0065 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2905,7 +2905,7 @@ static RJS_NF(Array_prototype_unshift)
             goto end;
         }
 
-        for (k = len; k >= 0; k --) {
+        for (k = len; k > 0; k --) {
             rjs_value_set_number(rt, idx, k - 1);
             rjs_to_string(rt, idx, pk);
 
-- 
2.43.0


From 6c7564bdcf50cae80fae9f46a60662a322277692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 35/85] fix: do not close an iterator that itself failed in
 collection constructors and Array.from

---
 src/lib/rjs_array_object_inc.c | 5 ++++-
 src/lib/rjs_hash_object_inc.c  | 8 ++++----
 src/lib/rjs_operation.c        | 5 ++++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index 03e0065..f39ca6d 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -135,7 +135,6 @@ static RJS_NF(Array_from)
 
         if ((r = rjs_get_iterator(rt, items, RJS_ITERATOR_SYNC, iter, &iter_rec)) == RJS_ERR)
             goto end;
-        use_iter = RJS_TRUE;
 
         k = 0;
         while (1) {
@@ -144,6 +143,8 @@ static RJS_NF(Array_from)
                 goto end;
             }
 
+            use_iter = RJS_FALSE;
+
             if ((r = rjs_iterator_step(rt, &iter_rec, next)) == RJS_ERR)
                 goto end;
 
@@ -158,6 +159,8 @@ static RJS_NF(Array_from)
             if ((r = rjs_iterator_value(rt, next, kv)) == RJS_ERR)
                 goto end;
 
+            use_iter = RJS_TRUE;
+
             if (mapping) {
                 rjs_value_set_number(rt, iv, k);
 
diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index 9eff922..9b893e7 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -200,13 +200,13 @@ set_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if ((r = rjs_call(rt, adder, rv, iv, 1, res)) == RJS_ERR)
             goto iter_end;
@@ -270,13 +270,13 @@ map_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!rjs_value_is_object(rt, iv)) {
             r = rjs_throw_type_error(rt, _("the result is not an object"));
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 7a70d8c..6b40f4a 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2231,9 +2231,10 @@ rjs_add_entries_from_iterable (RJS_Runtime *rt, RJS_Value *target, RJS_Value *it
 
     if ((r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iter)) == RJS_ERR)
         goto end;
-    need_close = RJS_TRUE;
 
     while (1) {
+        need_close = RJS_FALSE;
+
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
             goto end;
 
@@ -2243,6 +2244,8 @@ rjs_add_entries_from_iterable (RJS_Runtime *rt, RJS_Value *target, RJS_Value *it
         if ((r = rjs_iterator_value(rt, ir, item)) == RJS_ERR)
             goto end;
 
+        need_close = RJS_TRUE;
+
         if (!rjs_value_is_object(rt, item)) {
             r = rjs_throw_type_error(rt, _("\"value\" of iterator result is not an object"));
             goto end;
-- 
2.43.0


From 8dbfe7a4e100a70bb0a4f480d0927fec2de1060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 36/85] fix: keep the key being normalised reachable in the
 proxy's own keys check

---
 src/lib/rjs_proxy_object_opt.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index 68b8bb9..e7ae08a 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -831,6 +831,7 @@ proxy_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Value *key
     RJS_Value           *tkeys   = rjs_value_stack_push(rt);
     RJS_Value           *target  = rjs_value_stack_push(rt);
     RJS_Value           *handler = rjs_value_stack_push(rt);
+    RJS_Value           *kv      = rjs_value_stack_push(rt);
     RJS_PropertyKeyList *pkl, *tpkl;
     RJS_Bool             is_ext;
     RJS_Result           r;
@@ -902,8 +903,10 @@ proxy_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Value *key
     }
 
     for (i = 0; i < ncfg_keys.item_num; i ++) {
-        RJS_Value *kv = &ncfg_keys.items[i];
-        void      *k  = get_prop_key(rt, kv);
+        void *k;
+
+        rjs_value_copy(rt, kv, &ncfg_keys.items[i]);
+        k = get_prop_key(rt, kv);
 
         r = rjs_hash_lookup(&hash, k, &he, &phe, &rjs_hash_size_ops, rt);
         if (!r) {
@@ -921,8 +924,10 @@ proxy_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Value *key
     }
 
     for (i = 0; i < cfg_keys.item_num; i ++) {
-        RJS_Value *kv = &cfg_keys.items[i];
-        void      *k  = get_prop_key(rt, kv);
+        void *k;
+
+        rjs_value_copy(rt, kv, &cfg_keys.items[i]);
+        k = get_prop_key(rt, kv);
 
         r = rjs_hash_lookup(&hash, k, &he, &phe, &rjs_hash_size_ops, rt);
         if (!r) {
-- 
2.43.0


From e3e246006141fbf863af9871f41dec65ed5d85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 37/85] fix: let File.prototype.read and write honour the start
 position

---
 src/lib/rjs_extension_opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index c7b9132..760bccc 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1023,7 +1023,7 @@ static RJS_NF(File_prototype_read)
 
         buf = rjs_data_block_get_buffer(db);
 
-        rn = fread(buf, 1, cnti, file->fp);
+        rn = fread((uint8_t*)buf + posi, 1, cnti, file->fp);
 
         if ((rn == 0) && ferror(file->fp)) {
             r = rjs_throw_type_error(rt, _("fread failed: %s"), strerror(errno));
@@ -1098,7 +1098,7 @@ static RJS_NF(File_prototype_write)
 
         buf = rjs_data_block_get_buffer(db);
 
-        rn = fwrite(buf, 1, cnti, file->fp);
+        rn = fwrite((uint8_t*)buf + posi, 1, cnti, file->fp);
 
         if ((rn != cnti) && ferror(file->fp)) {
             r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
-- 
2.43.0


From da140903a4d696f30401a04e3da5d41ad5853702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 38/85] fix: store the array buffer passed to File.storeData
 and appendData

---
 src/lib/rjs_extension_opt.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 760bccc..178244b 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1662,12 +1662,6 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
         goto end;
     }
 
-    if (!(db = rjs_array_buffer_get_data_block(rt, rv))) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
-        goto end;
-    }
-
-    buf  = rjs_data_block_get_buffer(db);
     size = rjs_array_buffer_get_size(rt, abuf);
 
     if (argc > 2) {
@@ -1688,6 +1682,13 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
         cnti = size - posi;
     }
 
+    if (!(db = rjs_array_buffer_get_data_block(rt, abuf))) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
+
+    buf = rjs_data_block_get_buffer(db);
+
     if (fwrite(buf + posi, 1, cnti, fp) != cnti) {
         r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
         goto end;
-- 
2.43.0


From 6f3a621a3b3ce0cc08c73d528770006393c0151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 39/85] fix: check the file again after the arguments'
 conversion in File.prototype methods

---
 src/lib/rjs_extension_opt.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 178244b..e404c4f 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1015,6 +1015,12 @@ static RJS_NF(File_prototype_read)
         cnti = size - posi;
     }
 
+    /*The arguments' conversion may close the file.*/
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     if (cnti) {
         if (!(db = rjs_array_buffer_get_data_block(rt, abuf))) {
             r = rjs_throw_type_error(rt, _("the array buffer is detached"));
@@ -1090,6 +1096,12 @@ static RJS_NF(File_prototype_write)
         cnti = size - posi;
     }
 
+    /*The arguments' conversion may close the file.*/
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     if (cnti) {
         if (!(db = rjs_array_buffer_get_data_block(rt, abuf))) {
             r = rjs_throw_type_error(rt, _("the array buffer is detached"));
@@ -1143,6 +1155,12 @@ static RJS_NF(File_prototype_seek)
     if ((r = rjs_to_int32(rt, whence, &whencei)) == RJS_ERR)
         goto end;
 
+    /*The arguments' conversion may close the file.*/
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     if (fseek(file->fp, offseti, whencei) == -1) {
         r = rjs_throw_type_error(rt, _("fseek failed: %s"), strerror(errno));
         goto end;
@@ -1257,6 +1275,12 @@ static RJS_NF(File_prototype_putChar)
     if ((r = rjs_to_int32(rt, chr, &i)) == RJS_ERR)
         goto end;
 
+    /*The arguments' conversion may close the file.*/
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     r = fputc(i, file->fp);
     if (r == EOF) {
         r = rjs_throw_type_error(rt, _("futc failed: %s"), strerror(errno));
@@ -1303,6 +1327,12 @@ static RJS_NF(File_prototype_getString)
         ecstr = NULL;
     }
 
+    /*The arguments' conversion may close the file.*/
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     while (1) {
         c = fgetc(file->fp);
         if (c == EOF)
@@ -1361,6 +1391,12 @@ static RJS_NF(File_prototype_putString)
         ecstr = NULL;
     }
 
+    /*The arguments' conversion may close the file.*/
+    if (!file->fp) {
+        r = rjs_throw_type_error(rt, _("the file is closed"));
+        goto end;
+    }
+
     pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr);
 
     n = fwrite(pcstr, 1, pcb.item_num, file->fp);
-- 
2.43.0


From 3fab17ba118e510c8b423883c5e23ed6f16e0282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 40/85] fix: report the write errors found when a file is
 closed

---
 src/lib/rjs_extension_opt.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index e404c4f..8f180f2 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1212,8 +1212,14 @@ static RJS_NF(File_prototype_close)
     file = rjs_native_object_get_data(rt, thiz);
     if (file->fp) {
         if ((file->fp != stdin) && (file->fp != stdout) && (file->fp != stderr)) {
-            fclose(file->fp);
+            int cr = fclose(file->fp);
+
             file->fp = NULL;
+
+            if (cr == EOF) {
+                r = rjs_throw_type_error(rt, _("fclose failed: %s"), strerror(errno));
+                goto end;
+            }
         }
     }
 
@@ -1595,8 +1601,8 @@ file_save_string (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv,
     rjs_value_set_undefined(rt, rv);
     r = RJS_OK;
 end:
-    if (fp)
-        fclose(fp);
+    if (fp && (fclose(fp) == EOF) && (r == RJS_OK))
+        r = rjs_throw_type_error(rt, _("fclose failed: %s"), strerror(errno));
 
     rjs_char_buffer_deinit(rt, &ncb);
     rjs_char_buffer_deinit(rt, &ocb);
@@ -1733,8 +1739,8 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
     rjs_value_set_undefined(rt, rv);
     r = RJS_OK;
 end:
-    if (fp)
-        fclose(fp);
+    if (fp && (fclose(fp) == EOF) && (r == RJS_OK))
+        r = rjs_throw_type_error(rt, _("fclose failed: %s"), strerror(errno));
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From 77e8d2d6a34508c827b9677291ed36cb6a428a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 41/85] fix: do not take a read error for the end of the file
 in File.prototype.getChar and getString

---
 src/lib/rjs_extension_opt.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 8f180f2..29ed9ce 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1029,6 +1029,8 @@ static RJS_NF(File_prototype_read)
 
         buf = rjs_data_block_get_buffer(db);
 
+        clearerr(file->fp);
+
         rn = fread((uint8_t*)buf + posi, 1, cnti, file->fp);
 
         if ((rn == 0) && ferror(file->fp)) {
@@ -1247,8 +1249,15 @@ static RJS_NF(File_prototype_getChar)
         goto end;
     }
 
+    clearerr(file->fp);
+
     c = fgetc(file->fp);
     if (c == EOF) {
+        if (ferror(file->fp)) {
+            r = rjs_throw_type_error(rt, _("fgetc failed: %s"), strerror(errno));
+            goto end;
+        }
+
         rjs_value_set_undefined(rt, rv);
     } else {
         rjs_value_set_number(rt, rv, c);
@@ -1339,10 +1348,17 @@ static RJS_NF(File_prototype_getString)
         goto end;
     }
 
+    clearerr(file->fp);
+
     while (1) {
         c = fgetc(file->fp);
-        if (c == EOF)
+        if (c == EOF) {
+            if (ferror(file->fp)) {
+                r = rjs_throw_type_error(rt, _("fgetc failed: %s"), strerror(errno));
+                goto end;
+            }
             break;
+        }
 
         rjs_char_buffer_append_char(rt, &cb, c);
 
-- 
2.43.0


From b7dfa03a754380b8c409f7f534c16597d3a51a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 42/85] fix: accept negative offsets in File.prototype.seek

---
 src/lib/rjs_extension_opt.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 29ed9ce..3d07c33 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1135,7 +1135,7 @@ static RJS_NF(File_prototype_seek)
 {
     RJS_Value *offset = rjs_argument_get(rt, args, argc, 0);
     RJS_Value *whence = rjs_argument_get(rt, args, argc, 1);
-    int64_t    offseti;
+    RJS_Number offsetn;
     int32_t    whencei;
     RJS_File  *file;
     RJS_Result r;
@@ -1151,9 +1151,14 @@ static RJS_NF(File_prototype_seek)
         goto end;
     }
 
-    if ((r = rjs_to_index(rt, offset, &offseti)) == RJS_ERR)
+    if ((r = rjs_to_integer_or_infinity(rt, offset, &offsetn)) == RJS_ERR)
         goto end;
 
+    if (fabs(offsetn) > RJS_MAX_INT) {
+        r = rjs_throw_range_error(rt, _("the file offset is out of range"));
+        goto end;
+    }
+
     if ((r = rjs_to_int32(rt, whence, &whencei)) == RJS_ERR)
         goto end;
 
@@ -1163,7 +1168,7 @@ static RJS_NF(File_prototype_seek)
         goto end;
     }
 
-    if (fseek(file->fp, offseti, whencei) == -1) {
+    if (fseek(file->fp, offsetn, whencei) == -1) {
         r = rjs_throw_type_error(rt, _("fseek failed: %s"), strerror(errno));
         goto end;
     }
-- 
2.43.0


From adc96c110a7fe583e486e98d5069741d6ee7a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 43/85] fix: report ftell errors in File.prototype.tell

---
 src/lib/rjs_extension_opt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 3d07c33..adb246c 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1198,6 +1198,10 @@ static RJS_NF(File_prototype_tell)
     }
 
     off = ftell(file->fp);
+    if (off == -1) {
+        r = rjs_throw_type_error(rt, _("ftell failed: %s"), strerror(errno));
+        goto end;
+    }
 
     rjs_value_set_number(rt, rv, off);
     r = RJS_OK;
-- 
2.43.0


From 2961327185fb753749bd868d55b3b4597097514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 44/85] fix: do not take a readdir error for the end of the
 directory

---
 src/lib/rjs_extension_opt.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index adb246c..5c7002f 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1912,8 +1912,15 @@ static RJS_NF(Dir_prototype_read)
         goto end;
     }
 
+    errno = 0;
+
     dent = readdir(dir->dir);
     if (!dent) {
+        if (errno) {
+            r = rjs_throw_type_error(rt, _("readdir failed: %s"), strerror(errno));
+            goto end;
+        }
+
         rjs_value_set_undefined(rt, rv);
     } else {
         rjs_string_from_enc_chars(rt, rv, dent->d_name, -1, NULL);
@@ -1944,8 +1951,15 @@ static RJS_NF(Dir_prototype_next)
         done = RJS_TRUE;
         rjs_value_set_undefined(rt, v);
     } else {
+        errno = 0;
+
         dent = readdir(dir->dir);
         if (!dent) {
+            if (errno) {
+                r = rjs_throw_type_error(rt, _("readdir failed: %s"), strerror(errno));
+                goto end;
+            }
+
             rjs_value_set_undefined(rt, v);
             done = RJS_TRUE;
 
-- 
2.43.0


From f4424f0f4d918818e41c5473fd46a5acda8f7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 45/85] fix: do not leak the file or directory when its
 prototype cannot be read

---
 src/lib/rjs_extension_opt.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 5c7002f..38a2720 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -941,10 +941,14 @@ static RJS_NF(File_constructor)
     if (!realm)
         realm = rjs_realm_current(rt);
 
+    if ((r = rjs_native_object_from_constructor(rt, nt, rjs_o_File_prototype(realm), rv)) == RJS_ERR) {
+        fclose(fp);
+        goto end;
+    }
+
     RJS_NEW(rt, file);
     file->fp  = fp;
 
-    rjs_native_object_from_constructor(rt, nt, rjs_o_File_prototype(realm), rv);
     rjs_native_object_set_data(rt, rv, file_tag, file, file_op_gc_scan, file_op_gc_free);
 
     r = RJS_OK;
@@ -1874,10 +1878,14 @@ static RJS_NF(Dir_constructor)
     if (!realm)
         realm = rjs_realm_current(rt);
 
+    if ((r = rjs_native_object_from_constructor(rt, nt, rjs_o_Dir_prototype(realm), rv)) == RJS_ERR) {
+        closedir(dp);
+        goto end;
+    }
+
     RJS_NEW(rt, dir);
     dir->dir = dp;
 
-    rjs_native_object_from_constructor(rt, nt, rjs_o_Dir_prototype(realm), rv);
     rjs_native_object_set_data(rt, rv, dir_tag, dir,
             dir_op_gc_scan, dir_op_gc_free);
 
-- 
2.43.0


From 6ed2f9093eb603283412e88753d556fe4ae1fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 46/85] fix: throw an error when an encoding is not supported

---
 src/lib/rjs_extension_opt.c | 10 ++++++++--
 src/lib/rjs_string.c        | 12 +++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 38a2720..b4c4757 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1432,7 +1432,10 @@ static RJS_NF(File_prototype_putString)
         goto end;
     }
 
-    pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr);
+    if (!(pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr))) {
+        r = RJS_ERR;
+        goto end;
+    }
 
     n = fwrite(pcstr, 1, pcb.item_num, file->fp);
     if (n != pcb.item_num) {
@@ -1620,7 +1623,10 @@ file_save_string (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv,
         ecstr = NULL;
     }
 
-    ocstr = rjs_string_to_enc_chars(rt, ostr, &ocb, ecstr);
+    if (!(ocstr = rjs_string_to_enc_chars(rt, ostr, &ocb, ecstr))) {
+        r = RJS_ERR;
+        goto end;
+    }
 
     if (fwrite(ocstr, 1, ocb.item_num, fp) != ocb.item_num) {
         r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index d0e2059..1d917e8 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -184,12 +184,16 @@ rjs_string_from_enc_chars (RJS_Runtime *rt, RJS_Value *v,
 
     rjs_char_buffer_init(rt, &cb);
 
-    if ((r = rjs_conv_init(rt, &conv, enc, RJS_ENC_UCHAR)) == RJS_ERR)
+    if ((r = rjs_conv_init(rt, &conv, enc, RJS_ENC_UCHAR)) == RJS_ERR) {
+        rjs_throw_type_error(rt, _("unsupported encoding \"%s\""), enc);
         goto end;
+    }
     conv_init = RJS_TRUE;
 
-    if ((r = rjs_conv_to_buffer(rt, &conv, chars, len, &cb)) == RJS_ERR)
+    if ((r = rjs_conv_to_buffer(rt, &conv, chars, len, &cb)) == RJS_ERR) {
+        rjs_throw_type_error(rt, _("cannot decode the \"%s\" characters"), enc);
         goto end;
+    }
 
     uc_len = cb.item_num / sizeof(RJS_UChar);
 
@@ -415,8 +419,10 @@ rjs_string_to_enc_chars (RJS_Runtime *rt, RJS_Value *v,
 
     s = rjs_value_get_string(rt, v);
 
-    if ((r = rjs_conv_init(rt, &conv, RJS_ENC_UCHAR, enc)) == RJS_ERR)
+    if ((r = rjs_conv_init(rt, &conv, RJS_ENC_UCHAR, enc)) == RJS_ERR) {
+        rjs_throw_type_error(rt, _("unsupported encoding \"%s\""), enc);
         goto end;
+    }
     conv_init = RJS_TRUE;
 
     rjs_char_buffer_clear(rt, cb);
-- 
2.43.0


From 900fc2ddbbe3eb5d1c000c3eb321a8125805a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 47/85] fix: accept characters which are split between two
 pieces of the input

---
 src/lib/rjs_conv.c   | 7 ++++---
 src/lib/rjs_string.c | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_conv.c b/src/lib/rjs_conv.c
index 2a905a5..8652710 100644
--- a/src/lib/rjs_conv.c
+++ b/src/lib/rjs_conv.c
@@ -45,7 +45,7 @@ rjs_conv_to_buffer (RJS_Runtime *rt, RJS_Conv *conv, const char *in,
     RJS_Bool   overflow = RJS_FALSE;
 
     while (in_len || overflow) {
-        size_t c_old, cn;
+        size_t c_old, cn, in_old;
 
         left = cb->item_cap - cb->item_num;
         if ((left < in_len) || overflow) {
@@ -58,7 +58,8 @@ rjs_conv_to_buffer (RJS_Runtime *rt, RJS_Conv *conv, const char *in,
 
         c = cb->items + cb->item_num;
 
-        c_old = left;
+        c_old  = left;
+        in_old = in_len;
 
         r = rjs_conv_run(rt, conv, &in, &in_len, &c, &left);
 
@@ -71,7 +72,7 @@ rjs_conv_to_buffer (RJS_Runtime *rt, RJS_Conv *conv, const char *in,
         if (r == RJS_FALSE) {
             overflow = RJS_TRUE;
         } else {
-            if (cn == 0)
+            if ((cn == 0) && (in_len == in_old))
                 return RJS_ERR;
                 
             overflow = RJS_FALSE;
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 1d917e8..2e5a85b 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -368,7 +368,7 @@ rjs_string_from_file (RJS_Runtime *rt, RJS_Value *str, const char *fn, const cha
             goto end;
 
         out_left /= sizeof(RJS_UChar);
-        if (out_left == out_cap) {
+        if ((out_left == out_cap) && (in_left == left)) {
             r = RJS_ERR;
             goto end;
         }
-- 
2.43.0


From 5b259426324ec7f8c60076942c494e2856d4e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 48/85] fix: check for a detached array buffer in encodeText
 and decodeText

---
 src/lib/rjs_extension_opt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index b4c4757..26bbb91 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -477,7 +477,10 @@ static RJS_NF(ext_encodeText)
 
     len = RJS_MIN(buf_len - from, len);
 
-    db = rjs_array_buffer_get_data_block(rt, buf);
+    if (!(db = rjs_array_buffer_get_data_block(rt, buf))) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
 
     rjs_array_buffer_lock(rt, buf);
     memcpy(db->data + from, cstr, len);
@@ -558,7 +561,10 @@ static RJS_NF(ext_decodeText)
 
     len = RJS_MAX(to - from, 0);
 
-    db = rjs_array_buffer_get_data_block(rt, buf);
+    if (!(db = rjs_array_buffer_get_data_block(rt, buf))) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
 
     rjs_array_buffer_lock(rt, buf);
     r = rjs_string_from_enc_chars(rt, rv, (char*)db->data + from, len, ecstr);
-- 
2.43.0


From c724c87685d5295d6ae82c325c7ca226179e876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:14 +0000
Subject: [PATCH 49/85] fix: let new FileState() fall back to the default
 prototype

---
 src/lib/rjs_extension_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 26bbb91..c54f6ca 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -778,7 +778,7 @@ static RJS_NF(FileState_constructor)
     }
 
     if (nt) {
-        if ((r = rjs_constructor_prototype(rt, nt, cproto)) == RJS_ERR)
+        if ((r = rjs_get(rt, nt, rjs_pn_prototype(rt), cproto)) == RJS_ERR)
             goto end;
 
         if (!rjs_value_is_object(rt, cproto))
-- 
2.43.0


From 38e9f7ec65b511b160ac15cc406d7582c781dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:32 +0000
Subject: [PATCH 50/85] fix: throw an error when a source file cannot be loaded

---
 src/lib/rjs_string.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 2e5a85b..da1a0e0 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -319,15 +319,17 @@ rjs_string_from_file (RJS_Runtime *rt, RJS_Value *str, const char *fn, const cha
 
     if (!(fp = fopen(fn, "rb"))) {
         RJS_LOGE("cannot open file \"%s\"", fn);
-        r = RJS_ERR;
+        r = rjs_throw_type_error(rt, _("cannot open file \"%s\": %s"), fn, strerror(errno));
         goto end;
     }
 
     if (!enc)
         enc = RJS_ENC_UTF8;
 
-    if ((r = rjs_conv_init(rt, &conv, enc, RJS_ENC_UCHAR)) == RJS_ERR)
+    if ((r = rjs_conv_init(rt, &conv, enc, RJS_ENC_UCHAR)) == RJS_ERR) {
+        rjs_throw_type_error(rt, _("unsupported encoding \"%s\""), enc);
         goto end;
+    }
     conv_init = RJS_TRUE;
 
     while (1) {
@@ -342,7 +344,7 @@ rjs_string_from_file (RJS_Runtime *rt, RJS_Value *str, const char *fn, const cha
 
             if (ferror(fp)) {
                 RJS_LOGE("file read error");
-                r = RJS_ERR;
+                r = rjs_throw_type_error(rt, _("cannot read file \"%s\": %s"), fn, strerror(errno));
                 goto end;
             }
         }
@@ -364,12 +366,11 @@ rjs_string_from_file (RJS_Runtime *rt, RJS_Value *str, const char *fn, const cha
         out_cap   = out_left;
         out_left *= sizeof(RJS_UChar);
 
-        if ((r = rjs_conv_run(rt, &conv, &in, &in_left, &out, &out_left)) == RJS_ERR)
-            goto end;
+        r = rjs_conv_run(rt, &conv, &in, &in_left, &out, &out_left);
 
         out_left /= sizeof(RJS_UChar);
-        if ((out_left == out_cap) && (in_left == left)) {
-            r = RJS_ERR;
+        if ((r == RJS_ERR) || ((out_left == out_cap) && (in_left == left))) {
+            r = rjs_throw_type_error(rt, _("cannot decode file \"%s\""), fn);
             goto end;
         }
 
-- 
2.43.0


From 694b53273bba1f572e9e5a00efb63548c190b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:32 +0000
Subject: [PATCH 51/85] fix: let the option -l wait for the module being loaded

---
 src/exe/rjs_main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exe/rjs_main.c b/src/exe/rjs_main.c
index 7195c26..18fb3d4 100644
--- a/src/exe/rjs_main.c
+++ b/src/exe/rjs_main.c
@@ -413,6 +413,9 @@ module_load (const char *name)
     if ((r = rjs_lookup_module(rt, NULL, str, promise)) == RJS_ERR)
         goto end;
 
+    if ((r = rjs_promise_then_native(rt, promise, on_callback_ok, on_callback_error, NULL)) == RJS_ERR)
+        goto end;
+
     while (callback_result == 0)
         rjs_solve_jobs(rt);
 
-- 
2.43.0


From e4a75015ad3d20c8bd3d53db8468b0f17314f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:07 +0000
Subject: [PATCH 52/85] fix: call main() without arguments when there is none

---
 src/exe/rjs_main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exe/rjs_main.c b/src/exe/rjs_main.c
index 18fb3d4..25a6c85 100644
--- a/src/exe/rjs_main.c
+++ b/src/exe/rjs_main.c
@@ -893,7 +893,8 @@ main (int argc, char **argv)
         size_t     i, aid;
 
         js_argc = argc - optind;
-        js_args = rjs_value_stack_push_n(rt, js_argc);
+        if (js_argc)
+            js_args = rjs_value_stack_push_n(rt, js_argc);
 
         for (i = 0, aid = optind; i < js_argc; i ++, aid ++) {
             RJS_Value *arg = rjs_value_buffer_item(rt, js_args, i);
-- 
2.43.0


From 137c41ad146d1365178d28f469d4f22a7c97debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 53/85] fix: let rjs_module_load_requested accept a module
 which is loaded already

---
 src/lib/rjs_module_opt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index d6178d9..f78c408 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -702,8 +702,7 @@ rjs_module_load_requested (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *promise)
 
     mod = rjs_value_get_gc_thing(rt, modv);
 
-    assert((mod->status == RJS_MODULE_STATUS_LOADED)
-            || (mod->status == RJS_MODULE_STATUS_LOADING_REQUESTED));
+    assert(mod->status != RJS_MODULE_STATUS_ALLOCATED);
 
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
-- 
2.43.0


From 9f51962687f48d6e9a4a1bc10d2b9e1b03a99e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 54/85] fix: do not scan the object record of a global
 environment before it is created

---
 src/lib/rjs_global_env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_global_env.c b/src/lib/rjs_global_env.c
index 19053c1..0e6a3fe 100644
--- a/src/lib/rjs_global_env.c
+++ b/src/lib/rjs_global_env.c
@@ -34,7 +34,8 @@ global_env_op_gc_scan (RJS_Runtime *rt, void *ptr)
     RJS_HashEntry *he;
 
     rjs_gc_scan_value(rt, &ge->global_this);
-    rjs_gc_mark(rt, ge->object_rec);
+    if (ge->object_rec)
+        rjs_gc_mark(rt, ge->object_rec);
 
     rjs_hash_foreach(&ge->var_name_hash, i, he) {
         rjs_gc_mark(rt, he->key);
-- 
2.43.0


From 5892e9e8a8c4666681c4a8ed9611f5691227a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 55/85] fix: load a requested module again when its last
 loading failed

---
 src/lib/rjs_module_opt.c | 46 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index f78c408..752c887 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -520,6 +520,32 @@ module_load_req_failed (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_
     }
 }
 
+/*Check if the module is loading now.*/
+static RJS_Bool
+module_is_loading (RJS_Runtime *rt, RJS_Module *mod)
+{
+    RJS_Promise *p;
+
+    if (mod->status != RJS_MODULE_STATUS_ALLOCATED)
+        return RJS_FALSE;
+
+    if (rjs_value_is_undefined(rt, mod->top_level_capability.promise))
+        return RJS_FALSE;
+
+    p = (RJS_Promise*)rjs_value_get_object(rt, mod->top_level_capability.promise);
+
+    return p->state == RJS_PROMISE_STATE_PENDING;
+}
+
+/*Check if the module is not loaded and is not loading now.*/
+static RJS_Bool
+module_is_unloaded (RJS_Runtime *rt, RJS_Value *modv)
+{
+    RJS_Module *mod = rjs_value_get_gc_thing(rt, modv);
+
+    return (mod->status == RJS_MODULE_STATUS_ALLOCATED) && !module_is_loading(rt, mod);
+}
+
 /*Load all the requested moudles.*/
 static RJS_Result
 module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_Value *modv)
@@ -536,7 +562,8 @@ module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS
         RJS_ModuleRequest *mr   = &mod->module_requests[i];
         RJS_Value         *name = &script->value_table[mr->module_name_idx];
 
-        if (rjs_value_is_undefined(rt, &mr->module)) {
+        /*If the module's last loading failed, try it again.*/
+        if (rjs_value_is_undefined(rt, &mr->module) || module_is_unloaded(rt, &mr->module)) {
             if ((r = lookup_module(rt, modv, name, p, &mr->module, RJS_FALSE)) == RJS_ERR) {
                 rjs_catch(rt, err);
                 module_load_req_failed(rt, mlrd, err);
@@ -1690,23 +1717,6 @@ load_module (RJS_Runtime *rt, RJS_ModuleType type, RJS_Input *input, const char
     return r;
 }
 
-/*Check if the module is loading now.*/
-static RJS_Bool
-module_is_loading (RJS_Runtime *rt, RJS_Module *mod)
-{
-    RJS_Promise *p;
-
-    if (mod->status != RJS_MODULE_STATUS_ALLOCATED)
-        return RJS_FALSE;
-
-    if (rjs_value_is_undefined(rt, mod->top_level_capability.promise))
-        return RJS_FALSE;
-
-    p = (RJS_Promise*)rjs_value_get_object(rt, mod->top_level_capability.promise);
-
-    return p->state == RJS_PROMISE_STATE_PENDING;
-}
-
 /*Lookup the module.*/
 static RJS_Result
 lookup_module (RJS_Runtime *rt, RJS_Value *script, RJS_Value *name, RJS_Value *promise,
-- 
2.43.0


From e6ee5c9d7b166926606f476ee0928046e145514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 56/85] fix: convert the operands of a relational operator with
 the hint number

---
 src/lib/rjs_bc_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 2e65872..352c3b9 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -608,9 +608,9 @@ do_bc_compare (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     RJS_Value *n2  = rjs_value_stack_push(rt);
     RJS_Result r;
 
-    if ((r = rjs_to_primitive(rt, v1, p1, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v1, p1, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
-    if ((r = rjs_to_primitive(rt, v2, p2, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v2, p2, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
 
     if (rjs_value_is_string(rt, p1) && rjs_value_is_string(rt, p2)) {
-- 
2.43.0


From d7ea4b9faf2d55b5543067dfde2987c3fb60fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 57/85] fix: keep the minutes in
 Date.prototype.setUTCMilliseconds

---
 src/lib/rjs_date_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 7c1fc18..f09e745 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -1990,7 +1990,7 @@ static RJS_NF(Date_prototype_setUTCMilliseconds)
         return RJS_OK;
     }
 
-    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), ms_from_time(t), sec_from_time(t), milli));
+    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), min_from_time(t), sec_from_time(t), milli));
     u = time_clip(rt, u);
 
     d = (RJS_Date*)rjs_value_get_object(rt, thiz);
-- 
2.43.0


From 637fd72b79df5cf4bed6d56ff360bd127b6c02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 58/85] fix: convert source and flags to strings in
 RegExp.prototype.toString

---
 src/lib/rjs_regexp_object_inc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index bc3acb0..383cadd 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -853,6 +853,7 @@ static RJS_NF(RegExp_prototype_toString)
     size_t     top    = rjs_value_stack_save(rt);
     RJS_Value *pat    = rjs_value_stack_push(rt);
     RJS_Value *flags  = rjs_value_stack_push(rt);
+    RJS_Value *v      = rjs_value_stack_push(rt);
     RJS_UCharBuffer ucb;
     RJS_Result r;
 
@@ -861,10 +862,16 @@ static RJS_NF(RegExp_prototype_toString)
         goto end;
     }
 
-    if ((r = rjs_get(rt, thiz, rjs_pn_source(rt), pat)) == RJS_ERR)
+    if ((r = rjs_get(rt, thiz, rjs_pn_source(rt), v)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_get(rt, thiz, rjs_pn_flags(rt), flags)) == RJS_ERR)
+    if ((r = rjs_to_string(rt, v, pat)) == RJS_ERR)
+        goto end;
+
+    if ((r = rjs_get(rt, thiz, rjs_pn_flags(rt), v)) == RJS_ERR)
+        goto end;
+
+    if ((r = rjs_to_string(rt, v, flags)) == RJS_ERR)
         goto end;
 
     rjs_uchar_buffer_init(rt, &ucb);
-- 
2.43.0


From bb3a713b5ca7b2a18daac664f8ca839dcfdfc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 59/85] fix: iterate over the converted string in
 RegExp.prototype[@@matchAll]

---
 src/lib/rjs_regexp_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 383cadd..0b842e4 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -372,7 +372,7 @@ static RJS_NF(RegExp_prototype_matchAll)
     else
         unicode = RJS_FALSE;
 
-    r = regexp_str_iter_new(rt, rv, matcher, str, global, unicode);
+    r = regexp_str_iter_new(rt, rv, matcher, s, global, unicode);
 end:
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From 655ef92d7feadbc5569835354cc4f403a654149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 60/85] fix: accept a match longer than the rest of the string
 for the replacement $'

---
 src/lib/rjs_string.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index da1a0e0..8ccecc7 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -1493,8 +1493,10 @@ rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
                     c ++;
                     break;
                 case '\'':
-                    rjs_string_substr(rt, str, pos + mlen, slen, sub);
-                    rjs_uchar_buffer_append_string(rt, &ucb, sub);
+                    if (pos + mlen < slen) {
+                        rjs_string_substr(rt, str, pos + mlen, slen, sub);
+                        rjs_uchar_buffer_append_string(rt, &ucb, sub);
+                    }
                     c ++;
                     break;
                 case '<':
-- 
2.43.0


From e0563f88c1340aefbb90c36c7c848edb2b28b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 61/85] fix: read each match result once and in order in
 RegExp.prototype[@@replace]

---
 src/lib/rjs_regexp_object_inc.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 0b842e4..5eda107 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -473,6 +473,7 @@ static RJS_NF(RegExp_prototype_replace)
     RJS_Value *mstr    = rjs_value_stack_push(rt);
     RJS_Value *rstr    = rjs_value_stack_push(rt);
     RJS_Value *vlv     = rjs_value_stack_push(rt);
+    RJS_Value *caps    = rjs_value_stack_push(rt);
     size_t     len, start;
     RJS_Bool   func_rep, global, unicode = RJS_FALSE;
     RJS_ValueList        *vl;
@@ -563,9 +564,13 @@ static RJS_NF(RegExp_prototype_replace)
         for (i = 0; i < vls->num; i ++) {
             RJS_Number posn;
             size_t     pos;
+            int64_t    ncap, n;
 
             rjs_value_copy(rt, match, &vls->v[i]);
 
+            if ((r = rjs_length_of_array_like(rt, match, &ncap)) == RJS_ERR)
+                goto end;
+
             if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
                 goto end;
 
@@ -580,10 +585,33 @@ static RJS_NF(RegExp_prototype_replace)
 
             pos = RJS_CLAMP(posn, 0, len);
 
+            /*Read the result only once: its properties may be accessors.*/
+            if ((r = rjs_array_new(rt, caps, 0, NULL)) == RJS_ERR)
+                goto end;
+
+            rjs_create_data_property_or_throw_index(rt, caps, 0, mstr);
+
+            for (n = 1; n < ncap; n ++) {
+                if ((r = rjs_get_index(rt, match, n, mstrv)) == RJS_ERR)
+                    goto end;
+
+                if (!rjs_value_is_undefined(rt, mstrv)) {
+                    if ((r = rjs_to_string(rt, mstrv, mstrv)) == RJS_ERR)
+                        goto end;
+                }
+
+                rjs_create_data_property_or_throw_index(rt, caps, n, mstrv);
+            }
+
+            if ((r = rjs_get(rt, match, rjs_pn_groups(rt), mstrv)) == RJS_ERR)
+                goto end;
+
+            rjs_create_data_property_or_throw(rt, caps, rjs_pn_groups(rt), mstrv);
+
             if (func_rep) {
-                r = replace_func(rt, s, repv, mstr, pos, match, rstr);
+                r = replace_func(rt, s, repv, mstr, pos, caps, rstr);
             } else {
-                r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
+                r = rjs_get_substitution(rt, s, pos, caps, rep_str, rstr);
             }
 
             if (r == RJS_ERR)
-- 
2.43.0


From 851b928abbbcfd6d9c024752ea2038e970772ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 62/85] fix: read all the descriptors before
 Object.defineProperties defines a property, and report their errors

---
 src/lib/rjs_object_object_inc.c | 50 +++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index 123a227..dac7690 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -97,13 +97,13 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
     RJS_Value           *keys   = rjs_value_stack_push(rt);
     RJS_Value           *desco  = rjs_value_stack_push(rt);
     RJS_PropertyKeyList *pkl;
-    RJS_PropertyDesc     pd, npd;
+    RJS_PropertyDesc     pd;
+    RJS_PropertyDesc    *npds   = NULL;
     RJS_PropertyName     pn;
-    size_t               i;
+    size_t               i, num = 0;
     RJS_Result           r;
 
     rjs_property_desc_init(rt, &pd);
-    rjs_property_desc_init(rt, &npd);
 
     if ((r = rjs_to_object(rt, props, propso)) == RJS_ERR)
         goto end;
@@ -112,19 +112,27 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
         goto end;
 
     pkl = rjs_value_get_gc_thing(rt, keys);
-    for (i = 0; i < pkl->keys.item_num; i ++) {
+    num = pkl->keys.item_num;
+
+    if (num) {
+        RJS_NEW_N(rt, npds, num);
+
+        for (i = 0; i < num; i ++)
+            rjs_property_desc_init(rt, &npds[i]);
+    }
+
+    /*Get all the descriptors first.*/
+    for (i = 0; i < num; i ++) {
         RJS_Value *key = &pkl->keys.items[i];
 
+        npds[i].flags = -1;
+
         rjs_property_name_init(rt, &pn, key);
 
         r = rjs_object_get_own_property(rt, propso, &pn, &pd);
-        if ((r = RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
-            if ((r = rjs_get(rt, propso, &pn, desco)) == RJS_OK) {
-                r = rjs_to_property_descriptor(rt, desco, &npd);
-                if (r == RJS_OK) {
-                    r = rjs_define_property_or_throw(rt, o, &pn, &npd);
-                }
-            }
+        if ((r == RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
+            if ((r = rjs_get(rt, propso, &pn, desco)) == RJS_OK)
+                r = rjs_to_property_descriptor(rt, desco, &npds[i]);
         }
 
         rjs_property_name_deinit(rt, &pn);
@@ -133,10 +141,28 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
             goto end;
     }
 
+    /*Define the properties.*/
+    for (i = 0; i < num; i ++) {
+        RJS_Value *key = &pkl->keys.items[i];
+
+        if (npds[i].flags == -1)
+            continue;
+
+        rjs_property_name_init(rt, &pn, key);
+        r = rjs_define_property_or_throw(rt, o, &pn, &npds[i]);
+        rjs_property_name_deinit(rt, &pn);
+
+        if (r == RJS_ERR)
+            goto end;
+    }
+
     r = RJS_OK;
 end:
     rjs_property_desc_deinit(rt, &pd);
-    rjs_property_desc_deinit(rt, &npd);
+
+    if (npds)
+        RJS_DEL_N(rt, npds, num);
+
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From 4edbe7645444e594bf17d1faf539b762fb1ba7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:08 +0000
Subject: [PATCH 63/85] fix: do not convert the fill string of padStart and
 padEnd when nothing is added

---
 src/lib/rjs_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 8ccecc7..05ca52d 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -1178,7 +1178,7 @@ rjs_string_pad (RJS_Runtime *rt, RJS_Value *o, RJS_Value *max_len, RJS_Value *fi
 
     slen = rjs_string_get_length(rt, str);
 
-    if (ilen < slen) {
+    if (ilen <= slen) {
         rjs_value_copy(rt, rs, str);
         r = RJS_OK;
         goto end;
-- 
2.43.0


From be247c7dfb01ca44020f17bfafaa2823e29aecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:31 +0000
Subject: [PATCH 64/85] fix: resolve the operand of typeof only once

---
 src/lib/rjs_bc_gen.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index eb97239..2cd74bd 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -825,16 +825,19 @@ bc_gen_typeof_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstUnaryExpr *expr, int
     t_rid = bc_reg_add(rt, bg);
     ast   = bc_ast_get(rt, &expr->operand);
 
-    bc_gen_ref(rt, bg, ast, t_rid, &ref);
-
     line = ast->location.first_line;
 
-    if (ref.type == RJS_BC_REF_BINDING) {
+    if (ast->type == RJS_AST_Id) {
+        RJS_AstId         *ir = (RJS_AstId*)ast;
+        RJS_AstBindingRef *br = rjs_code_gen_binding_ref(rt, &ast->location, &ir->identifier->value);
+
+        /*"typeof_binding" resolves the binding itself.*/
         cid = bc_cmd_add(rt, bg, RJS_BC_typeof_binding, line);
         cmd = bc_cmd_get(bg, cid);
-        cmd->typeof_binding.binding = ref.binding_ref;
+        cmd->typeof_binding.binding = br;
         cmd->typeof_binding.dest    = rid;
     } else {
+        bc_gen_ref(rt, bg, ast, t_rid, &ref);
         bc_ref_get_value(rt, bg, line, t_rid, &ref);
 
         cid = bc_cmd_add(rt, bg, RJS_BC_typeof, line);
-- 
2.43.0


From 5e3f952c34ee72717f7a10fd8f61e3b4aaf7dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:50 +0000
Subject: [PATCH 65/85] fix: report the error of [[IsExtensible]] in
 Object.isSealed and Object.isFrozen

---
 src/lib/rjs_operation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 6b40f4a..71d27c9 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1019,7 +1019,9 @@ rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel leve
 
     rjs_property_desc_init(rt, &pd);
 
-    if (rjs_object_is_extensible(rt, o)) {
+    if ((r = rjs_object_is_extensible(rt, o)) == RJS_ERR)
+        goto end;
+    if (r) {
         r = RJS_FALSE;
         goto end;
     }
-- 
2.43.0


From c590686742f29c0b243e41f0b1229e2ff9cad2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:50 +0000
Subject: [PATCH 66/85] fix: report the error of the target's [[IsExtensible]]
 in the proxy operations

---
 src/lib/rjs_proxy_object_opt.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index e7ae08a..402dc1b 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -84,7 +84,9 @@ proxy_object_op_get_prototype_of (RJS_Runtime *rt, RJS_Value *o, RJS_Value *prot
         goto end;
     }
 
-    if (rjs_object_is_extensible(rt, target)) {
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+    if (r) {
         r = RJS_OK;
         goto end;
     }
@@ -192,7 +194,10 @@ proxy_object_op_is_extensible (RJS_Runtime *rt, RJS_Value *o)
         goto end;
 
     b1 = rjs_to_boolean(rt, tmp);
-    b2 = rjs_object_is_extensible(rt, target);
+
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+    b2 = r;
 
     if (b1 != b2) {
         r = rjs_throw_type_error(rt, _("proxy result mismatch"));
@@ -505,11 +510,13 @@ proxy_object_op_has_property (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *p
         if ((r = rjs_object_get_own_property(rt, target, pn, &target_pd)) == RJS_ERR)
             goto end1;
         if (r) {
-            if (!(target_pd.flags & RJS_PROP_FL_CONFIGURABLE)
-                    || !rjs_object_is_extensible(rt, target)) {
+            if (!(target_pd.flags & RJS_PROP_FL_CONFIGURABLE)) {
                 r = rjs_throw_type_error(rt, _("proxy result mismatch"));
                 goto end1;
             }
+
+            if ((r = rjs_object_is_extensible(rt, target)) == RJS_FALSE)
+                r = rjs_throw_type_error(rt, _("proxy result mismatch"));
         }
 end1:
         rjs_property_desc_deinit(rt, &target_pd);
@@ -726,8 +733,14 @@ proxy_object_op_delete (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn)
         goto end;
     }
 
-    if (!(tpd->flags & RJS_PROP_FL_CONFIGURABLE)
-            || !rjs_object_is_extensible(rt, target)) {
+    if (!(tpd->flags & RJS_PROP_FL_CONFIGURABLE)) {
+        r = rjs_throw_type_error(rt, _("proxy result mismatch"));
+        goto end;
+    }
+
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+    if (!r) {
         r = rjs_throw_type_error(rt, _("proxy result mismatch"));
         goto end;
     }
-- 
2.43.0


From f89b9f28f2b67106cfb43182bf58d1d1f37095c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:50 +0000
Subject: [PATCH 67/85] fix: do not close the iterator when the value getter of
 a rest element fails

---
 src/lib/rjs_native_stack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 3e0ba9c..0f1490b 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -463,8 +463,10 @@ rjs_iter_state_rest (RJS_Runtime *rt, RJS_Value *rv)
             break;
         }
 
-        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR)
+        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR) {
+            iter->done = RJS_TRUE;
             goto end;
+        }
 
         if ((r = rjs_create_data_property_or_throw_index(rt, rv, i, item)) == RJS_ERR)
             goto end;
-- 
2.43.0


From 6b4fa48161a179fa3f514e55bdff48e9932c18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:50 +0000
Subject: [PATCH 68/85] fix: release the numbers when an argument conversion
 fails in Math.hypot

---
 src/lib/rjs_math_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_math_object_inc.c b/src/lib/rjs_math_object_inc.c
index a3c1549..2dc7a6f 100644
--- a/src/lib/rjs_math_object_inc.c
+++ b/src/lib/rjs_math_object_inc.c
@@ -381,7 +381,7 @@ static RJS_NF(Math_hypot)
         RJS_Number n;
 
         if ((r = rjs_to_number(rt, arg, &n)) == RJS_ERR)
-            return r;
+            goto end;
 
         rjs_vector_append(&nv, n, rt);
     }
-- 
2.43.0


From b5bc487790df0f3fb66c02d61097fb0513090278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:50 +0000
Subject: [PATCH 69/85] fix: release the source buffer and report the errors
 when the Function constructor fails

---
 src/lib/rjs_script_func_object.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 5180168..597b01f 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -500,8 +500,6 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
     rjs_uchar_buffer_append_chars(rt, &ucb, "\n}", -1);
     rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num);
 
-    rjs_uchar_buffer_deinit(rt, &ucb);
-
     /*Create the input source.*/
     if ((r = rjs_string_input_init(rt, &si, src)) == RJS_ERR)
         goto end;
@@ -542,7 +540,8 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
         fallback_proto = RJS_O_Function_prototype;
     }
 
-    rjs_get_prototype_from_constructor(rt, nt, fallback_proto, proto);
+    if ((r = rjs_get_prototype_from_constructor(rt, nt, fallback_proto, proto)) == RJS_ERR)
+        goto end;
 
     /*Create the function.*/
 #if ENABLE_GENERATOR
@@ -564,6 +563,7 @@ end:
     if (need_close)
         rjs_input_deinit(rt, &si);
 
+    rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From 9c00abdd9eaf9df5a3db20c661548f8318114d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 70/85] fix: keep the input of a regular expression alive when
 it is an index string

---
 src/lib/rjs_regexp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index a3bdcc3..37df82b 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -2827,6 +2827,9 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
     assert(rjs_value_get_gc_thing_type(rt, v) == RJS_GC_THING_REGEXP);
     assert(rjs_value_is_string(rt, str));
 
+    /*The context is not a root: it must not own a string created from an index string.*/
+    rjs_value_get_string(rt, str);
+
     rjs_value_copy(rt, &ctxt.str, str);
     ctxt.len   = rjs_string_get_length(rt, str);
     ctxt.re    = re;
-- 
2.43.0


From 1d814061d17e0b93d5190c012315a74c538e2fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:33 +0000
Subject: [PATCH 71/85] fix: report the error when the prototype of a new
 regular expression cannot be read

---
 src/lib/rjs_regexp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 37df82b..051e1a8 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1591,13 +1591,18 @@ rjs_regexp_alloc (RJS_Runtime *rt, RJS_Value *nt, RJS_Value *rv)
     RJS_RegExp       *re;
     RJS_RegExpModel  *rem;
     RJS_PropertyDesc  pd;
+    RJS_Result        r;
 
     RJS_NEW(rt, re);
 
     re->model = NULL;
 
     /*Initialize the object.*/
-    rjs_ordinary_init_from_constructor(rt, &re->object, nt, RJS_O_RegExp_prototype, &regexp_ops, rv);
+    r = rjs_ordinary_init_from_constructor(rt, &re->object, nt, RJS_O_RegExp_prototype, &regexp_ops, rv);
+    if (r == RJS_ERR) {
+        RJS_DEL(rt, re);
+        return r;
+    }
 
     /*Allocate the model.*/
     RJS_NEW(rt, rem);
-- 
2.43.0


From 825ef49bcadfd48d3e7ca7028f8d9e50bc39742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:33 +0000
Subject: [PATCH 72/85] fix: an error which rejects a promise is not pending
 any more

---
 src/lib/rjs_promise_object_inc.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 3fe1f0e..6cb83d5 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -55,6 +55,27 @@ get_promise_resolve (RJS_Runtime *rt, RJS_Value *c, RJS_Value *resolve)
     return RJS_OK;
 }
 
+/*Reject the promise of the capability with the current error.*/
+static RJS_Result
+reject_with_error (RJS_Runtime *rt, RJS_PromiseCapability *pc, RJS_Value *rv)
+{
+    size_t     top = rjs_value_stack_save(rt);
+    RJS_Value *err = rjs_value_stack_push(rt);
+    RJS_Result r;
+
+    /*The error is handled here, it is not pending any more.*/
+    rjs_catch(rt, err);
+
+    r = rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL);
+    if (r != RJS_ERR) {
+        rjs_value_copy(rt, rv, pc->promise);
+        r = RJS_OK;
+    }
+
+    rjs_value_stack_restore(rt, top);
+    return r;
+}
+
 /**
  * Invoke reject if arupt.
  * \param rt The current runtime.
@@ -67,7 +88,7 @@ RJS_Result
 if_abrupt_reject_promise (RJS_Runtime *rt, RJS_Result r, RJS_PromiseCapability *pc, RJS_Value *rv)
 {
     if (r == RJS_ERR) {
-        rjs_call(rt, pc->reject, rjs_v_undefined(rt), &rt->error, 1, NULL);
+        reject_with_error(rt, pc, rv);
         rjs_value_copy(rt, rv, pc->promise);
     }
 
-- 
2.43.0


From 6bb5643f4bb216d509d8cd2575dc14fb97edce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:33 +0000
Subject: [PATCH 73/85] fix: report the error of the reject function of a
 promise capability

---
 src/lib/rjs_promise_object_inc.c | 56 ++++++++++++++------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 6cb83d5..3d19b49 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -358,14 +358,14 @@ static RJS_NF(Promise_all)
         goto end;
 
     r = get_promise_resolve(rt, thiz, resolve);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (r == RJS_ERR) {
+        r = reject_with_error(rt, &pc, rv);
         goto end;
     }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (r == RJS_ERR) {
+        r = reject_with_error(rt, &pc, rv);
         goto end;
     }
 
@@ -374,10 +374,8 @@ static RJS_NF(Promise_all)
         if (!iterator_rec.done)
             rjs_iterator_close(rt, &iterator_rec);
 
-        if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
-            goto end;
-        }
+        r = reject_with_error(rt, &pc, rv);
+        goto end;
     }
 
     r = RJS_OK;
@@ -555,14 +553,14 @@ static RJS_NF(Promise_allSettled)
         goto end;
 
     r = get_promise_resolve(rt, thiz, resolve);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (r == RJS_ERR) {
+        r = reject_with_error(rt, &pc, rv);
         goto end;
     }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (r == RJS_ERR) {
+        r = reject_with_error(rt, &pc, rv);
         goto end;
     }
 
@@ -571,10 +569,8 @@ static RJS_NF(Promise_allSettled)
         if (!iterator_rec.done)
             rjs_iterator_close(rt, &iterator_rec);
 
-        if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
-            goto end;
-        }
+        r = reject_with_error(rt, &pc, rv);
+        goto end;
     }
 
     r = RJS_OK;
@@ -717,14 +713,14 @@ static RJS_NF(Promise_any)
         goto end;
 
     r = get_promise_resolve(rt, thiz, resolve);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (r == RJS_ERR) {
+        r = reject_with_error(rt, &pc, rv);
         goto end;
     }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (r == RJS_ERR) {
+        r = reject_with_error(rt, &pc, rv);
         goto end;
     }
 
@@ -733,10 +729,8 @@ static RJS_NF(Promise_any)
         if (!iterator_rec.done)
             rjs_iterator_close(rt, &iterator_rec);
 
-        if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
-            goto end;
-        }
+        r = reject_with_error(rt, &pc, rv);
+        goto end;
     }
 
     r = RJS_OK;
@@ -812,14 +806,14 @@ static RJS_NF(Promise_race)
         goto end;
 
     r = get_promise_resolve(rt, thiz, resolve);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (r == RJS_ERR) {
+        r = reject_with_error(rt, &pc, rv);
         goto end;
     }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
-    if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+    if (r == RJS_ERR) {
+        r = reject_with_error(rt, &pc, rv);
         goto end;
     }
 
@@ -828,10 +822,8 @@ static RJS_NF(Promise_race)
         if (!iterator_rec.done)
             rjs_iterator_close(rt, &iterator_rec);
 
-        if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
-            goto end;
-        }
+        r = reject_with_error(rt, &pc, rv);
+        goto end;
     }
 
     r = RJS_OK;
-- 
2.43.0


From 1f609ca7fced8c19d03e0c206cf8eada17a83b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:51 +0000
Subject: [PATCH 74/85] fix: report the error when a large string cannot be
 allocated

---
 src/lib/rjs_function_object_inc.c |  8 ++-----
 src/lib/rjs_global_object.c       |  4 +---
 src/lib/rjs_json_opt.c            | 36 ++++++++++++++++++++-----------
 src/lib/rjs_lex.c                 | 24 ++++++++++++++-------
 src/lib/rjs_object_object_inc.c   |  4 +---
 src/lib/rjs_operation.c           | 20 +++++++++++------
 src/lib/rjs_regexp.c              | 14 +++++++-----
 src/lib/rjs_regexp_object_inc.c   | 10 ++++-----
 src/lib/rjs_script_func_object.c  |  3 ++-
 src/lib/rjs_string.c              | 18 +++++++++++-----
 src/lib/rjs_string_object_inc.c   | 12 ++++-------
 src/lib/rjs_symbol_object_inc.c   |  5 +++--
 src/lib/rjs_uri_functions_inc.c   |  6 ++----
 13 files changed, 94 insertions(+), 70 deletions(-)

diff --git a/src/lib/rjs_function_object_inc.c b/src/lib/rjs_function_object_inc.c
index 168ce0f..1552149 100644
--- a/src/lib/rjs_function_object_inc.c
+++ b/src/lib/rjs_function_object_inc.c
@@ -152,9 +152,7 @@ static RJS_NF(Function_prototype_bind)
     if (!rjs_value_is_string(rt, name))
         rjs_value_copy(rt, name, rjs_s_empty(rt));
 
-    rjs_set_function_name(rt, rv, name, rjs_s_bound(rt));
-
-    r = RJS_OK;
+    r = rjs_set_function_name(rt, rv, name, rjs_s_bound(rt));
 end:
     rjs_value_stack_restore(rt, top);
     return r;
@@ -257,9 +255,7 @@ static RJS_NF(Function_prototype_toString)
 
     rjs_uchar_buffer_append_chars(rt, &ucb, "){[native code]}", -1);
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
-
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 end:
     rjs_uchar_buffer_deinit(rt, &ucb);
     return r;
diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index f173525..56410fb 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -58,9 +58,7 @@ static RJS_NF(internal_concat)
         rjs_uchar_buffer_append_string(rt, &ucb, str);
     }
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
-
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 end:
     rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 671eda2..2d3d301 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -495,12 +495,13 @@ state_deinit (RJS_Runtime *rt, RJS_JsonState *js)
 }
 
 /*Generate the JSON string.*/
-static void
+static RJS_Result
 quote_json_string (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *str, RJS_Value *rv)
 {
     const RJS_UChar *c   = rjs_string_get_uchars(rt, str);
     size_t           len = rjs_string_get_length(rt, str);
     RJS_UCharBuffer  ucb;
+    RJS_Result       r;
 
     rjs_uchar_buffer_init(rt, &ucb);
 
@@ -566,8 +567,10 @@ quote_json_string (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *str, RJS_Value
 
     rjs_uchar_buffer_append_uc(rt, &ucb, '\"');
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
     rjs_uchar_buffer_deinit(rt, &ucb);
+
+    return r;
 }
 
 /*Check if the value is already in the stack.*/
@@ -615,7 +618,8 @@ serialize_json_array (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS_
 
     if (len && js->gap) {
         rjs_value_copy(rt, stepback, js->indent);
-        rjs_string_concat(rt, js->indent, js->gap, indent);
+        if ((r = rjs_string_concat(rt, js->indent, js->gap, indent)) == RJS_ERR)
+            goto end;
         rjs_value_copy(rt, js->indent, indent);
     }
 
@@ -655,8 +659,7 @@ serialize_json_array (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS_
 
     rjs_uchar_buffer_append_uchar(rt, &ucb, ']');
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 end:
     if (js->stack == &jss)
         js->stack = jss.bot;
@@ -667,13 +670,15 @@ end:
 }
 
 /*Serialize a property key and a value.*/
-static void
+static RJS_Result
 serialize_key_value (RJS_Runtime *rt, RJS_JsonState *js, RJS_UCharBuffer *ucb, RJS_Value *k, RJS_Value *v)
 {
     size_t     top  = rjs_value_stack_save(rt);
     RJS_Value *qstr = rjs_value_stack_push(rt);
+    RJS_Result r;
 
-    quote_json_string(rt, js, k, qstr);
+    if ((r = quote_json_string(rt, js, k, qstr)) == RJS_ERR)
+        goto end;
 
     rjs_uchar_buffer_append_string(rt, ucb, qstr);
     rjs_uchar_buffer_append_uchar(rt, ucb, ':');
@@ -683,7 +688,10 @@ serialize_key_value (RJS_Runtime *rt, RJS_JsonState *js, RJS_UCharBuffer *ucb, R
 
     rjs_uchar_buffer_append_string(rt, ucb, v);
 
+    r = RJS_OK;
+end:
     rjs_value_stack_restore(rt, top);
+    return r;
 }
 
 /*Serialize the object.*/
@@ -715,7 +723,8 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
     if (js->gap) {
         rjs_value_copy(rt, stepback, js->indent);
-        rjs_string_concat(rt, js->indent, js->gap, indent);
+        if ((r = rjs_string_concat(rt, js->indent, js->gap, indent)) == RJS_ERR)
+            goto end;
         rjs_value_copy(rt, js->indent, indent);
     }
 
@@ -767,7 +776,7 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
                         rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
                     }
 
-                    serialize_key_value(rt, js, &ucb, key, str);
+                    r = serialize_key_value(rt, js, &ucb, key, str);
 
                     empty = RJS_FALSE;
                 }
@@ -794,7 +803,8 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
                     rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
                 }
 
-                serialize_key_value(rt, js, &ucb, jp->pn.name, str);
+                if ((r = serialize_key_value(rt, js, &ucb, jp->pn.name, str)) == RJS_ERR)
+                    goto end;
 
                 empty = RJS_FALSE;
             }
@@ -812,8 +822,7 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
     rjs_uchar_buffer_append_uchar(rt, &ucb, '}');
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 end:
     if (js->stack == &jss)
         js->stack = jss.bot;
@@ -899,7 +908,8 @@ serialize_json_property (RJS_Runtime *rt, RJS_JsonState *js, RJS_PropertyName *p
         else
             rjs_value_copy(rt, rv, rjs_s_false(rt));
     } else if (rjs_value_is_string(rt, value)) {
-        quote_json_string(rt, js, value, rv);
+        if ((r = quote_json_string(rt, js, value, rv)) == RJS_ERR)
+            goto end;
     } else if (rjs_value_is_number(rt, value)) {
         RJS_Number n;
 
diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 9f7ca6c..f5792be 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -64,6 +64,14 @@ lex_error (RJS_Runtime *rt, RJS_Lex *lex, RJS_Location *loc, const char *fmt, ..
     }
 }
 
+/*Create a string from the characters of the token.*/
+static void
+token_string (RJS_Runtime *rt, RJS_Lex *lex, RJS_Value *v, const RJS_UChar *uc, size_t len)
+{
+    if (rjs_string_from_uchars(rt, v, uc, len) == RJS_ERR)
+        lex->status |= RJS_LEX_ST_ERROR;
+}
+
 /*Output warning message.*/
 static void
 lex_warning (RJS_Runtime *rt, RJS_Lex *lex, RJS_Location *loc, const char *fmt, ...)
@@ -443,7 +451,7 @@ lex_string (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token, int start)
 
     token->type = RJS_TOKEN_STRING;
 
-    rjs_string_from_uchars(rt, token->value,
+    token_string(rt, lex, token->value,
             lex->uc_text.items, lex->uc_text.item_num);
 }
 
@@ -797,7 +805,7 @@ lex_private_identifier (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
 
     token->type = RJS_TOKEN_PRIVATE_IDENTIFIER;
 
-    rjs_string_from_uchars(rt, token->value,
+    token_string(rt, lex, token->value,
             lex->uc_text.items, lex->uc_text.item_num);
 
     return;
@@ -875,7 +883,7 @@ lex_identifier (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
 
     token->type = RJS_TOKEN_IDENTIFIER;
 
-    rjs_string_from_uchars(rt, token->value,
+    token_string(rt, lex, token->value,
             lex->uc_text.items, lex->uc_text.item_num);
 
     if (!(lex->status & RJS_LEX_ST_JSON)) {
@@ -1066,12 +1074,12 @@ lex_regexp (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
 
     token->type = RJS_TOKEN_REGEXP;
 
-    rjs_string_from_uchars(rt, src, lex->uc_text.items, flag_pos);
+    token_string(rt, lex, src, lex->uc_text.items, flag_pos);
 
     if (flag_pos == lex->uc_text.item_num)
         rjs_value_set_undefined(rt, flags);
     else
-        rjs_string_from_uchars(rt, flags,
+        token_string(rt, lex, flags,
                 lex->uc_text.items + flag_pos,
                 lex->uc_text.item_num - flag_pos);
 
@@ -1224,7 +1232,7 @@ lex_template (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_head, RJS_Token *token)
     if (lex->status & RJS_LEX_ST_JSON) {
         /*JSON*/
         token->type = RJS_TOKEN_STRING;
-        rjs_string_from_uchars(rt, token->value, lex->uc_text.items, lex->uc_text.item_num);
+        token_string(rt, lex, token->value, lex->uc_text.items, lex->uc_text.item_num);
     } else {
         /*Script*/
         if (is_end) {
@@ -1245,13 +1253,13 @@ lex_template (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_head, RJS_Token *token)
             token->flags |= RJS_TOKEN_FL_INVALIE_ESCAPE;
             rjs_value_set_undefined(rt, str);
         } else {
-            rjs_string_from_uchars(rt, str, lex->uc_text.items, lex->uc_text.item_num);
+            token_string(rt, lex, str, lex->uc_text.items, lex->uc_text.item_num);
         }
 
         if (!escape_error && (lex->raw_uc_text.item_num == lex->uc_text.item_num)) {
             rjs_value_copy(rt, raw, str);
         } else {
-            rjs_string_from_uchars(rt, raw,
+            token_string(rt, lex, raw,
                     lex->raw_uc_text.items,
                     lex->raw_uc_text.item_num);
         }
diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index dac7690..1bb2c2b 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -1063,10 +1063,8 @@ static RJS_NF(Object_prototype_toString)
     rjs_char_buffer_append_chars(rt, &cb, tag, -1);
     rjs_char_buffer_append_char(rt, &cb, ']');
 
-    rjs_string_from_enc_chars(rt, rv, cb.items, cb.item_num, NULL);
+    r = rjs_string_from_enc_chars(rt, rv, cb.items, cb.item_num, NULL);
     rjs_char_buffer_deinit(rt, &cb);
-
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 71d27c9..5198bd3 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1095,7 +1095,8 @@ rjs_set_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name, RJS_Value
             rjs_uchar_buffer_append_string(rt, &ucb, &sym->description);
             rjs_uchar_buffer_append_uc(rt, &ucb, ']');
 
-            rjs_string_from_uchars(rt, n1, ucb.items, ucb.item_num);
+            if ((r = rjs_string_from_uchars(rt, n1, ucb.items, ucb.item_num)) == RJS_ERR)
+                goto end;
             rjs_uchar_buffer_clear(rt, &ucb);
         }
     } else
@@ -1124,7 +1125,8 @@ rjs_set_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name, RJS_Value
         rjs_uchar_buffer_append_uc(rt, &ucb, ' ');
         rjs_uchar_buffer_append_string(rt, &ucb, n1);
 
-        rjs_string_from_uchars(rt, n2, ucb.items, ucb.item_num);
+        if ((r = rjs_string_from_uchars(rt, n2, ucb.items, ucb.item_num)) == RJS_ERR)
+            goto end;
     } else {
         rjs_value_copy(rt, n2, n1);
     }
@@ -1132,7 +1134,7 @@ rjs_set_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name, RJS_Value
     rjs_value_copy(rt, pd.value, n2);
 
     r = rjs_define_property_or_throw(rt, f, rjs_pn_name(rt), &pd);
-
+end:
     rjs_property_desc_deinit(rt, &pd);
     rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
@@ -1836,7 +1838,8 @@ rjs_define_field (RJS_Runtime *rt, RJS_Value *o, RJS_Value *name, RJS_Value *ini
             goto end;
 
         if (is_af)
-            rjs_set_function_name(rt, tmp, name, NULL);
+            if ((r = rjs_set_function_name(rt, tmp, name, NULL)) == RJS_ERR)
+                goto end;
     } else {
         rjs_value_set_undefined(rt, tmp);
     }
@@ -1974,7 +1977,8 @@ rjs_create_method (RJS_Runtime *rt, RJS_Value *o, RJS_ClassElementType type, RJS
             goto end;
 
         rjs_make_method(rt, f, o);
-        rjs_set_function_name(rt, f, n, rjs_s_get(rt));
+        if ((r = rjs_set_function_name(rt, f, n, rjs_s_get(rt))) == RJS_ERR)
+            goto end;
 
         rjs_property_desc_init(rt, &pd);
         rjs_property_name_init(rt, &pn, n);
@@ -2007,7 +2011,8 @@ rjs_create_method (RJS_Runtime *rt, RJS_Value *o, RJS_ClassElementType type, RJS
             goto end;
 
         rjs_make_method(rt, f, o);
-        rjs_set_function_name(rt, f, n, rjs_s_set(rt));
+        if ((r = rjs_set_function_name(rt, f, n, rjs_s_set(rt))) == RJS_ERR)
+            goto end;
 
         rjs_property_desc_init(rt, &pd);
         rjs_property_name_init(rt, &pn, n);
@@ -2039,7 +2044,8 @@ rjs_create_method (RJS_Runtime *rt, RJS_Value *o, RJS_ClassElementType type, RJS
         if ((r = rjs_define_method(rt, o, NULL, script, sf, f)) == RJS_ERR)
             goto end;
 
-        rjs_set_function_name(rt, f, n, NULL);
+        if ((r = rjs_set_function_name(rt, f, n, NULL)) == RJS_ERR)
+            goto end;
 
         if ((r = rjs_define_method_property(rt, o, n, f, enumerable)) == RJS_ERR)
             goto end;
diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 051e1a8..e450d46 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1492,6 +1492,7 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     RJS_UCharBuffer  ucb;
     const RJS_UChar *c, *e;
     size_t           len;
+    RJS_Result       r;
 
     len = rjs_string_get_length(rt, src);
     if (len == 0) {
@@ -1525,10 +1526,10 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
         c ++;
     }
 
-    rjs_string_from_uchars(rt, str, ucb.items, ucb.item_num);
+    r = rjs_string_from_uchars(rt, str, ucb.items, ucb.item_num);
 
     rjs_uchar_buffer_deinit(rt, &ucb);
-    return RJS_OK;
+    return r;
 }
 
 /*Generate the regular expression.*/
@@ -1543,7 +1544,8 @@ gen_regexp (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_Value *v, RJS_Value *src)
     rem = re->model;
 
     /*Store the source string.*/
-    gen_source(rt, src, &rem->source);
+    if (gen_source(rt, src, &rem->source) == RJS_ERR)
+        return RJS_ERR;
 
     rem->flags     = p->flags;
     rem->group_num = p->group_num;
@@ -2898,7 +2900,8 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
     rjs_create_data_property_or_throw(rt, rv, rjs_pn_index(rt), idx);
     rjs_create_data_property_or_throw(rt, rv, rjs_pn_input(rt), str);
 
-    rjs_string_substr(rt, str, ctxt.vec[0], ctxt.vec[1], sub);
+    if ((r = rjs_string_substr(rt, str, ctxt.vec[0], ctxt.vec[1], sub)) == RJS_ERR)
+        goto end;
     rjs_create_data_property_or_throw_index(rt, rv, 0, sub);
 
     has_group   = ctxt.model->group_names ? RJS_TRUE : RJS_FALSE;
@@ -2955,7 +2958,8 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
             if (has_indices)
                 rjs_value_set_undefined(rt, indice);
         } else {
-            rjs_string_substr(rt, str, start, end, sub);
+            if ((r = rjs_string_substr(rt, str, start, end, sub)) == RJS_ERR)
+                goto end;
             rjs_create_data_property_or_throw_index(rt, rv, i, sub);
 
             if (has_indices) {
diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 5eda107..600c525 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -808,7 +808,8 @@ static RJS_NF(RegExp_prototype_split)
             } else {
                 int64_t i, ncap;
 
-                rjs_string_substr(rt, s, p, q, tmp);
+                if ((r = rjs_string_substr(rt, s, p, q, tmp)) == RJS_ERR)
+                    goto end;
                 rjs_create_data_property_or_throw_index(rt, rv, len, tmp);
 
                 len ++;
@@ -839,7 +840,8 @@ static RJS_NF(RegExp_prototype_split)
         }
     }
 
-    rjs_string_substr(rt, s, p, size, tmp);
+    if ((r = rjs_string_substr(rt, s, p, size, tmp)) == RJS_ERR)
+        goto end;
     rjs_create_data_property_or_throw_index(rt, rv, len, tmp);
 
     r = RJS_OK;
@@ -908,10 +910,8 @@ static RJS_NF(RegExp_prototype_toString)
     rjs_uchar_buffer_append_uchar(rt, &ucb, '/');
     rjs_uchar_buffer_append_string(rt, &ucb, flags);
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
     rjs_uchar_buffer_deinit(rt, &ucb);
-
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 597b01f..4586a53 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -498,7 +498,8 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
     }
 
     rjs_uchar_buffer_append_chars(rt, &ucb, "\n}", -1);
-    rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num);
+    if ((r = rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num)) == RJS_ERR)
+        goto end;
 
     /*Create the input source.*/
     if ((r = rjs_string_input_init(rt, &si, src)) == RJS_ERR)
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 05ca52d..b644dbe 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -142,8 +142,10 @@ rjs_string_from_chars (RJS_Runtime *rt, RJS_Value *v, const char *chars, size_t
 
     if (len) {
         s->uchars = rjs_alloc(rt, sizeof(RJS_UChar) * len);
-        if (!s->uchars)
+        if (!s->uchars) {
+            s->length = 0;
             return rjs_throw_range_error(rt, _("string is too long"));
+        }
 
         if (chars) {
             for (i = 0; i < len; i ++)
@@ -202,6 +204,7 @@ rjs_string_from_enc_chars (RJS_Runtime *rt, RJS_Value *v,
     if (uc_len) {
         s->uchars = rjs_alloc(rt, sizeof(RJS_UChar) * uc_len);
         if (!s->uchars) {
+            s->length = 0;
             r = rjs_throw_range_error(rt, _("string is too long"));
             goto end;
         }
@@ -250,8 +253,10 @@ rjs_string_from_uchars (RJS_Runtime *rt, RJS_Value *v,
 
     if (len) {
         s->uchars = rjs_alloc(rt, sizeof(RJS_UChar) * len);
-        if (!s->uchars)
+        if (!s->uchars) {
+            s->length = 0;
             return rjs_throw_range_error(rt, _("string is too long"));
+        }
 
         if (uchars)
             RJS_ELEM_CPY(s->uchars, uchars, len);
@@ -1484,7 +1489,8 @@ rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
                     c ++;
                     break;
                 case '`':
-                    rjs_string_substr(rt, str, 0, pos, sub);
+                    if ((r = rjs_string_substr(rt, str, 0, pos, sub)) == RJS_ERR)
+                        goto end;
                     rjs_uchar_buffer_append_string(rt, &ucb, sub);
                     c ++;
                     break;
@@ -1494,7 +1500,8 @@ rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
                     break;
                 case '\'':
                     if (pos + mlen < slen) {
-                        rjs_string_substr(rt, str, pos + mlen, slen, sub);
+                        if ((r = rjs_string_substr(rt, str, pos + mlen, slen, sub)) == RJS_ERR)
+                            goto end;
                         rjs_uchar_buffer_append_string(rt, &ucb, sub);
                     }
                     c ++;
@@ -1515,7 +1522,8 @@ rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
                     } else {
                         RJS_PropertyName pn;
 
-                        rjs_string_substr(rt, rep_templ, nb - b, ne - b, name);
+                        if ((r = rjs_string_substr(rt, rep_templ, nb - b, ne - b, name)) == RJS_ERR)
+                            goto end;
                         c = ne + 1;
 
                         rjs_property_name_init(rt, &pn, name);
diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 2c326b3..129855c 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -806,8 +806,7 @@ static RJS_NF(String_prototype_normalize)
         rlen = rjs_uchars_normalize(c, len, ucb.items, rlen, mode);
     }
 
-    rjs_string_from_uchars(rt, rv, ucb.items, rlen);
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, rlen);
 end:
     rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
@@ -1116,8 +1115,7 @@ static RJS_NF(String_prototype_replaceAll)
     if (start < len)
         rjs_uchar_buffer_append_uchars(rt, &ucb, s + start, len - start);
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 end:
     rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
@@ -1462,8 +1460,7 @@ string_toLower (RJS_Runtime *rt, RJS_Value *thiz, const char *locale, RJS_Value
         cnt = rjs_uchars_to_lower(c, len, ucb.items, ucb.item_cap, locale);
     }
 
-    rjs_string_from_uchars(rt, rv, ucb.items, cnt);
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, cnt);
 end:
     rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
@@ -1500,8 +1497,7 @@ string_toUpper (RJS_Runtime *rt, RJS_Value *thiz, const char *locale, RJS_Value
         cnt = rjs_uchars_to_upper(c, len, ucb.items, ucb.item_cap, locale);
     }
 
-    rjs_string_from_uchars(rt, rv, ucb.items, cnt);
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, cnt);
 end:
     rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
diff --git a/src/lib/rjs_symbol_object_inc.c b/src/lib/rjs_symbol_object_inc.c
index 7019e02..a18db83 100644
--- a/src/lib/rjs_symbol_object_inc.c
+++ b/src/lib/rjs_symbol_object_inc.c
@@ -267,6 +267,7 @@ static RJS_Result
 symbol_descriptive_string (RJS_Runtime *rt, RJS_Symbol *s, RJS_Value *str)
 {
     RJS_UCharBuffer ucb;
+    RJS_Result      r;
 
     rjs_uchar_buffer_init(rt, &ucb);
 
@@ -276,10 +277,10 @@ symbol_descriptive_string (RJS_Runtime *rt, RJS_Symbol *s, RJS_Value *str)
     }
     rjs_uchar_buffer_append_uchar(rt, &ucb, ')');
 
-    rjs_string_from_uchars(rt, str, ucb.items, ucb.item_num);
+    r = rjs_string_from_uchars(rt, str, ucb.items, ucb.item_num);
     rjs_uchar_buffer_deinit(rt, &ucb);
 
-    return RJS_OK;
+    return r;
 }
 
 /*Symbol.prototype.toString*/
diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index 1d7c8fc..ddf67b3 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -156,8 +156,7 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
         }
     }
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 end:
     rjs_uchar_buffer_deinit(rt, &ucb);
     return r;
@@ -294,8 +293,7 @@ uri_encode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
         }
     }
 
-    rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 end:
     rjs_uchar_buffer_deinit(rt, &ucb);
     return r;
-- 
2.43.0


From 49e6665076ca61d7dc2b9d0771aac916f603d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:28 +0000
Subject: [PATCH 75/85] fix: refuse a repeat count whose result length
 overflows

---
 src/lib/rjs_string_object_inc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 129855c..214cab0 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -862,17 +862,21 @@ static RJS_NF(String_prototype_repeat)
         r = rjs_throw_range_error(rt, _("repeat count must >= 0 and < infinite"));
         goto end;
     }
-    rc = n;
-
-    if (rc == 0) {
+    if ((n == 0) || (rjs_string_get_length(rt, str) == 0)) {
         rjs_value_copy(rt, rv, rjs_s_empty(rt));
+    } else if (n > (RJS_Number)(LONG_MAX / sizeof(RJS_UChar) / rjs_string_get_length(rt, str) / 2)) {
+        r = rjs_throw_range_error(rt, _("string is too long"));
+        goto end;
     } else {
         size_t           slen = rjs_string_get_length(rt, str);
-        size_t           rlen = rc * slen;
+        size_t           rlen;
         size_t           i;
         RJS_UChar       *d;
         const RJS_UChar *s;
 
+        rc   = n;
+        rlen = rc * slen;
+
         if ((r = rjs_string_from_uchars(rt, rv, NULL, rlen)) == RJS_ERR)
             goto end;
 
-- 
2.43.0


From 2df89ae4f85e79ed179934c1326d7043380b81d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:08 +0000
Subject: [PATCH 76/85] fix: start index beyond every integer in the typed
 array search methods

---
 src/lib/rjs_typed_array_object_inc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 8633d45..1d328e8 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -927,7 +927,9 @@ static RJS_NF(TypedArray_prototype_includes)
     if (n == -INFINITY)
         n = 0;
 
-    if (n >= 0) {
+    if (n >= len) {
+        k = len;
+    } else if (n >= 0) {
         k = n;
     } else {
         k = RJS_MAX(len + n, 0);
@@ -988,7 +990,9 @@ static RJS_NF(TypedArray_prototype_indexOf)
     if (n == -INFINITY)
         n = 0;
 
-    if (n >= 0) {
+    if (n >= len) {
+        k = len;
+    } else if (n >= 0) {
         k = n;
     } else {
         k = RJS_MAX(len + n, 0);
-- 
2.43.0


From 9fe706adf8bcf38c6f7a7cd837c16ba1ca01319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:43 +0000
Subject: [PATCH 77/85] fix: start index beyond every integer in
 Array.prototype.includes and indexOf

---
 src/lib/rjs_array_object_inc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index f39ca6d..c7351a1 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -1320,7 +1320,9 @@ static RJS_NF(Array_prototype_includes)
         n = 0;
     }
 
-    if (n >= 0) {
+    if (n >= len) {
+        k = len;
+    } else if (n >= 0) {
         k = n;
     } else {
         k = len + n;
@@ -1386,7 +1388,9 @@ static RJS_NF(Array_prototype_indexOf)
         n = 0;
     }
 
-    if (n >= 0) {
+    if (n >= len) {
+        k = len;
+    } else if (n >= 0) {
         k = n;
     } else {
         k = len + n;
-- 
2.43.0


From c2ce2ebdf21c13f7eabebde9ae06549fd5670239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:46 +0000
Subject: [PATCH 78/85] fix: cached bindings of environments changed by eval or
 delete

---
 src/lib/rjs_environment.c |  8 ++++++++
 src/lib/rjs_operation.c   | 37 ++++++++++++++++++++++---------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/lib/rjs_environment.c b/src/lib/rjs_environment.c
index d46ecba..c9668af 100644
--- a/src/lib/rjs_environment.c
+++ b/src/lib/rjs_environment.c
@@ -83,6 +83,7 @@ rjs_env_deinit (RJS_Runtime *rt, RJS_Environment *env)
 
 /**
  * Build the outer environment stack.
+ * The environment's cache is disabled if the cache of any outer environment is disabled.
  * \param rt The current runtime.
  * \param env The environment
  */
@@ -95,6 +96,13 @@ rjs_env_build_outer_stack (RJS_Runtime *rt, RJS_Environment *env)
         RJS_EnvStackEntry *e, *le;
         RJS_Environment   *outer;
 
+        for (outer = env->outer; outer; outer = outer->outer) {
+            if (!outer->cache_enable) {
+                env->cache_enable = RJS_FALSE;
+                return;
+            }
+        }
+
         RJS_NEW_N(rt, env->outer_stack, env->depth);
 
         e  = env->outer_stack;
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 5198bd3..6a19419 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2077,25 +2077,38 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
     RJS_Result       r;
 
 #if ENABLE_BINDING_CACHE
+    /*Build the outer environment stack. This disables the cache if the
+      bindings of any outer environment may be changed dynamically.*/
+    if (env->cache_enable && !env->outer_stack)
+        rjs_env_build_outer_stack(rt, env);
+
     if ((bn->env_idx != 0xffff) && env->cache_enable) {
         /*The outer environment is already in cache.*/
         if (bn->env_idx) {
             RJS_EnvStackEntry *ent;
 
-            /*Build the outer environment stack.*/
-            if (!env->outer_stack)
-                rjs_env_build_outer_stack(rt, env);
-
             /*Get the outer environment from the stack directly.*/
             ent = &env->outer_stack[bn->env_idx - 1];
             env = ent->env;
         }
+
+        /*The property of the global object may be deleted.*/
+        if (!env->outer) {
+            if ((r = rjs_env_has_binding(rt, env, bn)) == RJS_ERR)
+                return r;
+            if (!r)
+                env = NULL;
+        }
     } else
 #endif /*ENABLE_BINDING_CACHE*/
     {
-        RJS_Environment *bot        = env;
 #if ENABLE_BINDING_CACHE
+        RJS_Environment *bot        = env;
         RJS_Bool         need_cache = env->cache_enable;
+
+        /*Lookup the binding by its name.*/
+        bn->env_idx     = 0xffff;
+        bn->binding_idx = 0xffff;
 #endif /*ENABLE_BINDING_CACHE*/
 
         while (env) {
@@ -2114,16 +2127,10 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
         }
 
 #if ENABLE_BINDING_CACHE
-        if (env) {
-            /*Store the outer environment's stack pointer.*/
-            if (need_cache) {
-                bn->env_idx = bot->depth - env->depth;
-
-                /*Build the outer environment stack.*/
-                if (!bot->outer_stack)
-                    rjs_env_build_outer_stack(rt, bot);
-            }
-        }
+        /*Store the outer environment's stack pointer. The cache may be
+          disabled by the functions invoked in lookup.*/
+        if (env && need_cache && bot->cache_enable)
+            bn->env_idx = bot->depth - env->depth;
 #endif /*ENABLE_BINDING_CACHE*/
     }
 
-- 
2.43.0


From 4a9da6cf0e4f32fcae49f9dab108f61e77006f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:46 +0000
Subject: [PATCH 79/85] fix: variables declared by eval in a with statement do
 not conflict with the properties

---
 src/lib/rjs_eval_opt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/rjs_eval_opt.c b/src/lib/rjs_eval_opt.c
index fc9ca68..0689b2f 100644
--- a/src/lib/rjs_eval_opt.c
+++ b/src/lib/rjs_eval_opt.c
@@ -79,6 +79,12 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
 
         curr_env = lex_env;
         while (curr_env != var_env) {
+            /*The bindings of a "with" object do not conflict.*/
+            if (curr_env->gc_thing.ops->type == RJS_GC_THING_OBJECT_ENV) {
+                curr_env = curr_env->outer;
+                continue;
+            }
+
             for (id = var_grp->binding_start;
                     id < var_grp->binding_start + var_grp->binding_num;
                     id ++) {
-- 
2.43.0


From eb6a007d72d877b5e9eadf3b9c59a75a2ef671c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:18 +0000
Subject: [PATCH 80/85] fix: functions declared by eval hide the cached outer
 bindings

---
 src/lib/rjs_eval_opt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_eval_opt.c b/src/lib/rjs_eval_opt.c
index 0689b2f..b38f2d3 100644
--- a/src/lib/rjs_eval_opt.c
+++ b/src/lib/rjs_eval_opt.c
@@ -180,6 +180,10 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
                 if (!r) {
                     rjs_env_create_mutable_binding(rt, var_env, &sbr->binding_name, RJS_TRUE);
                     rjs_env_initialize_binding(rt, var_env, &sbr->binding_name, tmp);
+
+#if ENABLE_BINDING_CACHE
+                    rjs_env_disable_cache(var_env);
+#endif /*ENABLE_BINDING_CACHE*/
                 } else {
                     rjs_env_set_mutable_binding(rt, var_env, &sbr->binding_name, tmp, RJS_FALSE);
                 }
-- 
2.43.0


From 219098d997fc69151fecf9da3f52e93192335f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:31 +0000
Subject: [PATCH 81/85] fix: truncated escape at the end of an encoded URI

---
 src/lib/rjs_uri_functions_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index ddf67b3..98a91bd 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -68,7 +68,7 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
         } else {
             int uc, n;
 
-            if (e - c < 2) {
+            if (e - c < 3) {
                 r = throw_uri_error(rt);
                 goto end;
             }
-- 
2.43.0


From 7eb37dabda96075bd848204289038c00546e67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:51 +0000
Subject: [PATCH 82/85] fix: property names like '01' or ' 1' used as array
 indices

---
 src/lib/rjs_string.c | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index b644dbe..b9cc08f 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -506,24 +506,17 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     uc  = string_get_uchars(s);
     len = s->length;
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            break;
-
-        uc  ++;
-        len --;
-    }
-
     if (!len)
         goto end;
-        
-    if (!rjs_uchar_is_digit(*uc))
+
+    /*Only the canonical form is an index, "01" is a normal property name.*/
+    if ((*uc == '0') && (len > 1))
         goto end;
 
     n = 0;
     while (len) {
         if (!rjs_uchar_is_digit(*uc))
-            break;
+            goto end;
 
         n *= 10;
         n += *uc - '0';
@@ -535,14 +528,6 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
         len --;
     }
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            goto end;
-
-        uc  ++;
-        len --;
-    }
-
     is_idx = RJS_TRUE;
     *pi    = n;
 end:
-- 
2.43.0


From 4123d14237c96b83b5e221501a1a956c929898ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:01 +0000
Subject: [PATCH 83/85] fix: keys like '' and '01' of String objects name a
 character

---
 src/lib/rjs_primitive_object.c | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_primitive_object.c b/src/lib/rjs_primitive_object.c
index a08c7e0..278b2e1 100644
--- a/src/lib/rjs_primitive_object.c
+++ b/src/lib/rjs_primitive_object.c
@@ -65,32 +65,17 @@ static RJS_Result
 string_get_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p, RJS_PropertyDesc *pd)
 {
     RJS_PrimitiveObject *po;
-    RJS_Result           r;
-    RJS_Number           n;
-    uint64_t             idx;
+    int64_t              idx;
     size_t               len;
 
-    if (rjs_value_is_string(rt, p)) {
-        if ((r = rjs_to_number(rt, p, &n)) == RJS_ERR)
-            return r;
-    } else {
-        return RJS_FALSE;
-    }
-
-    if (isinf(n) || isnan(n))
-        return RJS_FALSE;
-
-    if (signbit(n))
-        return RJS_FALSE;
-
-    if (floor(n) != n)
+    /*Only canonical integer indices name the characters, "" and "01" do not.*/
+    if (!rjs_value_is_string(rt, p) || !rjs_string_to_index(rt, p, &idx))
         return RJS_FALSE;
 
     po  = (RJS_PrimitiveObject*)rjs_value_get_object(rt, o);
     len = rjs_string_get_length(rt, &po->value);
 
-    idx = n;
-    if (idx >= len)
+    if ((size_t)idx >= len)
         return RJS_FALSE;
 
     pd->flags = RJS_PROP_FL_DATA|RJS_PROP_FL_ENUMERABLE;
-- 
2.43.0


From 6409d6f48ee987f9f90b72e8d8bbb15b4a7da12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:01 +0000
Subject: [PATCH 84/85] fix: crash when an element is added to an emptied
 sparse array

---
 src/lib/rjs_object.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_object.c b/src/lib/rjs_object.c
index 0e11f04..ac18cac 100644
--- a/src/lib/rjs_object.c
+++ b/src/lib/rjs_object.c
@@ -127,18 +127,15 @@ prop_rbt_to_vec (RJS_Runtime *rt, RJS_Rbt *rbt, size_t len)
     RJS_Property *vec;
     size_t        i;
 
-    if (!rbt)
-        return NULL;
-
     RJS_NEW_N(rt, vec, len);
 
     for (i = 0; i < len; i ++)
         vec[i].attrs = RJS_PROP_ATTR_DELETED;
 
-    if (rbt)
+    if (rbt) {
         prop_rbt_set_vec(rt, rbt, vec, len);
-
-    prop_rbt_free_all(rt, rbt);
+        prop_rbt_free_all(rt, rbt);
+    }
 
     return vec;
 }
-- 
2.43.0


From 0193323beaf35ca2de6b39a6cad3bddbd9f72698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:07 +0000
Subject: [PATCH 85/85] fix: keys visited twice by for-in

---
 src/lib/rjs_for_in_iterator.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index 7994454..fd756af 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -30,10 +30,12 @@ static size_t
 hash_op_string_prop_key (void *data, void *key)
 {
     RJS_Runtime *rt = data;
-    RJS_Value *v     = key;
+    RJS_Value   *v  = key;
+    int64_t      idx;
 
-    if (rjs_value_is_index_string(rt, v))
-        return rjs_value_get_index_string(rt, v);
+    /*An index string may be converted to a normal one, the hash code must not change.*/
+    if (rjs_string_to_index(rt, v, &idx))
+        return idx;
 
     return rjs_string_hash_key(rt, v);
 }
-- 
2.43.0

