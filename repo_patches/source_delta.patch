From ea680d0a839647824876de2a8c0c259be13d36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 01/77] verification hook: force a collection at an allocation
 (guard RJS_VERIF)

---
 src/lib/rjs_gc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/rjs_gc.c b/src/lib/rjs_gc.c
index bf61cb4..29a1961 100644
--- a/src/lib/rjs_gc.c
+++ b/src/lib/rjs_gc.c
@@ -30,6 +30,11 @@
 /*The default mark stack size.*/
 #define RJS_GC_MARK_STACK_SIZE (256)
 
+#ifdef RJS_VERIF
+/*Verification hook: return RJS_TRUE to force a collection when a thing is added.*/
+RJS_Bool (*rjs_verif_gc_hook) (RJS_Runtime *rt);
+#endif /*RJS_VERIF*/
+
 /*Get the next pointer in the thing.*/
 static inline RJS_GcThing*
 gc_thing_get_next (RJS_GcThing *gt)
@@ -220,6 +225,12 @@ rjs_gc_add (RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops)
     if (rt->rb.gc_running) {
         rjs_gc_mark(rt, thing);
     } else {
+#ifdef RJS_VERIF
+        if (rt->rb.gc_enable && rjs_verif_gc_hook && rjs_verif_gc_hook(rt)) {
+            gc_run(rt);
+            return;
+        }
+#endif /*RJS_VERIF*/
         if (rt->rb.gc_enable && (rt->mem_size > RJS_GC_START_SIZE)) {
             if (rt->gc_last_mem_size * 4 < rt->mem_size * 3) {
                 gc_run(rt);
-- 
2.43.0


From 8bf091541211b01d00bf1a40f5e4893bb2ac48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 02/77] fix: normalise -0 keys of Map and Set to +0

---
 src/lib/rjs_hash_object_inc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index ede08b0..8f08c49 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -323,7 +323,11 @@ hash_add (RJS_Runtime *rt, RJS_Value *hashv, RJS_Value *k, size_t esize)
 
         se = rjs_alloc_assert_0(rt, esize);
 
-        rjs_value_copy(rt, &se->key, k);
+        /*-0 is stored as +0.*/
+        if (rjs_value_is_number(rt, k) && (rjs_value_get_number(rt, k) == 0))
+            rjs_value_set_number(rt, &se->key, 0);
+        else
+            rjs_value_copy(rt, &se->key, k);
 
         rjs_hash_insert(&ho->hash, &se->key, &se->he, phe, &rjs_hash_value_ops_0, rt);
         rjs_list_append(&ho->list, &se->ln);
-- 
2.43.0


From 352abb89f47ee0ee060235c8898062234aef0597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 03/77] fix: hash BigInt keys of Map and Set by value

---
 src/lib/rjs_hash.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/rjs_hash.c b/src/lib/rjs_hash.c
index 5d67913..3af8518 100644
--- a/src/lib/rjs_hash.c
+++ b/src/lib/rjs_hash.c
@@ -291,6 +291,15 @@ hash_op_value_key (void *data, void *key)
     case RJS_VALUE_STRING:
         r = rjs_string_hash_key(rt, v);
         break;
+#if ENABLE_BIG_INT
+    case RJS_VALUE_BIG_INT: {
+        int64_t i;
+
+        rjs_big_int_to_int64(rt, v, &i);
+        r = i;
+        break;
+    }
+#endif /*ENABLE_BIG_INT*/
     default:
         r = RJS_PTR2SIZE(rjs_value_get_gc_thing(rt, v));
         break;
-- 
2.43.0


From 5d65c441e088c96220bf08c6dcb3cb7bc15dbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 04/77] fix: account for tail calls in the generated state
 depth

---
 src/lib/rjs_bc_gen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 022eb19..045c942 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -141,11 +141,13 @@ bc_cmd_add_stack_check (RJS_Runtime *rt, RJS_BcGen *bg, RJS_BcType type, int lin
             break;
         case RJS_BC_pop_state:
         case RJS_BC_call:
+        case RJS_BC_tail_call:
         case RJS_BC_super_call:
         case RJS_BC_new:
         case RJS_BC_save_lex_env:
 #if ENABLE_EVAL
         case RJS_BC_eval:
+        case RJS_BC_tail_eval:
 #endif /*ENABLE_EVAL*/
             bg->stack_depth --;
             break;
-- 
2.43.0


From bdc1eabbfe07010d8c132f8f5fdfe3830b1a032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 05/77] fix: complete queued next() requests of a finished
 async generator with undefined

---
 src/lib/rjs_generator_opt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 17d9a48..6c2dc0a 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -431,6 +431,8 @@ rjs_async_generator_drain_queue (RJS_Runtime *rt, RJS_Value *gv)
             ag->generator.state = RJS_GENERATOR_STATE_AWAIT_RETURN;
             async_generator_await_return(rt, gv);
             break;
+        } else if (agr->type == RJS_GENERATOR_REQUEST_NEXT) {
+            rjs_async_generator_complete_step(rt, gv, agr->type, rjs_v_undefined(rt), RJS_TRUE, NULL);
         } else {
             rjs_async_generator_complete_step(rt, gv, agr->type, &agr->value, RJS_TRUE, NULL);
         }
-- 
2.43.0


From 64aa331c95d8ae1741ca50f5e6263c6f682b33da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 06/77] fix: keep the completion of a for-await loop left by
 return or throw

---
 src/lib/rjs_bc_call.c  | 13 +++++++++----
 src/lib/rjs_iterator.c |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 03974fe..e27d0f7 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -48,12 +48,17 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
 
     ASYNC_OP_DEBUG();
 
-    if ((r = rjs_await_async_iterator_close(rt, type, iv, rv)) == RJS_ERR)
-        return r;
-
+    /*The original exception takes precedence over the result of closing.*/
     r = ac->i0;
     if (r == RJS_ERR)
-        rjs_throw(rt, &ac->v0);
+        return rjs_throw(rt, &ac->v0);
+
+    if (rjs_await_async_iterator_close(rt, type, iv, rv) == RJS_ERR)
+        return RJS_ERR;
+
+    /*Keep the value to be returned.*/
+    if (r == RJS_RETURN)
+        rjs_value_copy(rt, rv, &((RJS_ScriptContext*)ac)->retv);
 
     return r;
 }
diff --git a/src/lib/rjs_iterator.c b/src/lib/rjs_iterator.c
index 0d57001..1c4c883 100644
--- a/src/lib/rjs_iterator.c
+++ b/src/lib/rjs_iterator.c
@@ -339,8 +339,9 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
     if ((r = rjs_call(rt, ret, iter->iterator, NULL, 0, res)) == RJS_ERR)
         goto end;
 
+    /*Awaiting may replace the current error.*/
     if (op)
-        r = rjs_await(rt, res, op, ip, vp);
+        r = rjs_await(rt, res, op, ip, (is_err && (vp == &rt->error)) ? err : vp);
 end:
     if (is_err)
         rjs_value_copy(rt, &rt->error, err);
-- 
2.43.0


From 8421866277577bcb50d91b85b8d29a21ed4e5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 07/77] fix: keep the pending exception while an iterator is
 closed

---
 src/lib/rjs_iterator.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_iterator.c b/src/lib/rjs_iterator.c
index 1c4c883..9346292 100644
--- a/src/lib/rjs_iterator.c
+++ b/src/lib/rjs_iterator.c
@@ -294,8 +294,10 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
 
     r = RJS_OK;
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
@@ -343,8 +345,10 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
     if (op)
         r = rjs_await(rt, res, op, ip, (is_err && (vp == &rt->error)) ? err : vp);
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From 81d3101ce7fcd245e7fe3aedb35499e2f0095438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 08/77] fix: a function that ends normally after a discarded
 return yields undefined

---
 src/lib/rjs_bc_call.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index e27d0f7..12de12a 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1324,7 +1324,7 @@ restart:
         }
     }
 
-    rjs_value_set_undefined(rt, rv);
+    rjs_value_set_undefined(rt, &sc->retv);
 
     r = RJS_OK;
 ret:
-- 
2.43.0


From 478acc980191a0dcef6e8e264108894ec67b4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 09/77] fix: do not leave the enclosing scope after a catch
 without parameter

---
 src/lib/rjs_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 53b76d5..6318bf1 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6928,7 +6928,8 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
         r = parse_block(rt, &stmt->catch_block);
 
-        decl_pop(rt);
+        if (stmt->catch_decl)
+            decl_pop(rt);
 
         if (r == RJS_ERR)
             goto end;
-- 
2.43.0


From ad8dc08bd8fd38e7e663092967c9bd8010310f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 10/77] fix: tail calls: a fresh environment per call, and no
 restart after calling a generator or async function

---
 src/lib/rjs_native_stack.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 33d250c..1e2a127 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1149,9 +1149,12 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
     assert(s->type == RJS_STATE_CALL);
 
     if ((flags & RJS_CALL_FL_TCO)
-            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)) {
+            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)
+            && !(((RJS_ScriptContext*)ctxt)->script_func->flags
+                & (RJS_FUNC_FL_CLASS_CONSTR|RJS_FUNC_FL_ASYNC|RJS_FUNC_FL_GENERATOR))) {
         /*Tail call optimize.*/
         RJS_ScriptContext *sc = (RJS_ScriptContext*)ctxt;
+        RJS_Environment   *lex_env;
         RJS_Value         *args;
         size_t             argc;
 
@@ -1172,13 +1175,15 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
         sc->args = args;
         sc->argc = argc;
 
-        /*Bind this argument.*/
-        rt->env         = sc->scb.lex_env;
-        sc->scb.lex_env = sc->scb.var_env;
+        /*The closures may still refer to the old environment, create a new one.*/
+        lex_env = sc->scb.lex_env;
+        rjs_function_env_new(rt, &rt->env, &ctxt->function, rjs_v_undefined(rt));
+        sc->scb.lex_env = rt->env;
+        sc->scb.var_env = rt->env;
 
-        rjs_function_env_clear(rt, sc->scb.var_env);
+        /*Bind this argument.*/
         rjs_ordinary_call_bind_this(rt, &ctxt->function, s->s.s_call.thiz);
-        sc->scb.lex_env = rt->env;
+        sc->scb.lex_env = lex_env;
 
         /*Pop up the states.*/
         while (sp < rt->rb.curr_native_stack->state.item_num) {
@@ -1186,6 +1191,8 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
                 return r;
         }
 
+        sc->scb.lex_env = sc->scb.var_env;
+
         r = RJS_FALSE;
 #if ENABLE_EVAL
     } else if ((flags & RJS_CALL_FL_EVAL)
@@ -1196,7 +1203,11 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
 #endif /*ENABLE_EVAL*/
     } else {
         r = rjs_call(rt, s->s.s_call.func, s->s.s_call.thiz, s->s.s_call.args, s->s.s_call.argc, rv);
-        
+
+        /*RJS_FALSE means the tail call must be run by the caller.*/
+        if (r != RJS_ERR)
+            r = RJS_OK;
+
         rjs_state_pop(rt);
     }
 
-- 
2.43.0


From 8057bd83f475388d87264307f8185052cf5f84ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 11/77] fix: generator objects have no own length

---
 src/lib/rjs_generator_opt.c      | 6 +++---
 src/lib/rjs_script_func_object.c | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 6c2dc0a..c53620e 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -1133,6 +1133,9 @@ rjs_generator_function_new (RJS_Runtime *rt, RJS_Value *f, RJS_Value *def_proto,
     rjs_script_func_object_init(rt, f, sfo, def_proto, script, sf, env, priv_env,
             &generator_function_ops);
 
+    /*Set the length.*/
+    rjs_set_function_length(rt, f, sf->param_len);
+
     /*Set the function's name.*/
     if (sf->name_idx != RJS_INVALID_VALUE_INDEX) {
         RJS_Value *name = &script->value_table[sf->name_idx];
@@ -1140,9 +1143,6 @@ rjs_generator_function_new (RJS_Runtime *rt, RJS_Value *f, RJS_Value *def_proto,
         rjs_set_function_name(rt, f, name, NULL);
     }
 
-    /*Set the length.*/
-    rjs_set_function_length(rt, f, sf->param_len);
-
     /*Set "prototype".*/
     rjs_ordinary_object_create(rt, proto_proto, proto);
 
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 5180168..9d1a952 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -381,7 +381,11 @@ rjs_script_func_object_init (RJS_Runtime *rt, RJS_Value *v, RJS_ScriptFuncObject
 
     rjs_base_func_object_init(rt, v, &sfo->bfo, proto, ops, script);
 
-    rjs_set_function_length(rt, v, sf->param_len);
+#if ENABLE_GENERATOR
+    /*A generator object is not a function.*/
+    if (!(sf->flags & RJS_FUNC_FL_GENERATOR))
+#endif /*ENABLE_GENERATOR*/
+        rjs_set_function_length(rt, v, sf->param_len);
 
     if ((sf->name_idx != RJS_INVALID_VALUE_INDEX)
 #if ENABLE_GENERATOR
-- 
2.43.0


From d1dcdc556f02894d4bd5aa5a865a5ace28010985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 12/77] fix: await the result of a call returned from an async
 generator

---
 src/lib/rjs_bc_gen.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 045c942..8fdebfc 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -2622,6 +2622,14 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
     int            rid;
     RJS_Ast       *ast;
     RJS_BcCommand *cmd;
+    RJS_Bool       tco = bg->tco;
+
+#if ENABLE_ASYNC && ENABLE_GENERATOR
+    /*The returned value must be awaited in the async generator.*/
+    if ((bg->func_ast->flags & RJS_AST_FUNC_FL_ASYNC)
+            && (bg->func_ast->flags & RJS_AST_FUNC_FL_GENERATOR))
+        tco = RJS_FALSE;
+#endif /*ENABLE_ASYNC && ENABLE_GENERATOR*/
 
     rid = bc_reg_add(rt, bg);
 
@@ -2646,9 +2654,9 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
             ast = RJS_CONTAINER_OF(list->list.prev, RJS_Ast, ln);
         }
 
-        if ((ast->type == RJS_AST_CallExpr) && bg->tco) {
+        if ((ast->type == RJS_AST_CallExpr) && tco) {
             bc_gen_call_expr(rt, bg, (RJS_AstCall*)ast, rid, RJS_TRUE);
-        } else if ((ast->type == RJS_AST_Template) && bg->tco) {
+        } else if ((ast->type == RJS_AST_Template) && tco) {
             bc_gen_templ_expr(rt, bg, (RJS_AstTemplate*)ast, rid, RJS_TRUE);
         } else {
 #if ENABLE_ASYNC && ENABLE_GENERATOR
-- 
2.43.0


From c00676777c464409ffbf42c1e407f69e14c65fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 13/77] fix: a jump out of a finally block discards the pending
 return

---
 src/lib/rjs_bc_call.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 12de12a..6e7bfda 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1104,15 +1104,6 @@ end:
             sc->ip = s->s.s_try.finally_ip;\
             goto restart;\
         case RJS_TRY_STATE_FINALLY:\
-            switch (s->s.s_try.next_op) {\
-            case RJS_TRY_NEXT_OP_NORMAL:\
-            case RJS_TRY_NEXT_OP_THROW:\
-                break;\
-            case RJS_TRY_NEXT_OP_RETURN:\
-                rjs_state_pop(rt);\
-                r = RJS_RETURN;\
-                goto ret;\
-            }\
             break;\
         case RJS_TRY_STATE_END:\
             switch (s->s.s_try.next_op) {\
-- 
2.43.0


From 53bfe497fa90980b12e92d73447ba60e3ee11fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 14/77] fix: for-in heads without declaration inside function
 expressions

---
 src/lib/rjs_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 6318bf1..3c97c0f 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6395,6 +6395,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     RJS_Token      *tok, *ntok;
     RJS_AstForStmt *stmt        = NULL;
     RJS_Parser     *parser      = rt->parser;
+    int             old_flags   = parser->flags;
     RJS_Result      r           = RJS_ERR;
     RJS_Bool        is_decl     = RJS_FALSE;
     RJS_Bool        is_async_of = RJS_FALSE;
@@ -6429,6 +6430,9 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     if ((r = get_token_expect(rt, RJS_TOKEN_lparenthese)) == RJS_ERR)
         goto end;
 
+    /*`in' is not an operator in the initializer.*/
+    parser->flags &= ~RJS_PARSE_FL_IN;
+
     tok = get_token(rt);
     if (tok->type == RJS_TOKEN_semicolon) {
         unget_token(rt);
@@ -6485,6 +6489,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
         }
     }
 
+    parser->flags = old_flags;
+
     if (is_decl) {
         RJS_AstList *l = ast_get(rt, &stmt->init);
 
@@ -6637,6 +6643,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
     r = RJS_OK;
 end:
+    parser->flags = old_flags;
+
     if (stmt) {
         if (parser->decl_stack) {
             if (parser->decl_stack == stmt->decl)
-- 
2.43.0


From e695f66e129ade9e5c2adc517b52e605a74486b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 15/77] fix: a call returned from a for-of body is not a tail
 call

---
 src/lib/rjs_bc_gen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 8fdebfc..457dc45 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3369,7 +3369,8 @@ bc_gen_for_in_of_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstForStmt *fs)
         assert(0);
     }
 
-    if (fs->ast.type == RJS_AST_AwaitForOfStmt)
+    /*The iterator must be closed after the returned call, so it is not a tail call.*/
+    if (fs->ast.type != RJS_AST_ForInStmt)
         bg->tco = RJS_FALSE;
 
     /*Run loop statement.*/
-- 
2.43.0


From d65b1ec1ab37a634701dda6fba8eb307a5b7d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 16/77] fix: do not close an iterator whose next() or result
 failed

---
 src/lib/rjs_array_object_inc.c | 9 +++++++--
 src/lib/rjs_hash_object_inc.c  | 8 ++++----
 src/lib/rjs_operation.c        | 8 ++++++--
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index e32663a..b267fd5 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -144,10 +144,13 @@ static RJS_NF(Array_from)
                 goto end;
             }
 
-            if ((r = rjs_iterator_step(rt, &iter_rec, next)) == RJS_ERR)
+            if ((r = rjs_iterator_step(rt, &iter_rec, next)) == RJS_ERR) {
+                use_iter = RJS_FALSE;
                 goto end;
+            }
 
             if (!r) {
+                use_iter = RJS_FALSE;
                 rjs_value_set_number(rt, lenv, k);
 
                 if ((r = rjs_set(rt, rv, rjs_pn_length(rt), lenv, RJS_TRUE)) == RJS_ERR)
@@ -155,8 +158,10 @@ static RJS_NF(Array_from)
                 break;
             }
 
-            if ((r = rjs_iterator_value(rt, next, kv)) == RJS_ERR)
+            if ((r = rjs_iterator_value(rt, next, kv)) == RJS_ERR) {
+                use_iter = RJS_FALSE;
                 goto end;
+            }
 
             if (mapping) {
                 rjs_value_set_number(rt, iv, k);
diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index 8f08c49..b5f1344 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -200,13 +200,13 @@ set_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if ((r = rjs_call(rt, adder, rv, iv, 1, res)) == RJS_ERR)
             goto iter_end;
@@ -270,13 +270,13 @@ map_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!rjs_value_is_object(rt, iv)) {
             r = rjs_throw_type_error(rt, _("the result is not an object"));
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 3988ba9..97689fd 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2234,14 +2234,18 @@ rjs_add_entries_from_iterable (RJS_Runtime *rt, RJS_Value *target, RJS_Value *it
     need_close = RJS_TRUE;
 
     while (1) {
-        if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
+        if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR) {
+            need_close = RJS_FALSE;
             goto end;
+        }
 
         if (!r)
             break;
 
-        if ((r = rjs_iterator_value(rt, ir, item)) == RJS_ERR)
+        if ((r = rjs_iterator_value(rt, ir, item)) == RJS_ERR) {
+            need_close = RJS_FALSE;
             goto end;
+        }
 
         if (!rjs_value_is_object(rt, item)) {
             r = rjs_throw_type_error(rt, _("\"value\" of iterator result is not an object"));
-- 
2.43.0


From 70dd51cdf7126aa6e3ffc0c5789a3bc7732022be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 17/77] fix: do not close the iterator of a rest element whose
 value getter throws

---
 src/lib/rjs_native_stack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 1e2a127..7362b5c 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -463,8 +463,10 @@ rjs_iter_state_rest (RJS_Runtime *rt, RJS_Value *rv)
             break;
         }
 
-        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR)
+        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR) {
+            iter->done = RJS_TRUE;
             goto end;
+        }
 
         if ((r = rjs_create_data_property_or_throw_index(rt, rv, i, item)) == RJS_ERR)
             goto end;
-- 
2.43.0


From 347f70f380ef328631218abe5e9c42e8d08d4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 18/77] fix: an error pending while finally runs is not current

---
 src/lib/rjs_bc_call.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 6e7bfda..fff03d2 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1164,7 +1164,9 @@ end:
 #define bc_finally()\
     RJS_State *s = rjs_state_top(rt);\
     assert(s->type == RJS_STATE_TRY);\
-    s->s.s_try.state = RJS_TRY_STATE_FINALLY;
+    s->s.s_try.state = RJS_TRY_STATE_FINALLY;\
+    /*The pending error has been saved in the state.*/\
+    rt->error_flag = RJS_FALSE;
 
 #define bc_try_end()\
     RJS_State *s = rjs_state_top(rt);\
-- 
2.43.0


From e6dcaf07b49155736e74c600ba3bbfd12a7ca7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 19/77] fix: assigning to a const binding throws in sloppy
 code; a for body may redeclare the loop's let

Const declarations created a silently immutable binding unless the code was
strict; and a block body of a for statement was rejected when its own lexical
declarations shadow those of the head.
---
 src/lib/rjs_parser.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 3c97c0f..e3c47ba 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6630,9 +6630,12 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                     if (he) {
                         RJS_AstDeclItem *ndi = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
 
-                        parse_error(rt, &ndi->ast.location, _("\"%s\" is already defined"),
-                                rjs_string_to_enc_chars(rt, tmp, NULL, NULL));
-                        parse_prev_define_note(rt, &di->ast.location);
+                        /*Only "var" conflicts: the block has its own lexical scope.*/
+                        if (ndi->type == RJS_AST_DECL_VAR) {
+                            parse_error(rt, &ndi->ast.location, _("\"%s\" is already defined"),
+                                    rjs_string_to_enc_chars(rt, tmp, NULL, NULL));
+                            parse_prev_define_note(rt, &di->ast.location);
+                        }
                     }
                 }
             }
@@ -7432,7 +7435,7 @@ parse_lexical_decl (RJS_Runtime *rt, RJS_Value *vs)
         dtype = RJS_AST_DECL_LET;
     } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_const)) {
         type  = RJS_AST_ConstDecl;
-        dtype = RJS_AST_DECL_CONST;
+        dtype = RJS_AST_DECL_STRICT;
     } else {
         parse_unexpect_error(rt, &tok->location, _("`let\' or `const\'"));
         goto end;
-- 
2.43.0


From aa069f21efff9b8ac5dcc3d3f4a9705497f29576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 20/77] fix: var declarations: allow a nested var naming a top
 level function; eval ignores with objects

---
 src/lib/rjs_eval_opt.c | 6 ++++++
 src/lib/rjs_parser.c   | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_eval_opt.c b/src/lib/rjs_eval_opt.c
index fc9ca68..54c2da8 100644
--- a/src/lib/rjs_eval_opt.c
+++ b/src/lib/rjs_eval_opt.c
@@ -79,6 +79,12 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
 
         curr_env = lex_env;
         while (curr_env != var_env) {
+            /*The environment of a "with" statement has no lexical declarations.*/
+            if (curr_env->gc_thing.ops->type == RJS_GC_THING_OBJECT_ENV) {
+                curr_env = curr_env->outer;
+                continue;
+            }
+
             for (id = var_grp->binding_start;
                     id < var_grp->binding_start + var_grp->binding_num;
                     id ++) {
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index e3c47ba..4ae41e7 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -630,8 +630,12 @@ decl_item_add (RJS_Runtime *rt, RJS_AstDeclType type, RJS_Location *loc,
                 if (he) {
                     var_di = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
 
+                    /*Top level functions are treated like "var" except in modules.*/
                     if ((var_di->type != RJS_AST_DECL_VAR)
-                            && (var_di->type != RJS_AST_DECL_PARAMETER)) {
+                            && (var_di->type != RJS_AST_DECL_PARAMETER)
+                            && !((var_di->type == RJS_AST_DECL_FUNCTION)
+                                && !(func->flags & RJS_AST_FUNC_FL_MODULE)
+                                && ((decl == func->lex_decl) || (decl == func->var_decl)))) {
                         parse_error(rt, loc, _("\"%s\" is already defined"),
                                 rjs_string_to_enc_chars(rt, id, NULL, NULL));
                     } else {
-- 
2.43.0


From f13c489fdf475d53306d96cfe104b3a797afc4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 21/77] fix: binding cache: eval-declared and deleted bindings

The cache kept resolving a name to the environment found first when another
activation's direct eval had declared it nearer, when the eval'd binding was
deleted, or when a global property was deleted.
---
 src/lib/rjs_decl_env.c    |  6 ++++--
 src/lib/rjs_environment.c |  6 +++++-
 src/lib/rjs_eval_opt.c    | 21 +++++++++++++--------
 src/lib/rjs_operation.c   | 21 +++++++++++++++------
 4 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/lib/rjs_decl_env.c b/src/lib/rjs_decl_env.c
index 048e29a..8e6c107 100644
--- a/src/lib/rjs_decl_env.c
+++ b/src/lib/rjs_decl_env.c
@@ -175,9 +175,11 @@ binding_name_get_string (RJS_Runtime *rt, RJS_BindingName *n)
 RJS_Result
 rjs_decl_env_op_has_binding (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingName *n)
 {
-    RJS_Binding *b;
+    RJS_Binding    *b;
+    RJS_HashEntry **phe;
 
-    return rjs_decl_env_lookup_binding(rt, env, n, &b, NULL);
+    /*The cached index belongs to the binding's own environment, so do not use it here.*/
+    return rjs_decl_env_lookup_binding(rt, env, n, &b, &phe);
 }
 
 /**
diff --git a/src/lib/rjs_environment.c b/src/lib/rjs_environment.c
index d46ecba..a7901fd 100644
--- a/src/lib/rjs_environment.c
+++ b/src/lib/rjs_environment.c
@@ -41,7 +41,7 @@ rjs_env_init (RJS_Runtime *rt, RJS_Environment *env, RJS_ScriptDecl *decl, RJS_E
 #if ENABLE_BINDING_CACHE
     env->outer_stack  = NULL;
     env->depth        = outer ? outer->depth + 1 : 0;
-    env->cache_enable = RJS_TRUE;
+    env->cache_enable = outer ? outer->cache_enable : RJS_TRUE;
 
     rjs_list_init(&env->back_refs);
 #endif /*ENABLE_BINDING_CACHE*/
@@ -107,6 +107,10 @@ rjs_env_build_outer_stack (RJS_Runtime *rt, RJS_Environment *env)
             e->back_ref.env = env;
             e->env = outer;
 
+            /*The bindings of the outer environment may be changed.*/
+            if (!outer->cache_enable)
+                env->cache_enable = RJS_FALSE;
+
             e ++;
             outer = outer->outer;
         } while (e < le);
diff --git a/src/lib/rjs_eval_opt.c b/src/lib/rjs_eval_opt.c
index 54c2da8..0553fa9 100644
--- a/src/lib/rjs_eval_opt.c
+++ b/src/lib/rjs_eval_opt.c
@@ -58,6 +58,9 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
     RJS_ScriptBindingRef *sbr;
     RJS_ScriptFuncDecl   *sfd;
     RJS_Result            r;
+#if ENABLE_BINDING_CACHE
+    RJS_Bool              update     = RJS_FALSE;
+#endif /*ENABLE_BINDING_CACHE*/
 
     lex_env->script_decl = decl;
 
@@ -180,6 +183,9 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
                 if (!r) {
                     rjs_env_create_mutable_binding(rt, var_env, &sbr->binding_name, RJS_TRUE);
                     rjs_env_initialize_binding(rt, var_env, &sbr->binding_name, tmp);
+#if ENABLE_BINDING_CACHE
+                    update = RJS_TRUE;
+#endif /*ENABLE_BINDING_CACHE*/
                 } else {
                     rjs_env_set_mutable_binding(rt, var_env, &sbr->binding_name, tmp, RJS_FALSE);
                 }
@@ -188,8 +194,6 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
     }
 
     if (var_grp) {
-        RJS_Bool update = RJS_FALSE;
-
         for (id = var_grp->binding_start;
                 id < var_grp->binding_start + var_grp->binding_num;
                 id ++) {
@@ -209,20 +213,21 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
                 if (!r) {
                     rjs_env_create_mutable_binding(rt, var_env, &sbr->binding_name, RJS_TRUE);
                     rjs_env_initialize_binding(rt, var_env, &sbr->binding_name, rjs_v_undefined(rt));
-
+#if ENABLE_BINDING_CACHE
                     update = RJS_TRUE;
+#endif /*ENABLE_BINDING_CACHE*/
                 }
             }
         }
-
-#if ENABLE_BINDING_CACHE
-        if (update)
-            rjs_env_disable_cache(var_env);
-#endif /*ENABLE_BINDING_CACHE*/
     }
 
     r = RJS_OK;
 end:
+#if ENABLE_BINDING_CACHE
+    if (update)
+        rjs_env_disable_cache(var_env);
+#endif /*ENABLE_BINDING_CACHE*/
+
     rjs_value_stack_restore(rt, top);
     return r;
 }
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 97689fd..d81dff0 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2069,19 +2069,27 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
     RJS_Result       r;
 
 #if ENABLE_BINDING_CACHE
+    /*Build the outer environment stack, the cache may be disabled by an outer environment.*/
+    if ((bn->env_idx != 0xffff) && env->cache_enable && !env->outer_stack)
+        rjs_env_build_outer_stack(rt, env);
+
     if ((bn->env_idx != 0xffff) && env->cache_enable) {
         /*The outer environment is already in cache.*/
         if (bn->env_idx) {
             RJS_EnvStackEntry *ent;
 
-            /*Build the outer environment stack.*/
-            if (!env->outer_stack)
-                rjs_env_build_outer_stack(rt, env);
-
             /*Get the outer environment from the stack directly.*/
             ent = &env->outer_stack[bn->env_idx - 1];
             env = ent->env;
         }
+
+        /*The global object's property may be deleted.*/
+        if (env->gc_thing.ops->type == RJS_GC_THING_GLOBAL_ENV) {
+            if ((r = rjs_env_has_binding(rt, env, bn)) == RJS_ERR)
+                return r;
+            if (!r)
+                env = NULL;
+        }
     } else
 #endif /*ENABLE_BINDING_CACHE*/
     {
@@ -2109,11 +2117,12 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
         if (env) {
             /*Store the outer environment's stack pointer.*/
             if (need_cache) {
-                bn->env_idx = bot->depth - env->depth;
-
                 /*Build the outer environment stack.*/
                 if (!bot->outer_stack)
                     rjs_env_build_outer_stack(rt, bot);
+
+                if (bot->cache_enable)
+                    bn->env_idx = bot->depth - env->depth;
             }
         }
 #endif /*ENABLE_BINDING_CACHE*/
-- 
2.43.0


From 81443c3baa2fd1ccd0ea195e50ff94d57ef7e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 22/77] fix: a var named arguments is separate from the
 arguments object seen by parameter expressions

---
 src/lib/rjs_code_gen_inc.c | 22 ++++++++++++++++++++++
 src/lib/rjs_parser.c       |  2 +-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_code_gen_inc.c b/src/lib/rjs_code_gen_inc.c
index 216a9ed..c6c87e9 100644
--- a/src/lib/rjs_code_gen_inc.c
+++ b/src/lib/rjs_code_gen_inc.c
@@ -193,6 +193,25 @@ gen_func (RJS_Runtime *rt, RJS_AstFunc *func)
             func->var_decl, func->param_decl,
             BINDING_INIT_FL_VAR|BINDING_INIT_FL_FUNC|BINDING_INIT_FL_UNDEF);
 
+        if ((func->flags & RJS_AST_FUNC_FL_NEED_ARGS) && (func->var_decl != func->param_decl)) {
+            /*The separate variable "arguments" starts as the arguments object.*/
+            RJS_AstBindingTable *bt;
+            RJS_AstBindingInit  *bi;
+
+            bt = rjs_value_get_gc_thing(rt, &func->var_table);
+            if (bt) {
+                rjs_list_foreach_c(&bt->binding_init_list, bi, RJS_AstBindingInit, ast.ln) {
+                    if (!(bi->flags & RJS_AST_BINDING_INIT_BOT)
+                            && rjs_string_equal(rt, rjs_s_arguments(rt), &bi->binding_ref->name->value)) {
+                        bi->flags &= ~RJS_AST_BINDING_INIT_UNDEF;
+                        bi->flags |= RJS_AST_BINDING_INIT_BOT;
+                        bi->bot_binding_ref = binding_ref_new(rt, func->param_decl,
+                                &func->ast.location, rjs_s_arguments(rt));
+                    }
+                }
+            }
+        }
+
         /*Create lexical declarations table.*/
         binding_init_table(rt, &func->lex_table, func->lex_decl,
             BINDING_INIT_FL_LEX);
@@ -851,6 +870,9 @@ rjs_code_gen_binding_table_idx (RJS_Runtime *rt, RJS_AstBindingTable *bt)
 
         rjs_list_foreach_c(&bt->binding_init_list, bi, RJS_AstBindingInit, ast.ln) {
             rjs_code_gen_binding_ref_idx(rt, bi->binding_ref);
+
+            if (bi->flags & RJS_AST_BINDING_INIT_BOT)
+                rjs_code_gen_binding_ref_idx(rt, bi->bot_binding_ref);
         }
     }
 
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 4ae41e7..04f3295 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -1352,7 +1352,7 @@ func_pop (RJS_Runtime *rt)
                 || !(func->flags & RJS_AST_FUNC_FL_SIMPLE_PARAM))
             func->flags |= RJS_AST_FUNC_FL_UNMAP_ARGS;
 
-        if (func->var_decl) {
+        if (func->var_decl == func->param_decl) {
             /*Remove the "arguments" variable. It is already initialized.*/
             he = hash_lookup(rt, &func->var_decl->item_hash, rjs_s_arguments(rt), &phe);
             if (he) {
-- 
2.43.0


From 16c2b0012f75226aa5442f720589128d5e25e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 23/77] fix: private environments are stored under their own
 index

---
 src/lib/rjs_code_gen_inc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_code_gen_inc.c b/src/lib/rjs_code_gen_inc.c
index c6c87e9..653d681 100644
--- a/src/lib/rjs_code_gen_inc.c
+++ b/src/lib/rjs_code_gen_inc.c
@@ -466,12 +466,13 @@ gen_script_internal (RJS_Runtime *rt, RJS_Script *script)
         RJS_NEW_N(rt, script->priv_id_table, script->priv_id_num);
         RJS_NEW_N(rt, script->priv_env_table, script->priv_env_num);
 
-        env = script->priv_env_table;
         pid = script->priv_id_table;
         idx = 0;
 
         rjs_list_foreach_c(&parser->priv_env_list, ast_env, RJS_AstPrivEnv, ast.ln) {
             if (ast_env->id != -1) {
+                env = &script->priv_env_table[ast_env->id];
+
                 env->priv_id_start = idx;
                 env->priv_id_num   = ast_env->priv_id_hash.entry_num;
 
@@ -481,7 +482,6 @@ gen_script_internal (RJS_Runtime *rt, RJS_Script *script)
                 }
 
                 idx += env->priv_id_num;
-                env ++;
             }
         }
     }
-- 
2.43.0


From 8f0f001da451ccabf9eee6e6c9f08c684f35f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 24/77] fix: static private methods and instance fields exist
 before static initialisers run

---
 src/lib/rjs_native_stack.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 7362b5c..f3fe61a 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -680,24 +680,38 @@ rjs_class_state_init (RJS_Runtime *rt)
             sf->is_af = se->is_af;
             sf ++;
             break;
+        case RJS_CLASS_ELEMENT_STATIC_INIT:
+        case RJS_CLASS_ELEMENT_FIELD:
+            break;
+        default:
+            assert(0);
+            break;
+        }
+
+        s = rjs_state_top(rt);
+    }
+
+    bfo->clazz = clazz;
+
+    /*Initialize the static fields and run the static blocks.*/
+    rjs_list_foreach_c(s->s.s_class.elem_list, se, RJS_StateClassElement, ln) {
+        switch (se->type) {
         case RJS_CLASS_ELEMENT_STATIC_INIT:
             if ((r = rjs_call(rt, &se->value, s->s.s_class.constr, NULL, 0, NULL)) == RJS_ERR)
-                goto end;
+                return r;
             break;
         case RJS_CLASS_ELEMENT_FIELD:
             if ((r = rjs_define_field(rt, s->s.s_class.constr, &se->name, &se->value, se->is_af)) == RJS_ERR)
-                goto end;
+                return r;
             break;
         default:
-            assert(0);
             break;
         }
 
         s = rjs_state_top(rt);
     }
 
-    bfo->clazz = clazz;
-    r = RJS_OK;
+    return RJS_OK;
 end:
     if (r == RJS_ERR) {
 #if ENABLE_PRIV_NAME
-- 
2.43.0


From ddaa75f99869d50977c20e4e3e50026c2718cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 25/77] fix: template literals convert each substitution before
 evaluating the next

---
 gen/bc/bc.json        |  1 +
 src/lib/rjs_bc_call.c |  4 ++++
 src/lib/rjs_bc_gen.c  | 11 +++++++++++
 3 files changed, 16 insertions(+)

diff --git a/gen/bc/bc.json b/gen/bc/bc.json
index 5f670b8..e894f21 100644
--- a/gen/bc/bc.json
+++ b/gen/bc/bc.json
@@ -155,6 +155,7 @@
             "to_number",
             "to_numeric",
             "to_prop",
+            "to_string",
             "negative",
             "reverse",
             "typeof",
diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index fff03d2..8b09e08 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -271,6 +271,10 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
     if ((r = rjs_to_property_key(rt, operand, result)) == RJS_ERR)\
         goto error;
 
+#define bc_to_string(operand, result)\
+    if ((r = rjs_to_string(rt, operand, result)) == RJS_ERR)\
+        goto error;
+
 #define bc_require_object(value)\
     if ((r = rjs_require_object_coercible(rt, value)) == RJS_ERR)\
         goto error;
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 457dc45..817c60c 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1611,6 +1611,17 @@ bc_gen_templ_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTemplate *expr, int ri
 
         line = ast->location.first_line;
 
+        /*A substitution is converted before the next one is evaluated.*/
+        if (fr == -1) {
+            int sr = bc_reg_add(rt, bg);
+
+            cid = bc_cmd_add(rt, bg, RJS_BC_to_string, line);
+            cmd = bc_cmd_get(bg, cid);
+            cmd->unary.operand = tr;
+            cmd->unary.result  = sr;
+            tr = sr;
+        }
+
         cid = bc_cmd_add(rt, bg, RJS_BC_arg_add, line);
         cmd = bc_cmd_get(bg, cid);
         cmd->store.value = tr;
-- 
2.43.0


From 8a285ebd36b74e43053ed7501c9d8f9eb3c43f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 26/77] fix: relational operators convert their operands with
 hint number

---
 src/lib/rjs_bc_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 8b09e08..3e80b65 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -610,9 +610,9 @@ do_bc_compare (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     RJS_Value *n2  = rjs_value_stack_push(rt);
     RJS_Result r;
 
-    if ((r = rjs_to_primitive(rt, v1, p1, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v1, p1, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
-    if ((r = rjs_to_primitive(rt, v2, p2, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v2, p2, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
 
     if (rjs_value_is_string(rt, p1) && rjs_value_is_string(rt, p2)) {
-- 
2.43.0


From edb827e3de104a3f43d25af94273145831a9c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 27/77] fix: the in operator evaluates its right operand before
 converting the key

---
 src/lib/rjs_bc_gen.c    |  9 +--------
 src/lib/rjs_operation.c | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 817c60c..9a092f6 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1286,14 +1286,7 @@ bc_gen_in_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstBinaryExpr *expr, int rid
     } else
 #endif /*ENABLE_PRIV_NAME*/
     {
-        int tr = bc_reg_add(rt, bg);
-
-        bc_gen_expr(rt, bg, ast, tr);
-
-        cid = bc_cmd_add(rt, bg, RJS_BC_to_prop, line);
-        cmd = bc_cmd_get(bg, cid);
-        cmd->unary.operand = tr;
-        cmd->unary.result  = r1;
+        bc_gen_expr(rt, bg, ast, r1);
 
         bc_type = RJS_BC_has_prop;
     }
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index d81dff0..7c00f0c 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -576,16 +576,24 @@ end:
 RJS_Result
 rjs_has_property (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p)
 {
+    size_t           top = rjs_value_stack_save(rt);
+    RJS_Value       *key = rjs_value_stack_push(rt);
     RJS_PropertyName pn;
     RJS_Result       r;
 
-    if (!rjs_value_is_object(rt, o))
-        return rjs_throw_type_error(rt, _("the value is not an object"));
+    if (!rjs_value_is_object(rt, o)) {
+        r = rjs_throw_type_error(rt, _("the value is not an object"));
+        goto end;
+    }
+
+    if ((r = rjs_to_property_key(rt, p, key)) == RJS_ERR)
+        goto end;
 
-    rjs_property_name_init(rt, &pn, p);
+    rjs_property_name_init(rt, &pn, key);
     r = rjs_object_has_property(rt, o, &pn);
     rjs_property_name_deinit(rt, &pn);
-
+end:
+    rjs_value_stack_restore(rt, top);
     return r;
 }
 
-- 
2.43.0


From 89ff748989196900b2752f182710e75c0fdd2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 28/77] fix: the base of an assignment target is checked after
 evaluating the value

---
 src/lib/rjs_bc_gen.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 9a092f6..a5913f4 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -438,9 +438,9 @@ bc_gen_binding_init (RJS_Runtime *rt, RJS_BcGen *bg, int line, RJS_AstBindingRef
     return RJS_OK;
 }
 
-/*Generate reference.*/
+/*Generate reference, checking that the base of a property can be converted to object or not.*/
 static RJS_Result
-bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *ref)
+bc_gen_ref_base (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *ref, RJS_Bool check)
 {
     int            cid;
     int            line;
@@ -490,9 +490,11 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
 
             line = line1;
 
-            cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
-            cmd = bc_cmd_get(bg, cid);
-            cmd->store.value = ref->base_rid;
+            if (check) {
+                cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
+                cmd = bc_cmd_get(bg, cid);
+                cmd->store.value = ref->base_rid;
+            }
         } else {
             int tmp_rid = bc_reg_add(rt, bg);
 
@@ -502,9 +504,11 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
 
             bc_gen_expr(rt, bg, ast, tmp_rid);
 
-            cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
-            cmd = bc_cmd_get(bg, cid);
-            cmd->store.value = ref->base_rid;
+            if (check) {
+                cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
+                cmd = bc_cmd_get(bg, cid);
+                cmd->store.value = ref->base_rid;
+            }
 
             cid = bc_cmd_add(rt, bg, RJS_BC_to_prop, line);
             cmd = bc_cmd_get(bg, cid);
@@ -572,14 +576,14 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         RJS_AstUnaryExpr *ue  = (RJS_AstUnaryExpr*)expr;
         RJS_Ast          *ast = bc_ast_get(rt, &ue->operand);
 
-        bc_gen_ref(rt, bg, ast, rid, ref);
+        bc_gen_ref_base(rt, bg, ast, rid, ref, check);
         break;
     }
     case RJS_AST_OptionalBase: {
         RJS_AstUnaryExpr *ue  = (RJS_AstUnaryExpr*)expr;
         RJS_Ast          *ast = bc_ast_get(rt, &ue->operand);
 
-        bc_gen_ref(rt, bg, ast, rid, ref);
+        bc_gen_ref_base(rt, bg, ast, rid, ref, check);
 
         ref->opt_base = RJS_TRUE;
         break;
@@ -594,7 +598,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         bg->opt_end_label  = bc_label_add(rt, bg);
         bg->opt_res_reg    = rid;
 
-        bc_gen_ref(rt, bg, ast, rid, ref);
+        bc_gen_ref_base(rt, bg, ast, rid, ref, check);
 
         ref->opt_expr = RJS_TRUE;
         break;
@@ -612,6 +616,13 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
     return RJS_OK;
 }
 
+/*Generate reference.*/
+static RJS_Result
+bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *ref)
+{
+    return bc_gen_ref_base(rt, bg, expr, rid, ref, RJS_TRUE);
+}
+
 /*Get this value from the reference.*/
 static RJS_Result
 bc_ref_get_this (RJS_Runtime *rt, RJS_BcGen *bg, int line, int *tr, RJS_BcRef *ref)
@@ -1021,7 +1032,8 @@ static RJS_Result
 bc_gen_assi_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *lh, RJS_BcRef *ref)
 {
     if ((lh->type != RJS_AST_ArrayBinding) && (lh->type != RJS_AST_ObjectBinding)) {
-        bc_gen_ref(rt, bg, lh, -1, ref);
+        /*The base is checked when the value is assigned.*/
+        bc_gen_ref_base(rt, bg, lh, -1, ref, RJS_FALSE);
     }
 
     return RJS_OK;
@@ -1068,7 +1080,7 @@ bc_gen_assi_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstBinaryExpr *expr, int r
         else
             bc_gen_object_assi(rt, bg, (RJS_AstList*)ast, rid);
     } else {
-        bc_gen_ref(rt, bg, ast, -1, &ref);
+        bc_gen_ref_base(rt, bg, ast, -1, &ref, RJS_FALSE);
 
         ast = bc_ast_get(rt, &expr->operand2);
         bc_gen_expr(rt, bg, ast, rid);
-- 
2.43.0


From 1bb1228b49daa7eaf7176e97f8db1dbc9051a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 29/77] fix: optional call of an optional chain short-circuits

---
 src/lib/rjs_bc_gen.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index a5913f4..9a25000 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -725,6 +725,16 @@ bc_ref_get_value (RJS_Runtime *rt, RJS_BcGen *bg, int line, int rid, RJS_BcRef *
         break;
     }
 
+    /*An optional expression used as optional base ends first.*/
+    if (ref->opt_expr) {
+        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->stub.label = bg->opt_end_label;
+
+        bg->opt_end_label = ref->old_opt_label;
+        bg->opt_res_reg   = ref->old_opt_reg;
+    }
+
     if (ref->opt_base) {
         int cr  = bc_reg_add(rt, bg);
         int lop = bc_label_add(rt, bg);
@@ -752,15 +762,6 @@ bc_ref_get_value (RJS_Runtime *rt, RJS_BcGen *bg, int line, int rid, RJS_BcRef *
         cmd->stub.label = lop;
     }
 
-    if (ref->opt_expr) {
-        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
-        cmd = bc_cmd_get(bg, cid);
-        cmd->stub.label = bg->opt_end_label;
-
-        bg->opt_end_label = ref->old_opt_label;
-        bg->opt_res_reg   = ref->old_opt_reg;
-    }
-
     return RJS_OK;
 }
 
-- 
2.43.0


From c1bfed29a9da6affd6ead3f01859392706996b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 30/77] fix: a generator or async function works as setter

---
 src/lib/rjs_object.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_object.c b/src/lib/rjs_object.c
index 0e11f04..72325ef 100644
--- a/src/lib/rjs_object.c
+++ b/src/lib/rjs_object.c
@@ -1113,7 +1113,9 @@ end1:
             goto end;
         }
 
-        r = rjs_call(rt, pd.set, receiver, pv, 1, tmp);
+        /*The setter may be a generator or async function, its call result is not RJS_TRUE.*/
+        if ((r = rjs_call(rt, pd.set, receiver, pv, 1, tmp)) != RJS_ERR)
+            r = RJS_TRUE;
     }
 end:
     rjs_property_desc_deinit(rt, &pd);
-- 
2.43.0


From 86d12af91bbb3f6bf852e5f2c5a2729e07efe31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 31/77] fix: only canonical numeric strings are array and
 string indices

"01", " 1" and the empty string were treated as the index 1 or 0, so they
aliased another property.
---
 src/lib/rjs_primitive_object.c | 10 ++++------
 src/lib/rjs_string.c           | 23 ++++-------------------
 2 files changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/lib/rjs_primitive_object.c b/src/lib/rjs_primitive_object.c
index a08c7e0..271f880 100644
--- a/src/lib/rjs_primitive_object.c
+++ b/src/lib/rjs_primitive_object.c
@@ -65,17 +65,15 @@ static RJS_Result
 string_get_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p, RJS_PropertyDesc *pd)
 {
     RJS_PrimitiveObject *po;
-    RJS_Result           r;
     RJS_Number           n;
     uint64_t             idx;
     size_t               len;
 
-    if (rjs_value_is_string(rt, p)) {
-        if ((r = rjs_to_number(rt, p, &n)) == RJS_ERR)
-            return r;
-    } else {
+    if (!rjs_value_is_string(rt, p))
+        return RJS_FALSE;
+
+    if (!rjs_canonical_numeric_index_string(rt, p, &n))
         return RJS_FALSE;
-    }
 
     if (isinf(n) || isnan(n))
         return RJS_FALSE;
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index d0e2059..6857d98 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -494,24 +494,17 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     uc  = string_get_uchars(s);
     len = s->length;
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            break;
-
-        uc  ++;
-        len --;
-    }
-
+    /*An array index is a canonical number: no spaces, no leading zeros.*/
     if (!len)
         goto end;
-        
-    if (!rjs_uchar_is_digit(*uc))
+
+    if ((*uc == '0') && (len > 1))
         goto end;
 
     n = 0;
     while (len) {
         if (!rjs_uchar_is_digit(*uc))
-            break;
+            goto end;
 
         n *= 10;
         n += *uc - '0';
@@ -523,14 +516,6 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
         len --;
     }
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            goto end;
-
-        uc  ++;
-        len --;
-    }
-
     is_idx = RJS_TRUE;
     *pi    = n;
 end:
-- 
2.43.0


From 168da46350ddd5202c2bc012c71be4fae07066db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 32/77] fix: keep the for-in iterator's object reachable while
 the iterator is made

---
 src/lib/rjs_for_in_iterator.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index 7994454..35d19d9 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -122,20 +122,20 @@ rjs_for_in_iterator_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *v)
 
     RJS_NEW(rt, fii);
 
-    if (rjs_value_is_null(rt, v) || rjs_value_is_undefined(rt, v)) {
-        fii->visited = RJS_TRUE;
-        rjs_value_set_null(rt, &fii->v);
-    } else {
-        fii->visited = RJS_FALSE;
-
-        rjs_to_object(rt, v, &fii->v);
-    }
-
+    /*The GC can run while the value is converted, so the iterator is added to the GC first.*/
+    fii->visited = RJS_TRUE;
+    rjs_value_set_null(rt, &fii->v);
     rjs_value_set_undefined(rt, &fii->keys);
     rjs_hash_init(&fii->key_hash);
 
     r = rjs_object_init(rt, iterv, &fii->object, rjs_o_ForInIteratorPrototype(realm), &for_in_iterator_ops);
 
+    if (!rjs_value_is_null(rt, v) && !rjs_value_is_undefined(rt, v)) {
+        fii->visited = RJS_FALSE;
+
+        rjs_to_object(rt, v, &fii->v);
+    }
+
     return r;
 }
 
-- 
2.43.0


From 35166577ab3b8437647d5d824e2092fa7e2c5a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 33/77] fix: an emptied sparse array can become dense again

---
 src/lib/rjs_object.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_object.c b/src/lib/rjs_object.c
index 72325ef..d7277ac 100644
--- a/src/lib/rjs_object.c
+++ b/src/lib/rjs_object.c
@@ -127,18 +127,15 @@ prop_rbt_to_vec (RJS_Runtime *rt, RJS_Rbt *rbt, size_t len)
     RJS_Property *vec;
     size_t        i;
 
-    if (!rbt)
-        return NULL;
-
     RJS_NEW_N(rt, vec, len);
 
     for (i = 0; i < len; i ++)
         vec[i].attrs = RJS_PROP_ATTR_DELETED;
 
-    if (rbt)
+    if (rbt) {
         prop_rbt_set_vec(rt, rbt, vec, len);
-
-    prop_rbt_free_all(rt, rbt);
+        prop_rbt_free_all(rt, rbt);
+    }
 
     return vec;
 }
-- 
2.43.0


From 19a23fc0af18398ba9d7e67faf926f18447f572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 34/77] fix: isSealed and isFrozen propagate errors of
 isExtensible

---
 src/lib/rjs_operation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 7c00f0c..9c743f0 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1027,7 +1027,10 @@ rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel leve
 
     rjs_property_desc_init(rt, &pd);
 
-    if (rjs_object_is_extensible(rt, o)) {
+    if ((r = rjs_object_is_extensible(rt, o)) == RJS_ERR)
+        goto end;
+
+    if (r) {
         r = RJS_FALSE;
         goto end;
     }
-- 
2.43.0


From b14550d50f59da9015e272aeedd9f890986f0cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 35/77] fix: proxy traps propagate errors of the target's
 isExtensible

---
 src/lib/rjs_proxy_object_opt.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index f08b8c3..cd54aa1 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -84,7 +84,10 @@ proxy_object_op_get_prototype_of (RJS_Runtime *rt, RJS_Value *o, RJS_Value *prot
         goto end;
     }
 
-    if (rjs_object_is_extensible(rt, target)) {
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+
+    if (r) {
         r = RJS_OK;
         goto end;
     }
@@ -192,7 +195,11 @@ proxy_object_op_is_extensible (RJS_Runtime *rt, RJS_Value *o)
         goto end;
 
     b1 = rjs_to_boolean(rt, tmp);
-    b2 = rjs_object_is_extensible(rt, target);
+
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+
+    b2 = r;
 
     if (b1 != b2) {
         r = rjs_throw_type_error(rt, _("proxy result mismatch"));
@@ -505,8 +512,15 @@ proxy_object_op_has_property (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *p
         if ((r = rjs_object_get_own_property(rt, target, pn, &target_pd)) == RJS_ERR)
             goto end1;
         if (r) {
-            if (!(target_pd.flags & RJS_PROP_FL_CONFIGURABLE)
-                    || !rjs_object_is_extensible(rt, target)) {
+            if (!(target_pd.flags & RJS_PROP_FL_CONFIGURABLE)) {
+                r = rjs_throw_type_error(rt, _("proxy result mismatch"));
+                goto end1;
+            }
+
+            if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+                goto end1;
+
+            if (!r) {
                 r = rjs_throw_type_error(rt, _("proxy result mismatch"));
                 goto end1;
             }
@@ -726,8 +740,15 @@ proxy_object_op_delete (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn)
         goto end;
     }
 
-    if (!(tpd->flags & RJS_PROP_FL_CONFIGURABLE)
-            || !rjs_object_is_extensible(rt, target)) {
+    if (!(tpd->flags & RJS_PROP_FL_CONFIGURABLE)) {
+        r = rjs_throw_type_error(rt, _("proxy result mismatch"));
+        goto end;
+    }
+
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+
+    if (!r) {
         r = rjs_throw_type_error(rt, _("proxy result mismatch"));
         goto end;
     }
-- 
2.43.0


From 506fdd4e091501da68e8e4f041b480c97cef28d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 36/77] fix: for-in continues after a symbol key of a proxy

---
 src/lib/rjs_for_in_iterator.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index 35d19d9..68cde20 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -199,8 +199,6 @@ for_in_iterator_proto_next (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_
                             }
                         }
                     }
-                } else {
-                    break;
                 }
 
                 fii->id ++;
-- 
2.43.0


From ead5c5b1adb20b1adba83ef85ee16f72ab85ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 37/77] fix: splice and unshift move only the elements that
 have to move

---
 src/lib/rjs_array_object_inc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index b267fd5..50590fe 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2495,7 +2495,7 @@ static RJS_NF(Array_prototype_splice)
         goto end;
 
     if (insert_cnt < act_del_cnt) {
-        for (k = act_start; k < len; k ++) {
+        for (k = act_start; k < len - act_del_cnt; k ++) {
             rjs_value_set_number(rt, idx, k + act_del_cnt);
             rjs_to_string(rt, idx, pk);
 
@@ -2522,7 +2522,7 @@ static RJS_NF(Array_prototype_splice)
                 goto end;
         }
     } else if (insert_cnt > act_del_cnt) {
-        for (k = len - act_del_cnt; k >= act_start; k --) {
+        for (k = len - act_del_cnt; k > act_start; k --) {
             rjs_value_set_number(rt, idx, k + act_del_cnt - 1);
             rjs_to_string(rt, idx, pk);
 
@@ -2910,7 +2910,7 @@ static RJS_NF(Array_prototype_unshift)
             goto end;
         }
 
-        for (k = len; k >= 0; k --) {
+        for (k = len; k > 0; k --) {
             rjs_value_set_number(rt, idx, k - 1);
             rjs_to_string(rt, idx, pk);
 
-- 
2.43.0


From cd9d3162677cba43648e8c45df43baff7de97ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 38/77] fix: big integer subtraction drops the borrow once it
 is used

---
 src/lib/rjs_big_int_internal_opt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index d40a6fc..45ca8c6 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1168,7 +1168,8 @@ bi_self_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, src1, i, v)) == RJS_ERR)
@@ -1220,7 +1221,8 @@ bi_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, dst, i, v)) == RJS_ERR)
-- 
2.43.0


From 244617733ef2c8920d4d48d3058f0d3eca7fc47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 39/77] fix: big integer products by a factor whose last word
 is 1 have the right sign

---
 src/lib/rjs_big_int_internal_opt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 45ca8c6..4377e91 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -318,7 +318,11 @@ bi_mul_int (RJS_Runtime *rt, RJS_BI *src, uint32_t n, RJS_BI *dst, int shift)
         bi_set_0(dst);
         return RJS_OK;
     } else if ((n == 1) && (shift == 0)) {
-        return bi_dup(rt, dst, src);
+        if ((r = bi_dup(rt, dst, src)) == RJS_ERR)
+            return r;
+
+        dst->size = size;
+        return RJS_OK;
     }
 
     bi_set_0(dst);
-- 
2.43.0


From 3ef395c4494b249df18fc5dd994b58a3bd404dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 40/77] fix: a negative big integer keeps its sign when raised
 to 1n

---
 src/lib/rjs_big_int_internal_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 4377e91..2d70122 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1780,6 +1780,7 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
     } else if (e == 1) {
         if ((r = bi_dup(rt, dst, src1)) == RJS_ERR)
             goto end;
+        dst->size = RJS_ABS(dst->size);
     } else {
         bi_map_resize(rt, &emap, 1);
         pbi = emap.items;
-- 
2.43.0


From 4fc9bee61a9336f175ac8ce539533d6e322755f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 41/77] fix: shifts of negative big integers keep sign words
 that are zero

---
 src/lib/rjs_big_int_internal_opt.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 2d70122..da1bbdc 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1922,22 +1922,22 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
             left = v >> 32;
         }
 
-        if (left) {
-            if (pos1 < 0)
-                left |= 0xffffffff << bits;
+        if ((pos1 < 0) && bits)
+            left |= 0xffffffff << bits;
 
+        if (left) {
             if ((r = bi_set_item(rt, d, i, left)) == RJS_ERR)
                 goto end;
         }
     }
 
-    bi_end(d);
-
     if (pos1 < 0) {
         if ((r = bi_complement(rt, d, dst)) == RJS_ERR)
             goto end;
 
         dst->size = - dst->size;
+    } else {
+        bi_end(d);
     }
 
     r = RJS_OK;
-- 
2.43.0


From 00b3547a653ef9a7623c07bdd30a03952bcd7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 42/77] fix: asIntN and asUintN extend the sign of negative big
 integers

---
 src/lib/rjs_big_int_internal_opt.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index da1bbdc..1176bbf 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -2239,40 +2239,42 @@ bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
     RJS_BI    *inp;
     int        size;
     int64_t    off, b, i;
-    uint32_t   n;
+    uint32_t   n, ext;
     RJS_Result r;
 
     bi_init(&tmp);
 
+    size = bi_size(src);
+
     if (bi_positive(src) < 0) {
         inp = &tmp;
+        ext = 0xffffffff;
 
         if ((r = bi_complement(rt, src, inp)) == RJS_ERR)
             goto end;
     } else {
         inp = src;
+        ext = 0;
     }
 
-    size = bi_size(inp);
-
     off = bits / 32;
     b   = bits % 32;
 
-    for (i = 0; i < off; i ++) {
+    for (i = 0; (i < off) && (ext || (i < size)); i ++) {
         if (i < size)
             n = inp->n[i];
         else
-            n = 0;
+            n = ext;
 
         if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
             goto end;
     }
 
-    if (b) {
+    if (b && (i == off)) {
         if (i < size)
             n = inp->n[i];
         else
-            n = 0;
+            n = ext;
 
         n &= ~(0xffffffff << b);
 
-- 
2.43.0


From 30c5fdb9c66ecc8c9c9bddb19c524809b95d416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 43/77] fix: Number() of a big integer beyond 64 bits

---
 src/lib/rjs_number_object_inc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 9f304f2..1a18a09 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -44,12 +44,11 @@ static RJS_NF(Number_constructor)
 
 #if ENABLE_BIG_INT
         if (rjs_value_is_big_int(rt, prim)) {
-            int64_t i;
-
-            if ((r = rjs_big_int_to_int64(rt, prim, &i)) == RJS_ERR)
+            if ((r = rjs_big_int_to_string(rt, prim, 10, nv)) == RJS_ERR)
                 goto end;
 
-            n = i;
+            if ((r = rjs_to_number(rt, nv, &n)) == RJS_ERR)
+                goto end;
         } else
 #endif /*ENABLE_BIG_INT*/
         {
-- 
2.43.0


From 23a34e8d5dee2e53c2ce940e54c676839cf6bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 44/77] fix: integer conversions of numbers beyond 2^63

---
 include/ratjs/rjs_operation.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index cd5419e..88b2135 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -723,6 +723,20 @@ rjs_to_integer_or_infinity (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
     return RJS_OK;
 }
 
+/**
+ * Convert the finite number to an integer that is equal to it modulo 2^32.
+ * \param n The finite number.
+ * \return The integer.
+ */
+static inline int64_t
+rjs_number_to_int64_mod32 (RJS_Number n)
+{
+    if (fabs(n) >= 9223372036854775808.)
+        n = fmod(n, 4294967296.);
+
+    return (int64_t)n;
+}
+
 /**
  * Convert the value to 8 bits signed integer.
  * \param rt The current runtime.
@@ -743,7 +757,7 @@ rjs_to_int8 (RJS_Runtime *rt, RJS_Value *v, int8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_mod32(n);
     }
 
     return RJS_OK;
@@ -769,7 +783,7 @@ rjs_to_uint8 (RJS_Runtime *rt, RJS_Value *v, uint8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_mod32(n);
     }
 
     return RJS_OK;
@@ -834,7 +848,7 @@ rjs_to_int16 (RJS_Runtime *rt, RJS_Value *v, int16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_mod32(n);
     }
 
     return RJS_OK;
@@ -860,7 +874,7 @@ rjs_to_uint16 (RJS_Runtime *rt, RJS_Value *v, uint16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_mod32(n);
     }
 
     return RJS_OK;
@@ -886,7 +900,7 @@ rjs_to_int32 (RJS_Runtime *rt, RJS_Value *v, int32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_mod32(n);
     }
 
     return RJS_OK;
@@ -912,7 +926,7 @@ rjs_to_uint32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_int64_mod32(n);
     }
 
     return RJS_OK;
-- 
2.43.0


From c1a1f4766cae0168952fdd9c89fb4184d6a0ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 45/77] fix: >>> converts its operands with ToUint32 and masks
 the count

---
 src/lib/rjs_number.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_number.c b/src/lib/rjs_number.c
index 2df6116..7a1606c 100644
--- a/src/lib/rjs_number.c
+++ b/src/lib/rjs_number.c
@@ -95,9 +95,14 @@ rjs_number_signed_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJ
 void
 rjs_number_unsigned_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
 {
-    uint32_t n1 = rjs_value_get_number(rt, v1);
-    uint32_t n2 = rjs_value_get_number(rt, v2);
-    uint32_t rn = n1 >> n2;
+    uint32_t n1 = 0;
+    uint32_t n2 = 0;
+    uint32_t rn;
+
+    rjs_to_uint32(rt, v1, &n1);
+    rjs_to_uint32(rt, v2, &n2);
+
+    rn = n1 >> (n2 & 31);
 
     rjs_value_set_number(rt, rv, rn);
 }
-- 
2.43.0


From 74bb30a3258b0db25f087e2080193a42a78c2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 46/77] fix: parseInt stops at the first character that is no
 digit of the radix

---
 src/lib/rjs_strtoi.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_strtoi.c b/src/lib/rjs_strtoi.c
index e30d5e6..91c9726 100644
--- a/src/lib/rjs_strtoi.c
+++ b/src/lib/rjs_strtoi.c
@@ -36,6 +36,7 @@ double
 rjs_strtoi (const char *str, char **end, int base)
 {
     const char *p    = str;
+    const char *b;
     int         sign = 1;
     double      d    = 0;
 
@@ -66,8 +67,7 @@ rjs_strtoi (const char *str, char **end, int base)
     if (base == 0)
         base = 10;
 
-    if (base == 10)
-        return rjs_strtod(str, end);
+    b = p;
 
     while (*p) {
         int v;
@@ -99,7 +99,20 @@ rjs_strtoi (const char *str, char **end, int base)
     }
 
     if (end)
-        *end = (char*)p;
+        *end = (char*)((p == b) ? str : p);
+
+    if ((base == 10) && (d > 9007199254740991.)) {
+        /*Round the whole decimal digits sequence once.*/
+        size_t len = p - b;
+        char  *buf = malloc(len + 1);
+
+        if (buf) {
+            memcpy(buf, b, len);
+            buf[len] = 0;
+            d = rjs_strtod(buf, NULL);
+            free(buf);
+        }
+    }
 
     if (sign == -1)
         d = -d;
-- 
2.43.0


From ed2d2ad76c2ee71c8e4298d7c4ec0bc0238af39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:18 +0000
Subject: [PATCH 47/77] fix: numeric strings have no comments, and no space
 after the sign

---
 src/lib/rjs_string.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 6857d98..27cd6e9 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -578,6 +578,7 @@ parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v
     RJS_Lex     lex;
     RJS_Token   tok;
     RJS_Result  r;
+    size_t      pos, i, len;
     int         sign = 0;
 
     if ((r = rjs_string_input_init(rt, &si, str)) == RJS_ERR)
@@ -594,9 +595,22 @@ parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v
     if (is_big_int)
         lex.flags |= RJS_LEX_FL_BIG_INT;
 
+    /*Comments and escape sequences cannot be in a numeric string.*/
+    len = rjs_string_get_length(rt, str);
+    for (i = 0; i < len; i ++) {
+        int c = rjs_string_get_uchar(rt, str, i);
+
+        if ((c == '/') || (c == '<') || (c == '>') || (c == '\\')) {
+            r = RJS_FALSE;
+            goto end;
+        }
+    }
+
     if ((r = rjs_lex_get_token(rt, &lex, &tok)) == RJS_ERR)
         goto end;
 
+    pos = tok.location.last_pos;
+
     if (tok.type == RJS_TOKEN_plus) {
         sign = 1;
         if ((r = rjs_lex_get_token(rt, &lex, &tok)) == RJS_ERR)
@@ -607,6 +621,12 @@ parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v
             goto end;
     }
 
+    /*The sign must be followed by the number.*/
+    if (sign && (tok.location.first_pos != pos)) {
+        r = RJS_FALSE;
+        goto end;
+    }
+
     if (tok.type == RJS_TOKEN_NUMBER) {
         if (sign && !(tok.flags & RJS_TOKEN_FL_DECIMAL)) {
             r = RJS_FALSE;
-- 
2.43.0


From 7c4f13f04153607e690c10bd7ea5ae8d25bc7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 48/77] fix: byteLength of a detached ArrayBuffer is 0

---
 src/lib/rjs_array_buffer_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_array_buffer_object_inc.c b/src/lib/rjs_array_buffer_object_inc.c
index 6909880..c6854f7 100644
--- a/src/lib/rjs_array_buffer_object_inc.c
+++ b/src/lib/rjs_array_buffer_object_inc.c
@@ -243,7 +243,8 @@ static RJS_NF(ArrayBuffer_prototype_byteLength_get)
     }
 
     if (rjs_is_detached_buffer(rt, thiz)) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        rjs_value_set_number(rt, rv, 0);
+        r = RJS_OK;
         goto end;
     }
 
-- 
2.43.0


From 8001bf40f2b44df06212a44743d7fdfb404e67b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 49/77] fix: a typed array on a detached buffer has no index
 keys

---
 src/lib/rjs_int_indexed_object_opt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_int_indexed_object_opt.c b/src/lib/rjs_int_indexed_object_opt.c
index 5366144..2073f12 100644
--- a/src/lib/rjs_int_indexed_object_opt.c
+++ b/src/lib/rjs_int_indexed_object_opt.c
@@ -298,14 +298,15 @@ int_indexed_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Valu
     size_t                top = rjs_value_stack_save(rt);
     RJS_Value            *tmp = rjs_value_stack_push(rt);
     RJS_PropertyKeyList  *pkl;
-    size_t                i, cap;
+    size_t                i, len, cap;
     RJS_Result            r;
 
-    cap = iio->array_length + iio->object.array_item_num + iio->object.prop_hash.entry_num;
+    len = rjs_is_detached_buffer(rt, &iio->buffer) ? 0 : iio->array_length;
+    cap = len + iio->object.array_item_num + iio->object.prop_hash.entry_num;
 
     pkl = rjs_property_key_list_new(rt, keys, cap);
 
-    for (i = 0; i < iio->array_length; i ++) {
+    for (i = 0; i < len; i ++) {
         RJS_Value *kv = pkl->keys.items + pkl->keys.item_num ++;
 
         rjs_value_set_number(rt, tmp, i);
-- 
2.43.0


From 32b58d9da91ff06097b39a0f2a141946a0bf2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 50/77] fix: JSON.stringify reads each property once

---
 src/lib/rjs_json_opt.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 32031fa..6887bc6 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -694,7 +694,6 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
     RJS_Value         *stepback = rjs_value_stack_push(rt);
     RJS_Value         *indent   = rjs_value_stack_push(rt);
     RJS_Value         *keys     = rjs_value_stack_push(rt);
-    RJS_Value         *kv       = rjs_value_stack_push(rt);
     RJS_Value         *str      = rjs_value_stack_push(rt);
     RJS_Bool           empty    = RJS_TRUE;
     RJS_UCharBuffer    ucb;
@@ -759,23 +758,20 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
 
-            r = rjs_get(rt, value, &pn, kv);
+            r = serialize_json_property(rt, js, &pn, value, str);
             if (r == RJS_OK) {
-                r = serialize_json_property(rt, js, &pn, value, str);
-                if (r == RJS_OK) {
-                    if (rjs_value_is_string(rt, str)) {
-                        if (!empty)
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
+                if (rjs_value_is_string(rt, str)) {
+                    if (!empty)
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
 
-                        if (js->gap) {
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
-                            rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
-                        }
+                    if (js->gap) {
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
+                        rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
+                    }
 
-                        serialize_key_value(rt, js, &ucb, key, str);
+                    serialize_key_value(rt, js, &ucb, key, str);
 
-                        empty = RJS_FALSE;
-                    }
+                    empty = RJS_FALSE;
                 }
             }
 
-- 
2.43.0


From 7f96dafa2c8d40eefc92cd67d50b048c82454e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 51/77] fix: hours, minutes and seconds of times before 1970

---
 src/lib/rjs_date_object_inc.c | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 7c1fc18..9111020 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -245,39 +245,21 @@ date_from_time (int64_t t)
 static int
 hour_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_HOUR) % RJS_HOURS_PER_DAY;
-    if (v < 0)
-        v += RJS_HOURS_PER_DAY;
-
-    return v;
+    return time_within_day(t) / RJS_MS_PER_HOUR;
 }
 
 /*Get minute from time.*/
 static int
 min_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
-    if (v < 0)
-        v += RJS_MINUTES_PER_HOUR;
-
-    return v;
+    return (time_within_day(t) / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
 }
 
 /*Get second from time.*/
 static int
 sec_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
-    if (v < 0)
-        v += RJS_SECONDS_PER_MINUTE;
-
-    return v;
+    return (time_within_day(t) / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
 }
 
 /*Get microseconds from time.*/
-- 
2.43.0


From 5750d8ffbb9d134bac342de921712b617dceb49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 52/77] fix: date strings with day 00 or hour 24

---
 src/lib/rjs_date_object_inc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 9111020..78652ff 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -913,7 +913,7 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
     if (c != RJS_INPUT_END)
         goto end;
 
-    if ((mon < 1) || (mon > 12))
+    if ((mon < 1) || (mon > 12) || (day < 1))
         goto end;
     if (mon == 2) {
         int leap = is_leap_year(y);
@@ -924,7 +924,9 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
         if (day > month_days[mon - 1])
             goto end;
     }
-    if ((hour > 23) || (min > 59) || (sec > 59))
+    if ((hour > 24) || (min > 59) || (sec > 59))
+        goto end;
+    if ((hour == 24) && (min || sec || ms))
         goto end;
     if ((off_hour > 23) || (off_min > 59))
         goto end;
-- 
2.43.0


From da6afa6798ab16bdef28fa8e5c7881e03f891e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 53/77] fix: setUTCMilliseconds keeps the minutes

---
 src/lib/rjs_date_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 78652ff..d7c146a 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -1974,7 +1974,7 @@ static RJS_NF(Date_prototype_setUTCMilliseconds)
         return RJS_OK;
     }
 
-    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), ms_from_time(t), sec_from_time(t), milli));
+    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), min_from_time(t), sec_from_time(t), milli));
     u = time_clip(rt, u);
 
     d = (RJS_Date*)rjs_value_get_object(rt, thiz);
-- 
2.43.0


From d0cef0de97db69eb688b510163cf1b011f371f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 54/77] fix: toISOString writes years outside 0..9999 with six
 digits

---
 src/lib/rjs_date_object_inc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index d7c146a..422d985 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -2164,8 +2164,10 @@ static RJS_NF(Date_prototype_toISOString)
         sec = sec_from_time(t);
         ms  = ms_from_time(t);
 
-        snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
-                y, m + 1, d, h, min, sec, ms);
+        snprintf(buf, sizeof(buf), "%s%0*d-%02d-%02dT%02d:%02d:%02d.%03dZ",
+                (y < 0) ? "-" : ((y > 9999) ? "+" : ""),
+                ((y < 0) || (y > 9999)) ? 6 : 4,
+                RJS_ABS(y), m + 1, d, h, min, sec, ms);
 
         r = rjs_string_from_chars(rt, rv, buf, -1);
     }
-- 
2.43.0


From 5954ceb6d60cbb84f98e0201646378a494610638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 55/77] fix: the global object and primitive prototypes of a
 new realm inherit from that realm

---
 src/lib/rjs_builtin_func_object.c | 3 +++
 src/lib/rjs_realm.c               | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_builtin_func_object.c b/src/lib/rjs_builtin_func_object.c
index 14be103..49220b5 100644
--- a/src/lib/rjs_builtin_func_object.c
+++ b/src/lib/rjs_builtin_func_object.c
@@ -438,11 +438,14 @@ object_desc_load (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *o, RJS_Value *na
     } else if (bod->native && !strcmp(bod->native, "Boolean_prototype")) {
         rjs_value_set_boolean(rt, tmp, RJS_FALSE);
         rjs_primitive_object_new(rt, o, NULL, RJS_O_Object_prototype, tmp);
+        rjs_object_set_prototype_of(rt, o, parent);
     } else if (bod->native && !strcmp(bod->native, "Number_prototype")) {
         rjs_value_set_number(rt, tmp, 0);
         rjs_primitive_object_new(rt, o, NULL, RJS_O_Object_prototype, tmp);
+        rjs_object_set_prototype_of(rt, o, parent);
     } else if (bod->native && !strcmp(bod->native, "String_prototype")) {
         rjs_primitive_object_new(rt, o, NULL, RJS_O_Object_prototype, rjs_s_empty(rt));
+        rjs_object_set_prototype_of(rt, o, parent);
     } else if (bod->native && !strcmp(bod->native, "Array_prototype")) {
         rjs_array_new(rt, o, 0, rjs_o_Object_prototype(realm));
     } else {
diff --git a/src/lib/rjs_realm.c b/src/lib/rjs_realm.c
index 5ec713e..6aaef8f 100644
--- a/src/lib/rjs_realm.c
+++ b/src/lib/rjs_realm.c
@@ -91,7 +91,7 @@ rjs_realm_new (RJS_Runtime *rt, RJS_Value *v)
     rjs_ordinary_object_create(rt, rjs_v_null(rt), rjs_o_Object_prototype(realm));
     rjs_create_builtin_function(rt, NULL, function_prototype_func, 0, rjs_s_empty(rt), realm,
             rjs_o_Object_prototype(realm), NULL, rjs_o_Function_prototype(realm));
-    rjs_ordinary_object_create(rt, NULL, &realm->rb.global_object);
+    rjs_ordinary_object_create(rt, rjs_o_Object_prototype(realm), &realm->rb.global_object);
 
     /*Create global environment.*/
     rjs_global_env_new(rt, &realm->rb.global_env, &realm->rb.global_object, &realm->rb.global_object);
-- 
2.43.0


From 88a5bb24ef77b6d4adb934d03610a18a1e01da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 56/77] fix: deleting an inherited global name gives true

---
 src/lib/rjs_global_env.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_global_env.c b/src/lib/rjs_global_env.c
index 19053c1..fd4990d 100644
--- a/src/lib/rjs_global_env.c
+++ b/src/lib/rjs_global_env.c
@@ -175,7 +175,10 @@ global_env_op_delete_binding (RJS_Runtime *rt, RJS_Environment *env, RJS_Binding
                 RJS_DEL(rt, he);
             }
         }
+    } else {
+        r = RJS_TRUE;
     }
+
 end:
     rjs_property_name_deinit(rt, &pn);
     return r;
-- 
2.43.0


From 3ea9022103749aae60c3a4f4ee1906099be38c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 57/77] fix: collecting garbage while a global environment is
 made

---
 src/lib/rjs_global_env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_global_env.c b/src/lib/rjs_global_env.c
index fd4990d..1f52a8b 100644
--- a/src/lib/rjs_global_env.c
+++ b/src/lib/rjs_global_env.c
@@ -34,7 +34,8 @@ global_env_op_gc_scan (RJS_Runtime *rt, void *ptr)
     RJS_HashEntry *he;
 
     rjs_gc_scan_value(rt, &ge->global_this);
-    rjs_gc_mark(rt, ge->object_rec);
+    if (ge->object_rec)
+        rjs_gc_mark(rt, ge->object_rec);
 
     rjs_hash_foreach(&ge->var_name_hash, i, he) {
         rjs_gc_mark(rt, he->key);
-- 
2.43.0


From 74655e222afde5d9eb551a85751f412343e8e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 58/77] fix: solving jobs from a job does not run that job
 again

---
 src/lib/include/rjs_runtime.h |  1 +
 src/lib/rjs_job.c             | 39 ++++++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/lib/include/rjs_runtime.h b/src/lib/include/rjs_runtime.h
index 2bbae00..39b023f 100644
--- a/src/lib/include/rjs_runtime.h
+++ b/src/lib/include/rjs_runtime.h
@@ -62,6 +62,7 @@ struct RJS_Runtime_s {
     RJS_Parser      *parser;               /**< The parser.*/
     RJS_Environment *env;                  /**< The environment.*/
     RJS_List         job_list;             /**< Job list.*/
+    RJS_List         run_job_list;         /**< The list of the jobs being run.*/
     RJS_ModuleLookupFunc mod_lookup_func;  /**< Module lookup function.*/
     RJS_ModuleLoadFunc   mod_load_func;    /**< Module load function.*/
     RJS_NativeData   native_data;          /**< Native data of the runtime.*/
diff --git a/src/lib/rjs_job.c b/src/lib/rjs_job.c
index a23bf94..bc3db0a 100644
--- a/src/lib/rjs_job.c
+++ b/src/lib/rjs_job.c
@@ -35,6 +35,17 @@ job_free (RJS_Runtime *rt, RJS_Job *job)
     RJS_DEL(rt, job);
 }
 
+/*Scan the referenced things in the job.*/
+static void
+job_scan (RJS_Runtime *rt, RJS_Job *job)
+{
+    if (job->realm)
+        rjs_gc_mark(rt, job->realm);
+
+    if (job->scan)
+        job->scan(rt, job->data);
+}
+
 /**
  * Enqueue a new job.
  * \param rt The current runtime.
@@ -74,20 +85,23 @@ rjs_job_enqueue (RJS_Runtime *rt, RJS_JobFunc func, RJS_Realm *realm,
 void
 rjs_solve_jobs (RJS_Runtime *rt)
 {
-    RJS_Job   *j, *nj;
+    RJS_Job   *j;
     RJS_Realm *old_realm = rt->rb.bot_realm;
 
     while (!rjs_list_is_empty(&rt->job_list)) {
-        rjs_list_foreach_safe_c(&rt->job_list, j, nj, RJS_Job, ln) {
+        j = RJS_CONTAINER_OF(rt->job_list.next, RJS_Job, ln);
 
-            rt->rb.bot_realm = j->realm;
-            
-            j->func(rt, j->data);
+        /*The function may solve jobs itself, it must not find the running one.*/
+        rjs_list_remove(&j->ln);
+        rjs_list_append(&rt->run_job_list, &j->ln);
 
-            rjs_list_remove(&j->ln);
+        rt->rb.bot_realm = j->realm;
 
-            job_free(rt, j);
-        }
+        j->func(rt, j->data);
+
+        rjs_list_remove(&j->ln);
+
+        job_free(rt, j);
     }
 
     rt->rb.bot_realm = old_realm;
@@ -101,6 +115,7 @@ void
 rjs_runtime_job_init (RJS_Runtime *rt)
 {
     rjs_list_init(&rt->job_list);
+    rjs_list_init(&rt->run_job_list);
 }
 
 /**
@@ -127,10 +142,10 @@ rjs_gc_scan_job (RJS_Runtime *rt)
     RJS_Job *j;
 
     rjs_list_foreach_c(&rt->job_list, j, RJS_Job, ln) {
-        if (j->realm)
-            rjs_gc_mark(rt, j->realm);
+        job_scan(rt, j);
+    }
 
-        if (j->scan)
-            j->scan(rt, j->data);
+    rjs_list_foreach_c(&rt->run_job_list, j, RJS_Job, ln) {
+        job_scan(rt, j);
     }
 }
-- 
2.43.0


From ad0ba64ceb62a1ab1da05c132fc8782f5fdfab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 59/77] fix: the value of --name=value reaches the option
 callback

---
 module/option.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/option.js b/module/option.js
index 4dbced4..bd39b53 100644
--- a/module/option.js
+++ b/module/option.js
@@ -232,7 +232,7 @@ export class OptionParser {
                         }
                     }
                 } else {
-                    let actArg = this.checkArgument(desc, optArg);
+                    actArg = this.checkArgument(desc, optArg);
 
                     if (actArg == undefined)
                         throw new TypeError(`"${optArg}" is not a valid argument of option "${optName}"`);
-- 
2.43.0


From d5255f440f0d39ff936c2899c504bfc5323f5227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:01 +0000
Subject: [PATCH 60/77] fix: unicode escapes without digits or with overlong
 code points are invalid

---
 src/lib/rjs_lex.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 9f7ca6c..3f78da4 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -243,6 +243,7 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
 {
     int c;
     int i, n, v = 0;
+    int digits = 0;
     RJS_Location loc;
 
     c = lex_get_uc(rt, lex);
@@ -262,6 +263,16 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
 
             if (c == '}') {
                 lex_append_uc(rt, lex, c);
+
+                if (!digits) {
+                    rjs_input_get_location(lex->input, &loc);
+                    if (is_templ)
+                        lex_warning(rt, lex, &loc, _("expect hexadecimal digits in unicode escape sequence"));
+                    else
+                        lex_error(rt, lex, &loc, _("expect hexadecimal digits in unicode escape sequence"));
+
+                    v = -1;
+                }
                 break;
             }
 
@@ -269,6 +280,12 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
                 return -1;
             lex_append_uc(rt, lex, c);
 
+            digits ++;
+
+            /*Out of range already.*/
+            if (v < 0)
+                continue;
+
             v <<= 4;
             v |= n;
 
-- 
2.43.0


From 44376d165a02c2016802189134a26194e6627b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:01 +0000
Subject: [PATCH 61/77] fix: a revoked proxy as newTarget of RegExp throws

---
 src/lib/rjs_regexp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index a3bdcc3..4f748fe 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1597,7 +1597,10 @@ rjs_regexp_alloc (RJS_Runtime *rt, RJS_Value *nt, RJS_Value *rv)
     re->model = NULL;
 
     /*Initialize the object.*/
-    rjs_ordinary_init_from_constructor(rt, &re->object, nt, RJS_O_RegExp_prototype, &regexp_ops, rv);
+    if (rjs_ordinary_init_from_constructor(rt, &re->object, nt, RJS_O_RegExp_prototype, &regexp_ops, rv) == RJS_ERR) {
+        RJS_DEL(rt, re);
+        return RJS_ERR;
+    }
 
     /*Allocate the model.*/
     RJS_NEW(rt, rem);
-- 
2.43.0


From 695caa08101b6702eeb50eea3eaa71bed44d3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 62/77] fix: an unfinished parameter list of an indirect eval
 or Function does not crash

---
 src/lib/rjs_parser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 04f3295..5d992b2 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -1352,7 +1352,7 @@ func_pop (RJS_Runtime *rt)
                 || !(func->flags & RJS_AST_FUNC_FL_SIMPLE_PARAM))
             func->flags |= RJS_AST_FUNC_FL_UNMAP_ARGS;
 
-        if (func->var_decl == func->param_decl) {
+        if (func->var_decl && (func->var_decl == func->param_decl)) {
             /*Remove the "arguments" variable. It is already initialized.*/
             he = hash_lookup(rt, &func->var_decl->item_hash, rjs_s_arguments(rt), &phe);
             if (he) {
@@ -1367,7 +1367,7 @@ func_pop (RJS_Runtime *rt)
     }
 
     /*Check if the parameters is defined in lexically declaration.*/
-    if (func->param_decl != func->lex_decl) {
+    if (func->param_decl && func->lex_decl && (func->param_decl != func->lex_decl)) {
         RJS_AstDeclItem *di;
 
         rjs_list_foreach_c(&func->param_decl->item_list, di, RJS_AstDeclItem, ast.ln) {
@@ -1390,13 +1390,13 @@ func_pop (RJS_Runtime *rt)
         }
     }
 
-    if (parser->decl_stack == func->lex_decl)
+    if (func->lex_decl && (parser->decl_stack == func->lex_decl))
         decl_pop(rt);
 
-    if (parser->decl_stack == func->var_decl)
+    if (func->var_decl && (parser->decl_stack == func->var_decl))
         decl_pop(rt);
 
-    if (parser->decl_stack == func->param_decl)
+    if (func->param_decl && (parser->decl_stack == func->param_decl))
         decl_pop(rt);
 
     parser->func_stack = func->bot;
-- 
2.43.0


From 367a1473ea7ede13bcd83389a5609e0a9878a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 63/77] fix: Function constructors parse parameters and body on
 their own

---
 src/lib/rjs_parser.c             |   1 +
 src/lib/rjs_script_func_object.c | 108 +++++++++++++++++++------------
 2 files changed, 69 insertions(+), 40 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 5d992b2..5cb66a1 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -9461,6 +9461,7 @@ parse_function (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *rv)
     RJS_Value   *tmp = rjs_value_stack_push(rt);
 
     parse_hoistable_decl(rt, RJS_FALSE, tmp);
+    get_token_expect(rt, RJS_TOKEN_END);
 
 #if ENABLE_PRIV_NAME
     check_priv_ids(rt);
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 9d1a952..073807a 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -427,6 +427,55 @@ rjs_script_func_object_make_constructor (RJS_Runtime *rt, RJS_Value *f)
     return RJS_OK;
 }
 
+/*Parse the function with the parameters and the body.*/
+static RJS_Result
+dynamic_function_parse (RJS_Runtime *rt, int flags, RJS_Value *params, RJS_Value *body, RJS_Value *scriptv)
+{
+    size_t           top = rjs_value_stack_save(rt);
+    RJS_Value       *src = rjs_value_stack_push(rt);
+    RJS_UCharBuffer  ucb;
+    RJS_Input        si;
+    RJS_Result       r;
+
+    /*Create the input string.*/
+    rjs_uchar_buffer_init(rt, &ucb);
+
+#if ENABLE_ASYNC
+    if (flags & RJS_FUNC_FL_ASYNC)
+        rjs_uchar_buffer_append_chars(rt, &ucb, "async ", -1);
+#endif /*ENABLE_ASYNC*/
+
+    rjs_uchar_buffer_append_chars(rt, &ucb, "function", -1);
+
+#if ENABLE_GENERATOR
+    if (flags & RJS_FUNC_FL_GENERATOR)
+        rjs_uchar_buffer_append_uchar(rt, &ucb, '*');
+#endif /*ENABLE_GENERATOR*/
+
+    rjs_uchar_buffer_append_chars(rt, &ucb, " anonymous(", -1);
+    rjs_uchar_buffer_append_string(rt, &ucb, params);
+    rjs_uchar_buffer_append_chars(rt, &ucb, "\n) {\n", -1);
+    rjs_uchar_buffer_append_string(rt, &ucb, body);
+    rjs_uchar_buffer_append_chars(rt, &ucb, "\n}", -1);
+    rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num);
+
+    rjs_uchar_buffer_deinit(rt, &ucb);
+
+    /*Create the input source.*/
+    if ((r = rjs_string_input_init(rt, &si, src)) == RJS_OK) {
+        si.flags |= RJS_INPUT_FL_CRLF_TO_LF;
+
+        /*Parse the function.*/
+        if ((r = rjs_parse_function(rt, &si, rjs_realm_current(rt), scriptv)) == RJS_ERR)
+            r = rjs_throw_syntax_error(rt, _("function syntax error"));
+
+        rjs_input_deinit(rt, &si);
+    }
+
+    rjs_value_stack_restore(rt, top);
+    return r;
+}
+
 /**
  * Create a dynamic function.
  * \param rt The current runtime.
@@ -445,37 +494,22 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
 {
     size_t           top        = rjs_value_stack_save(rt);
     RJS_Value       *str        = rjs_value_stack_push(rt);
-    RJS_Value       *src        = rjs_value_stack_push(rt);
+    RJS_Value       *params     = rjs_value_stack_push(rt);
+    RJS_Value       *body       = rjs_value_stack_push(rt);
     RJS_Value       *scriptv    = rjs_value_stack_push(rt);
     RJS_Value       *proto      = rjs_value_stack_push(rt);
-    RJS_Bool         need_close = RJS_FALSE;
     size_t           i          = 0;
     int              fallback_proto;
     RJS_Environment *global_env;
     RJS_Value       *arg;
     RJS_UCharBuffer  ucb;
-    RJS_Input        si;
     RJS_Script      *script;
     RJS_ScriptFunc  *sf;
     RJS_Result       r;
 
-    /*Create the input string.*/
+    /*Create the parameters string.*/
     rjs_uchar_buffer_init(rt, &ucb);
 
-#if ENABLE_ASYNC
-    if (flags & RJS_FUNC_FL_ASYNC)
-        rjs_uchar_buffer_append_chars(rt, &ucb, "async ", -1);
-#endif /*ENABLE_ASYNC*/
-
-    rjs_uchar_buffer_append_chars(rt, &ucb, "function", -1);
-
-#if ENABLE_GENERATOR
-    if (flags & RJS_FUNC_FL_GENERATOR)
-        rjs_uchar_buffer_append_uchar(rt, &ucb, '*');
-#endif /*ENABLE_GENERATOR*/
-
-    rjs_uchar_buffer_append_chars(rt, &ucb, " anonymous(", -1);
-
     if (argc > 1) {
         for (i = 0; i < argc - 1; i ++) {
             if (i != 0)
@@ -483,41 +517,37 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
 
             arg = rjs_argument_get(rt, args, argc, i);
 
-            if ((r = rjs_to_string(rt, arg, str)) == RJS_ERR)
+            if ((r = rjs_to_string(rt, arg, str)) == RJS_ERR) {
+                rjs_uchar_buffer_deinit(rt, &ucb);
                 goto end;
+            }
 
             rjs_uchar_buffer_append_string(rt, &ucb, str);
         }
     }
 
-    rjs_uchar_buffer_append_chars(rt, &ucb, "\n) {\n", -1);
+    rjs_string_from_uchars(rt, params, ucb.items, ucb.item_num);
+    rjs_uchar_buffer_deinit(rt, &ucb);
 
+    /*Create the body string.*/
     if (i < argc) {
         arg = rjs_argument_get(rt, args, argc, i);
 
-        if ((r = rjs_to_string(rt, arg, str)) == RJS_ERR)
+        if ((r = rjs_to_string(rt, arg, body)) == RJS_ERR)
             goto end;
-
-        rjs_uchar_buffer_append_string(rt, &ucb, str);
+    } else {
+        rjs_value_copy(rt, body, rjs_s_empty(rt));
     }
 
-    rjs_uchar_buffer_append_chars(rt, &ucb, "\n}", -1);
-    rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num);
-
-    rjs_uchar_buffer_deinit(rt, &ucb);
-
-    /*Create the input source.*/
-    if ((r = rjs_string_input_init(rt, &si, src)) == RJS_ERR)
+    /*The parameters and the body must be valid by themselves.*/
+    if ((r = dynamic_function_parse(rt, flags, params, rjs_s_empty(rt), scriptv)) == RJS_ERR)
+        goto end;
+    if ((r = dynamic_function_parse(rt, flags, rjs_s_empty(rt), body, scriptv)) == RJS_ERR)
         goto end;
-
-    si.flags |= RJS_INPUT_FL_CRLF_TO_LF;
-    need_close = RJS_TRUE;
 
     /*Parse the function.*/
-    if ((r = rjs_parse_function(rt, &si, rjs_realm_current(rt), scriptv)) == RJS_ERR) {
-        r = rjs_throw_syntax_error(rt, _("function syntax error"));
+    if ((r = dynamic_function_parse(rt, flags, params, body, scriptv)) == RJS_ERR)
         goto end;
-    }
 
     script     = rjs_value_get_gc_thing(rt, scriptv);
     sf         = script->func_table;
@@ -546,7 +576,8 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
         fallback_proto = RJS_O_Function_prototype;
     }
 
-    rjs_get_prototype_from_constructor(rt, nt, fallback_proto, proto);
+    if ((r = rjs_get_prototype_from_constructor(rt, nt, fallback_proto, proto)) == RJS_ERR)
+        goto end;
 
     /*Create the function.*/
 #if ENABLE_GENERATOR
@@ -565,9 +596,6 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
             rjs_make_constructor(rt, func, RJS_TRUE, NULL);
     }
 end:
-    if (need_close)
-        rjs_input_deinit(rt, &si);
-
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From 9b32e34d9e4267b2105c06b2df82a82ac0d8fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 64/77] fix: JSON pointers with escapes, empty tokens, null and
 inherited members

---
 module/json-pointer.js | 54 ++++++++++++------------------------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/module/json-pointer.js b/module/json-pointer.js
index 982da5b..561e6b6 100644
--- a/module/json-pointer.js
+++ b/module/json-pointer.js
@@ -81,47 +81,21 @@ export class JSONPointer {
         if (idx != -1) {
             dn  = src.slice(0, idx);
             ptr = src.slice(idx + 1);
-
-            if (ptr.length == 0)
-                ptr = "/";
         } else {
             dn  = src;
-            ptr = "/";
+            ptr = "";
         }
 
         if (dn.length > 0)
             this.filename = dn;
 
-        let p = 0;
-        if (ptr[p] == "/")
-            ptr = ptr.slice(1);
-
-        let seg = "";
-        while (ptr.length > 0) {
-            let match = ptr.match(/~0|~1|\//);
+        /*The empty pointer is the whole value.*/
+        if (ptr.length > 0) {
+            if (ptr[0] == "/")
+                ptr = ptr.slice(1);
 
-            if (match == null) {
-                seg += ptr;
-                this.#pointers.push(seg);
-                break;
-            } else {
-                seg += ptr.slice(0, match.index);
-
-                switch(match[0]) {
-                case "~0":
-                    seg += "~";
-                    break;
-                case "~1":
-                    seg += "/";
-                    break;
-                case "/":
-                    this.#pointers.push(seg);
-                    seg = "";
-                    break;
-                }
-
-                ptr = ptr.slice(match.index + match[0].length);
-            }
+            for (let seg of ptr.split("/"))
+                this.#pointers.push(seg.replaceAll("~1", "/").replaceAll("~0", "~"));
         }
     };
 
@@ -134,14 +108,16 @@ export class JSONPointer {
         let res;
 
         if (this.filename == undefined) {
-            if (curr == undefined)
+            if (curr === undefined)
                 this.error("base value cannot be undefined");
 
             res = curr;
         } else {
-            res = JSONManager.lookup(this.filename);
-            if (res == null)
+            let path = JSONManager.lookup(this.filename);
+            if (path == null)
                 this.error(`cannot find ${this.filename}`);
+
+            res = JSONManager.load(path);
         }
 
         for (let ptr of this.#pointers) {
@@ -154,8 +130,8 @@ export class JSONPointer {
                 }
 
                 res = res[ptr];
-            } else if (typeof res == "object") {
-                res = res[ptr];
+            } else if ((typeof res == "object") && (res !== null)) {
+                res = Object.hasOwn(res, ptr) ? res[ptr] : undefined;
             } else {
                 res = undefined;
                 break;
@@ -173,7 +149,7 @@ export class JSONPointer {
      */
     resolveThrow (curr) {
         let res = this.resolve(curr);
-        if (res == undefined)
+        if (res === undefined)
             this.error(`invalid pointer`);
 
         return res;
-- 
2.43.0


From ddbb18e665eb07863e434cbdcb4a1c58138b95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:16 +0000
Subject: [PATCH 65/77] fix: JSON files are looked up in every directory

---
 module/json-manager.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/module/json-manager.js b/module/json-manager.js
index d6f9a0e..d9a27e5 100644
--- a/module/json-manager.js
+++ b/module/json-manager.js
@@ -64,9 +64,9 @@ export class JSONManager {
 
             if (FileState(path) != undefined)
                 return path;
-
-            return null;
         }
+
+        return null;
     };
 
     /**
-- 
2.43.0


From 7e9e5bb75117ae2ab913d84e0a6c76d8f2c0ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:16 +0000
Subject: [PATCH 66/77] fix: JSON schema compares values, not references, and
 keywords apply as specified

---
 module/json-schema.js | 98 +++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 35 deletions(-)

diff --git a/module/json-schema.js b/module/json-schema.js
index a6e9506..4bd9a5f 100644
--- a/module/json-schema.js
+++ b/module/json-schema.js
@@ -40,6 +40,35 @@ let log = new Log("json-schema");
 export class ValidateError extends Error {
 };
 
+/**
+ * Check if 2 JSON values are equal.
+ * @private
+ * @param {*} v1 Value 1.
+ * @param {*} v2 Value 2.
+ * @returns {boolean} true when the values are equal.
+ */
+function equal (v1, v2) {
+    if (v1 === v2)
+        return true;
+
+    if ((typeof v1 != "object") || (typeof v2 != "object")
+            || (v1 === null) || (v2 === null)
+            || (Array.isArray(v1) != Array.isArray(v2)))
+        return false;
+
+    let keys = Object.keys(v1);
+
+    if (keys.length != Object.keys(v2).length)
+        return false;
+
+    for (let key of keys) {
+        if (!Object.hasOwn(v2, key) || !equal(v1[key], v2[key]))
+            return false;
+    }
+
+    return true;
+}
+
 /**
  * JSON schema validate context.
  * @private
@@ -146,10 +175,11 @@ class JSONSchemaContext {
      */
     stringValidate (v) {
         let len;
+        let chars = [...v].length;
 
         len = this.schema.maxLength;
         if (len != undefined) {
-            if (v.length > len) {
+            if (chars > len) {
                 this.fail(`length of "${v}" > maximum length ${len}`);
                 return false;
             }
@@ -157,7 +187,7 @@ class JSONSchemaContext {
 
         len = this.schema.minLength;
         if (len != undefined) {
-            if (v.length < len) {
+            if (chars < len) {
                 this.fail(`length of "${v}" < minimum length ${len}`);
                 return false;
             }
@@ -187,6 +217,9 @@ class JSONSchemaContext {
         items = this.schema.prefixItems;
         if (items != undefined) {
             for (let item of items) {
+                if (idx >= v.length)
+                    break;
+
                 let ctxt = new JSONSchemaContext(item, `${this.tag}[${idx}]`);
 
                 if (!ctxt.validate(v[idx])) {
@@ -246,14 +279,11 @@ class JSONSchemaContext {
 
         let unique = this.schema.uniqueItems;
         if ((unique != undefined) && unique) {
-            let set = new Set();
-
-            for (let item of v) {
-                if (set.has(item)) {
+            for (let [i, item] of v.entries()) {
+                if (v.findIndex(e => equal(e, item)) != i) {
                     this.fail(`array's items are not unique`);
                     return false;
                 }
-                set.add(item);
             }
         }
 
@@ -267,6 +297,8 @@ class JSONSchemaContext {
                 ctxt.tag = `${this.tag}[${i}]`;
                 if (ctxt.validate(item))
                     cn ++;
+
+                i ++;
             }
 
             let max = this.schema.maxContains;
@@ -278,11 +310,12 @@ class JSONSchemaContext {
             }
 
             let min = this.schema.minContains;
-            if (min != undefined) {
-                if (cn < min) {
-                    this.fail(`contains number ${cn} < minimum contains number ${min}`);
-                    return false;
-                }
+            if (min == undefined)
+                min = 1;
+
+            if (cn < min) {
+                this.fail(`contains number ${cn} < minimum contains number ${min}`);
+                return false;
             }
         }
 
@@ -321,34 +354,29 @@ class JSONSchemaContext {
                 }
             }
 
-            let sch;
+            let schs = [];
 
-            if (props != undefined) {
-                let prop = props[pn];
-                if (prop != undefined)
-                    sch = new JSONSchemaContext(prop);
-            }
+            if ((props != undefined) && Object.hasOwn(props, pn))
+                schs.push(new JSONSchemaContext(props[pn]));
 
-            if ((sch == undefined) && (patProps != undefined)) {
+            if (patProps != undefined) {
                 for (let pat of Object.getOwnPropertyNames(patProps)) {
                     let mr = pn.match(new RegExp(pat));
                     if ((mr != null) && (mr[0] == pn))
-                        sch = new JSONSchemaContext(patProps[pat]);
+                        schs.push(new JSONSchemaContext(patProps[pat]));
                 }
             }
-            if (sch == undefined) {
+
+            if (schs.length == 0) {
                 if ((pn == "$ref") || (pn == "$schema"))
-                    sch = new JSONSchemaContext({type: "string"});
-                else if (pn == "$ref")
-                    sch = new JSONSchemaContext(true);
-            }
-            if ((sch == undefined) && (addValidator != undefined))
-                sch = addValidator;
-            if ((sch == undefined) && (unevalValidator != undefined)) {
-                sch = unevalValidator;
+                    schs.push(new JSONSchemaContext({type: "string"}));
+                else if (addValidator != undefined)
+                    schs.push(addValidator);
+                else if (unevalValidator != undefined)
+                    schs.push(unevalValidator);
             }
 
-            if (sch != undefined) {
+            for (let sch of schs) {
                 sch.tag = `${this.tag}.${pn}`;
                 if (!sch.validate(v[pn])) {
                     this.message = sch.message;
@@ -584,21 +612,21 @@ class JSONSchemaContext {
             let match = false;
 
             for (let ev of this.schema.enum) {
-                if (ev === v) {
+                if (equal(ev, v)) {
                     match = true;
                     break;
                 }
             }
 
             if (!match) {
-                this.fail(`${v} is not in [${this.schema.enum}]`);
+                this.fail(`${JSON.stringify(v)} is not in ${JSON.stringify(this.schema.enum)}`);
                 return false;
             }
         }
 
-        if (this.schema.const != undefined) {
-            if (v !== this.schema.const) {
-                this.fail(`${v} != const ${this.schema.const}`);
+        if (this.schema.const !== undefined) {
+            if (!equal(v, this.schema.const)) {
+                this.fail(`${JSON.stringify(v)} != const ${JSON.stringify(this.schema.const)}`);
                 return false;
             }
         }
-- 
2.43.0


From 39f552b974a3d55c5f49064b7b326b1fd1263374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:15 +0000
Subject: [PATCH 67/77] fix: list the named groups in the order of the pattern
 and store captures without match

---
 src/lib/rjs_regexp.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 4f748fe..54687e9 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -2951,7 +2951,6 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
                 rjs_value_set_undefined(rt, indice);
         } else {
             rjs_string_substr(rt, str, start, end, sub);
-            rjs_create_data_property_or_throw_index(rt, rv, i, sub);
 
             if (has_indices) {
                 rjs_value_set_number(rt, startp, start);
@@ -2976,6 +2975,8 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
             }
         }
 
+        rjs_create_data_property_or_throw_index(rt, rv, i, sub);
+
         if (has_indices) {
             rjs_create_data_property_or_throw_index(rt, indices, i, indice);
         }
@@ -2987,17 +2988,22 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
     if (has_group) {
         int i;
 
-        for (i = 0; i < ctxt.model->name_num; i ++) {
+        /*The group names are listed in the order of the groups in the pattern.*/
+        for (i = 1; i < ctxt.model->group_num; i ++) {
+            int              gn = ctxt.model->group_names[i];
             RJS_PropertyName gn_pn;
             RJS_Value       *v;
 
-            rjs_property_name_init(rt, &gn_pn, &ctxt.model->names[i]);
+            if (gn == -1)
+                continue;
+
+            rjs_property_name_init(rt, &gn_pn, &ctxt.model->names[gn]);
 
-            v = rjs_value_buffer_item(rt, gitems, i);
+            v = rjs_value_buffer_item(rt, gitems, gn);
             rjs_create_data_property_or_throw(rt, groups, &gn_pn, v);
 
             if (has_indices) {
-                v = rjs_value_buffer_item(rt, igitems, i);
+                v = rjs_value_buffer_item(rt, igitems, gn);
                 rjs_create_data_property_or_throw(rt, igroups, &gn_pn, v);
             }
 
-- 
2.43.0


From c28e3bd108fc8ce006112d6e87018ad71ba69c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:15 +0000
Subject: [PATCH 68/77] fix: reject empty iterations of an optional part of a
 regular expression

---
 src/lib/rjs_regexp.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 54687e9..75f725c 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -2524,13 +2524,12 @@ match_term (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpPattern *pat, RJS_R
     if ((term->min == 0) && (term->max == 0))
         return RJS_REGEXP_NEXT;
 
-    if (cnt > term->min) {
-        if ((term->max != -1) && (cnt > term->max))
-            return RJS_REGEXP_NEXT;
+    /*An optional iteration must not be empty.*/
+    if ((cnt > term->min + 1) && (pos == ctxt->pos))
+        return RJS_REGEXP_REJECT;
 
-        if ((cnt > 1) && (pos == ctxt->pos))
-            return RJS_REGEXP_NEXT;
-    }
+    if ((term->max != -1) && (cnt > term->max))
+        return RJS_REGEXP_NEXT;
 
     if (cnt <= term->min) {
         size_t         jid;
-- 
2.43.0


From 1876cbdd79c9ffb86424606d1a57b3e3d20b83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 69/77] fix: compare characters of regular expressions ignoring
 case as prescribed

---
 src/lib/rjs_regexp.c | 99 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 88 insertions(+), 11 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 75f725c..2a5ef23 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1841,6 +1841,8 @@ canonicalize (int c, int flags)
 
         if (rjs_uchars_to_upper(&cin, 1, &cout, 1, "") > 1)
             r = c;
+        else if ((c >= 128) && (cout < 128))
+            r = c;
         else
             r = cout;
     } else {
@@ -1964,9 +1966,16 @@ regexp_adv_str_index (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, size_t index, RJS_B
 
 /*Check if the character is a word.*/
 static RJS_Bool
-is_word (int c)
+is_word (int c, int flags)
 {
-    return rjs_uchar_is_alnum(c) || (c == '_');
+    if (rjs_uchar_is_alnum(c) || (c == '_'))
+        return RJS_TRUE;
+
+    /*The characters folded to word characters.*/
+    if ((flags & RJS_REGEXP_FL_I) && (flags & RJS_REGEXP_FL_U))
+        return (c == 0x17f) || (c == 0x212a);
+
+    return RJS_FALSE;
 }
 
 /*Match the alternative.*/
@@ -2087,7 +2096,7 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_w:
-        r = is_word(c);
+        r = is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_S:
         r = !rjs_uchar_is_white_space(c);
@@ -2096,7 +2105,7 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = !rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_W:
-        r = !is_word(c);
+        r = !is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_NORMAL:
         r = canonicalize(c, flags) == canonicalize(d->c, flags);
@@ -2118,6 +2127,61 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
     return r;
 }
 
+/*Check if the range contains a character equal to the character.*/
+static RJS_Bool
+match_range (int min, int max, int c, int flags)
+{
+    /*The characters which are not the upper or lower case of the other equal characters.*/
+    static const int others[] = {
+        0xb5, 0x17f, 0x1c5, 0x1c8, 0x1cb, 0x1f2, 0x345, 0x3c2, 0x3d0, 0x3d1, 0x3d5, 0x3d6, 0x3f0, 0x3f1,
+        0x3f4, 0x3f5, 0x1c80, 0x1c81, 0x1c82, 0x1c83, 0x1c84, 0x1c85, 0x1c86, 0x1c87, 0x1c88, 0x1e9b,
+        0x1e9e, 0x1fbe, 0x2126, 0x212a, 0x212b
+    };
+
+    int    v, d;
+    size_t i;
+
+    if ((c >= min) && (c <= max))
+        return RJS_TRUE;
+
+    if (!(flags & RJS_REGEXP_FL_I))
+        return RJS_FALSE;
+
+    v = canonicalize(c, flags);
+    if ((v >= min) && (v <= max) && (canonicalize(v, flags) == v))
+        return RJS_TRUE;
+
+    if (max - min < 1024) {
+        for (d = min; d <= max; d ++) {
+            if (canonicalize(d, flags) == v)
+                return RJS_TRUE;
+        }
+
+        return RJS_FALSE;
+    }
+
+    if (c <= 0xffff) {
+        RJS_UChar cin = c, cout;
+
+        if ((rjs_uchars_to_lower(&cin, 1, &cout, 1, "") == 1)
+                && (cout >= min) && (cout <= max) && (canonicalize(cout, flags) == v))
+            return RJS_TRUE;
+
+        if ((rjs_uchars_to_upper(&cin, 1, &cout, 1, "") == 1)
+                && (cout >= min) && (cout <= max) && (canonicalize(cout, flags) == v))
+            return RJS_TRUE;
+    }
+
+    for (i = 0; i < RJS_N_ELEM(others); i ++) {
+        d = others[i];
+
+        if ((d >= min) && (d <= max) && (canonicalize(d, flags) == v))
+            return RJS_TRUE;
+    }
+
+    return RJS_FALSE;
+}
+
 /*Match the class atom.*/
 static RJS_Bool
 match_class_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpClassAtom *atom, int c)
@@ -2127,11 +2191,7 @@ match_class_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpClassAtom *at
     if (atom->type != -1) {
         r = match_char(rt, atom->type, &atom->a.c, c, ctxt->flags);
     } else {
-        int min = canonicalize(atom->a.range.min, ctxt->flags);
-        int max = canonicalize(atom->a.range.max, ctxt->flags);
-        int v   = canonicalize(c, ctxt->flags);
-
-        r = (v >= min) && (v <= max);
+        r = match_range(atom->a.range.min, atom->a.range.max, c, ctxt->flags);
     }
 
     return r;
@@ -2312,6 +2372,23 @@ match_back_ref (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, int id)
         c1 = rjs_string_get_uchar(rt, &ctxt->str, p1);
         c2 = rjs_string_get_uchar(rt, &ctxt->str, p2);
 
+        if ((ctxt->flags & RJS_REGEXP_FL_U) && (i + 1 < len)
+                && rjs_uchar_is_leading_surrogate(c1) && rjs_uchar_is_leading_surrogate(c2)) {
+            int t1, t2;
+
+            t1 = rjs_string_get_uchar(rt, &ctxt->str, p1 + 1);
+            t2 = rjs_string_get_uchar(rt, &ctxt->str, p2 + 1);
+
+            if (rjs_uchar_is_trailing_surrogate(t1) && rjs_uchar_is_trailing_surrogate(t2)) {
+                c1 = rjs_surrogate_pair_to_uc(c1, t1);
+                c2 = rjs_surrogate_pair_to_uc(c2, t2);
+
+                i  ++;
+                p1 ++;
+                p2 ++;
+            }
+        }
+
         if (canonicalize(c1, ctxt->flags) != canonicalize(c2, ctxt->flags)) {
             r = RJS_FALSE;
             goto end;
@@ -2388,14 +2465,14 @@ match_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpTerm *term)
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) == is_word(nc))
+        if (is_word(c, ctxt->flags) == is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_B:
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) != is_word(nc))
+        if (is_word(c, ctxt->flags) != is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_BR_ID:
-- 
2.43.0


From c71ba86f1f2d2386b66065a9ef4b1c13ba6a0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 70/77] fix: keep the escapes in the source of a regular
 expression

---
 src/lib/rjs_regexp.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 2a5ef23..6d08b55 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1505,23 +1505,44 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     rjs_uchar_buffer_init(rt, &ucb);
 
     while (c < e) {
+        RJS_Bool    escape = RJS_FALSE;
+        const char *rep    = NULL;
+
+        if ((*c == '\\') && (c + 1 < e)) {
+            escape = RJS_TRUE;
+            c ++;
+        }
+
         switch (*c) {
         case '\n':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, 'n');
+            rep = "n";
             break;
         case '\r':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, 'r');
+            rep = "r";
+            break;
+        case 0x2028:
+            rep = "u2028";
+            break;
+        case 0x2029:
+            rep = "u2029";
             break;
         case '/':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '/');
+            rep = "/";
             break;
         default:
-            rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             break;
         }
+
+        if (rep || escape)
+            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+
+        if (rep) {
+            while (*rep)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, *rep ++);
+        } else {
+            rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
+        }
+
         c ++;
     }
 
-- 
2.43.0


From 07cf2eadadd5c5e62a7e36721d18e62126c5d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 71/77] fix: accept the escaped minus sign in a class of a
 unicode regular expression

---
 src/lib/rjs_regexp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 6d08b55..c637b2e 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -922,6 +922,10 @@ parse_class_atom (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpChar *mc)
             mc->type = RJS_REGEXP_CHAR_NORMAL;
             mc->c.c  = '\b';
             break;
+        case '-':
+            mc->type = RJS_REGEXP_CHAR_NORMAL;
+            mc->c.c  = '-';
+            break;
         default:
             if ((r = parse_escape(rt, p, c, mc)) == RJS_ERR)
                 return r;
-- 
2.43.0


From fb53f3ebcfff42a8ffa8f1376e06deff397e026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 72/77] fix: convert the string of matchAll once

---
 src/lib/rjs_regexp_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 6b75315..af979cd 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -372,7 +372,7 @@ static RJS_NF(RegExp_prototype_matchAll)
     else
         unicode = RJS_FALSE;
 
-    r = regexp_str_iter_new(rt, rv, matcher, str, global, unicode);
+    r = regexp_str_iter_new(rt, rv, matcher, s, global, unicode);
 end:
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From d4b449b6b2d2889af28e85e45c7c8f7ff2a4cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 73/77] fix: collect all the matches before replacing them

---
 src/lib/rjs_regexp_object_inc.c | 93 ++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 37 deletions(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index af979cd..fdc1038 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -423,8 +423,11 @@ replace_func (RJS_Runtime *rt, RJS_Value *s, RJS_Value *fn, RJS_Value *mstr, siz
         arg = rjs_value_buffer_item(rt, args, aid);
         aid ++;
 
-        if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
+        if (rjs_value_is_undefined(rt, cap)) {
+            rjs_value_set_undefined(rt, arg);
+        } else if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR) {
             goto end;
+        }
     }
 
     arg = rjs_value_buffer_item(rt, args, aid);
@@ -469,6 +472,10 @@ static RJS_NF(RegExp_prototype_replace)
     RJS_Value *mstrv   = rjs_value_stack_push(rt);
     RJS_Value *mstr    = rjs_value_stack_push(rt);
     RJS_Value *rstr    = rjs_value_stack_push(rt);
+    RJS_Value *resv    = rjs_value_stack_push(rt);
+    RJS_ValueList        *results;
+    RJS_ValueListSegment *vls;
+    size_t     i;
     size_t     len, start;
     RJS_Bool   func_rep, global, unicode = RJS_FALSE;
     RJS_UCharBuffer  ucb;
@@ -508,13 +515,11 @@ static RJS_NF(RegExp_prototype_replace)
             goto end;
     }
 
-    chars = rjs_string_get_uchars(rt, s);
-    start = 0;
+    /*Collect the matches.*/
+    results = rjs_value_list_new(rt, resv);
 
     while (1) {
-        RJS_Number posn;
-        size_t     pos;
-        int64_t    idx;
+        int64_t idx;
 
         if ((r = rjs_regexp_exec(rt, thiz, s, match)) == RJS_ERR)
             goto end;
@@ -522,60 +527,74 @@ static RJS_NF(RegExp_prototype_replace)
         if (rjs_value_is_null(rt, match))
             break;
 
-        if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
-            goto end;
+        rjs_value_list_append(rt, results, match);
+
+        if (!global)
+            break;
 
-        if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
+        if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
             goto end;
 
-        pos = RJS_CLAMP(posn, 0, len);
+        if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            goto end;
 
-        if (pos >= start) {
-            if (pos > start) {
-                rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
-            }
+        if (rjs_string_get_length(rt, mstr) == 0) {
+            if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
+                goto end;
 
-            if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
+            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
                 goto end;
 
-            if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            idx = adv_str_index(rt, s, idx, unicode);
+
+            rjs_value_set_number(rt, idxv, idx);
+
+            if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
                 goto end;
+        }
+    }
 
-            if (func_rep) {
-                r = replace_func(rt, s, repv, mstr, pos, match, rstr);
-            } else {
-                r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
-            }
+    /*Replace them.*/
+    chars = rjs_string_get_uchars(rt, s);
+    start = 0;
 
-            if (r == RJS_ERR)
+    rjs_list_foreach_c(&results->seg_list, vls, RJS_ValueListSegment, ln) {
+        for (i = 0; i < vls->num; i ++) {
+            RJS_Number posn;
+            size_t     pos;
+
+            rjs_value_copy(rt, match, &vls->v[i]);
+
+            if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
                 goto end;
 
-            rjs_uchar_buffer_append_string(rt, &ucb, rstr);
+            if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+                goto end;
 
             if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
                 goto end;
 
-            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
+            if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
                 goto end;
 
-            start = idx + rjs_string_get_length(rt, mstr);
+            pos = RJS_CLAMP(posn, 0, len);
 
-            if (!global)
-                break;
-
-            if (rjs_string_get_length(rt, mstr) == 0) {
-                if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
-                    goto end;
+            if (func_rep) {
+                r = replace_func(rt, s, repv, mstr, pos, match, rstr);
+            } else {
+                r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
+            }
 
-                if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
-                    goto end;
+            if (r == RJS_ERR)
+                goto end;
 
-                idx = adv_str_index(rt, s, idx, unicode);
+            if (pos >= start) {
+                if (pos > start)
+                    rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
 
-                rjs_value_set_number(rt, idxv, idx);
+                rjs_uchar_buffer_append_string(rt, &ucb, rstr);
 
-                if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
-                    goto end;
+                start = pos + rjs_string_get_length(rt, mstr);
             }
         }
     }
-- 
2.43.0


From be003da9b70c12f1ae7091dc46d97beb93ab4015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 74/77] fix: file functions honour positions, convert before
 truncating and report errors

---
 src/lib/rjs_extension_opt.c | 76 ++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 1570318..9567e75 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -477,7 +477,10 @@ static RJS_NF(ext_encodeText)
 
     len = RJS_MIN(buf_len - from, len);
 
-    db = rjs_array_buffer_get_data_block(rt, buf);
+    if (!(db = rjs_array_buffer_get_data_block(rt, buf))) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
 
     rjs_array_buffer_lock(rt, buf);
     memcpy(db->data + from, cstr, len);
@@ -558,7 +561,10 @@ static RJS_NF(ext_decodeText)
 
     len = RJS_MAX(to - from, 0);
 
-    db = rjs_array_buffer_get_data_block(rt, buf);
+    if (!(db = rjs_array_buffer_get_data_block(rt, buf))) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
 
     rjs_array_buffer_lock(rt, buf);
     r = rjs_string_from_enc_chars(rt, rv, (char*)db->data + from, len, ecstr);
@@ -772,7 +778,7 @@ static RJS_NF(FileState_constructor)
     }
 
     if (nt) {
-        if ((r = rjs_constructor_prototype(rt, nt, cproto)) == RJS_ERR)
+        if ((r = rjs_get(rt, nt, rjs_pn_prototype(rt), cproto)) == RJS_ERR)
             goto end;
 
         if (!rjs_value_is_object(rt, cproto))
@@ -1023,7 +1029,8 @@ static RJS_NF(File_prototype_read)
 
         buf = rjs_data_block_get_buffer(db);
 
-        rn = fread(buf, 1, cnti, file->fp);
+        clearerr(file->fp);
+        rn = fread((uint8_t*)buf + posi, 1, cnti, file->fp);
 
         if ((rn == 0) && ferror(file->fp)) {
             r = rjs_throw_type_error(rt, _("fread failed: %s"), strerror(errno));
@@ -1098,7 +1105,8 @@ static RJS_NF(File_prototype_write)
 
         buf = rjs_data_block_get_buffer(db);
 
-        rn = fwrite(buf, 1, cnti, file->fp);
+        clearerr(file->fp);
+        rn = fwrite((uint8_t*)buf + posi, 1, cnti, file->fp);
 
         if ((rn != cnti) && ferror(file->fp)) {
             r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
@@ -1121,7 +1129,7 @@ static RJS_NF(File_prototype_seek)
 {
     RJS_Value *offset = rjs_argument_get(rt, args, argc, 0);
     RJS_Value *whence = rjs_argument_get(rt, args, argc, 1);
-    int64_t    offseti;
+    RJS_Number offseti;
     int32_t    whencei;
     RJS_File  *file;
     RJS_Result r;
@@ -1137,12 +1145,17 @@ static RJS_NF(File_prototype_seek)
         goto end;
     }
 
-    if ((r = rjs_to_index(rt, offset, &offseti)) == RJS_ERR)
+    if ((r = rjs_to_integer_or_infinity(rt, offset, &offseti)) == RJS_ERR)
         goto end;
 
     if ((r = rjs_to_int32(rt, whence, &whencei)) == RJS_ERR)
         goto end;
 
+    if (RJS_ABS(offseti) > RJS_MAX_INT) {
+        r = rjs_throw_range_error(rt, _("the offset overflow"));
+        goto end;
+    }
+
     if (fseek(file->fp, offseti, whencei) == -1) {
         r = rjs_throw_type_error(rt, _("fseek failed: %s"), strerror(errno));
         goto end;
@@ -1361,7 +1374,10 @@ static RJS_NF(File_prototype_putString)
         ecstr = NULL;
     }
 
-    pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr);
+    if (!(pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr))) {
+        r = RJS_ERR;
+        goto end;
+    }
 
     n = fwrite(pcstr, 1, pcb.item_num, file->fp);
     if (n != pcb.item_num) {
@@ -1532,11 +1548,6 @@ file_save_string (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv,
 
     ncstr = rjs_string_to_enc_chars(rt, nstr, &ncb, NULL);
 
-    if (!(fp = fopen(ncstr, mode))) {
-        r = rjs_throw_type_error(rt, _("fopen \"%s\" failed: %s"), ncstr, strerror(errno));
-        goto end;
-    }
-
     if ((r = rjs_to_string(rt, out, ostr)) == RJS_ERR)
         goto end;
 
@@ -1549,7 +1560,15 @@ file_save_string (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv,
         ecstr = NULL;
     }
 
-    ocstr = rjs_string_to_enc_chars(rt, ostr, &ocb, ecstr);
+    if (!(ocstr = rjs_string_to_enc_chars(rt, ostr, &ocb, ecstr))) {
+        r = RJS_ERR;
+        goto end;
+    }
+
+    if (!(fp = fopen(ncstr, mode))) {
+        r = rjs_throw_type_error(rt, _("fopen \"%s\" failed: %s"), ncstr, strerror(errno));
+        goto end;
+    }
 
     if (fwrite(ocstr, 1, ocb.item_num, fp) != ocb.item_num) {
         r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
@@ -1641,33 +1660,25 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
     size_t         top  = rjs_value_stack_save(rt);
     RJS_Value     *nstr = rjs_value_stack_push(rt);
     FILE          *fp   = NULL;
+    RJS_CharBuffer ncb;
     const char    *ncstr;
     RJS_DataBlock *db;
     uint8_t       *buf;
     int64_t        size, posi, cnti;
     RJS_Result     r;
 
+    rjs_char_buffer_init(rt, &ncb);
+
     if ((r = rjs_to_string(rt, name, nstr)) == RJS_ERR)
         goto end;
 
-    ncstr = rjs_string_to_enc_chars(rt, nstr, NULL, NULL);
-
-    if (!(fp = fopen(ncstr, mode))) {
-        r = rjs_throw_type_error(rt, _("fopen \"%s\" failed: %s"), ncstr, strerror(errno));
-        goto end;
-    }
+    ncstr = rjs_string_to_enc_chars(rt, nstr, &ncb, NULL);
 
     if (!rjs_is_array_buffer(rt, abuf)) {
         r = rjs_throw_type_error(rt, _("the value is not an array buffer"));
         goto end;
     }
 
-    if (!(db = rjs_array_buffer_get_data_block(rt, rv))) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
-        goto end;
-    }
-
-    buf  = rjs_data_block_get_buffer(db);
     size = rjs_array_buffer_get_size(rt, abuf);
 
     if (argc > 2) {
@@ -1688,6 +1699,18 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
         cnti = size - posi;
     }
 
+    if (!(db = rjs_array_buffer_get_data_block(rt, abuf))) {
+        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        goto end;
+    }
+
+    buf = rjs_data_block_get_buffer(db);
+
+    if (!(fp = fopen(ncstr, mode))) {
+        r = rjs_throw_type_error(rt, _("fopen \"%s\" failed: %s"), ncstr, strerror(errno));
+        goto end;
+    }
+
     if (fwrite(buf + posi, 1, cnti, fp) != cnti) {
         r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
         goto end;
@@ -1698,6 +1721,7 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
 end:
     if (fp)
         fclose(fp);
+    rjs_char_buffer_deinit(rt, &ncb);
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From b541a282a222b74a7781c6146924e175e8f216a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 75/77] fix: an unknown encoding or an invalid sequence throws
 an exception

---
 src/lib/rjs_string.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 27cd6e9..82529cd 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -184,12 +184,16 @@ rjs_string_from_enc_chars (RJS_Runtime *rt, RJS_Value *v,
 
     rjs_char_buffer_init(rt, &cb);
 
-    if ((r = rjs_conv_init(rt, &conv, enc, RJS_ENC_UCHAR)) == RJS_ERR)
+    if ((r = rjs_conv_init(rt, &conv, enc, RJS_ENC_UCHAR)) == RJS_ERR) {
+        r = rjs_throw_type_error(rt, _("do not support encoding \"%s\""), enc);
         goto end;
+    }
     conv_init = RJS_TRUE;
 
-    if ((r = rjs_conv_to_buffer(rt, &conv, chars, len, &cb)) == RJS_ERR)
+    if ((r = rjs_conv_to_buffer(rt, &conv, chars, len, &cb)) == RJS_ERR) {
+        r = rjs_throw_type_error(rt, _("invalid character sequence"));
         goto end;
+    }
 
     uc_len = cb.item_num / sizeof(RJS_UChar);
 
@@ -415,8 +419,10 @@ rjs_string_to_enc_chars (RJS_Runtime *rt, RJS_Value *v,
 
     s = rjs_value_get_string(rt, v);
 
-    if ((r = rjs_conv_init(rt, &conv, RJS_ENC_UCHAR, enc)) == RJS_ERR)
+    if ((r = rjs_conv_init(rt, &conv, RJS_ENC_UCHAR, enc)) == RJS_ERR) {
+        rjs_throw_type_error(rt, _("do not support encoding \"%s\""), enc);
         goto end;
+    }
     conv_init = RJS_TRUE;
 
     rjs_char_buffer_clear(rt, cb);
-- 
2.43.0


From 32a81ab1962276d231b52e355deed5399c24847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:36 +0000
Subject: [PATCH 76/77] fix: a weak map keeps the values of its living keys
 alive

---
 src/lib/include/rjs_weak_ref.h    | 10 ++++++++++
 src/lib/rjs_gc.c                  |  4 ++++
 src/lib/rjs_weak_map_object_inc.c |  1 +
 src/lib/rjs_weak_ref_opt.c        | 33 +++++++++++++++++++++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/src/lib/include/rjs_weak_ref.h b/src/lib/include/rjs_weak_ref.h
index 1e55019..4aaf7f7 100644
--- a/src/lib/include/rjs_weak_ref.h
+++ b/src/lib/include/rjs_weak_ref.h
@@ -41,8 +41,18 @@ struct RJS_WeakRef_s {
     RJS_Value    base; /**< The base value.*/
     RJS_Value    ref;  /**< The referenced value.*/
     RJS_WeakRefOnFinalFunc on_final; /**< On final function.*/
+    RJS_Value   *value; /**< The value kept alive while the base and the reference are alive.*/
 };
 
+/**
+ * Mark the values kept alive by the weak references.
+ * \param rt The current runtime.
+ * \retval RJS_TRUE Some things are newly marked.
+ * \retval RJS_FALSE Nothing is newly marked.
+ */
+RJS_INTERNAL RJS_Bool
+rjs_gc_scan_weak_values (RJS_Runtime *rt);
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_gc.c b/src/lib/rjs_gc.c
index 29a1961..ebd5555 100644
--- a/src/lib/rjs_gc.c
+++ b/src/lib/rjs_gc.c
@@ -182,6 +182,10 @@ gc_run (RJS_Runtime *rt)
     gc_scan_things(rt);
 
 #if ENABLE_WEAK_REF
+    /*Scan the values of the weak maps' living keys.*/
+    while (rjs_gc_scan_weak_values(rt))
+        gc_scan_things(rt);
+
     /*Solve the weak references.*/
     rjs_solve_weak_refs(rt);
 #endif /*ENABLE_WEAK_REF*/
diff --git a/src/lib/rjs_weak_map_object_inc.c b/src/lib/rjs_weak_map_object_inc.c
index 41021b2..e42234f 100644
--- a/src/lib/rjs_weak_map_object_inc.c
+++ b/src/lib/rjs_weak_map_object_inc.c
@@ -184,6 +184,7 @@ static RJS_NF(WeakMap_prototype_set)
         rjs_weak_ref_free(rt, wme->weak_ref);
 
     wme->weak_ref = rjs_weak_ref_add(rt, thiz, k, weak_map_on_final);
+    wme->weak_ref->value = &wme->me.value;
 
     rjs_value_copy(rt, rv, thiz);
     r = RJS_OK;
diff --git a/src/lib/rjs_weak_ref_opt.c b/src/lib/rjs_weak_ref_opt.c
index 5437b46..82a071f 100644
--- a/src/lib/rjs_weak_ref_opt.c
+++ b/src/lib/rjs_weak_ref_opt.c
@@ -47,6 +47,7 @@ rjs_weak_ref_add (RJS_Runtime *rt, RJS_Value *base, RJS_Value *ref,
     rjs_value_copy(rt, &wr->ref, ref);
 
     wr->on_final = on_final;
+    wr->value    = NULL;
 
     rjs_list_append(&rt->weak_ref_list, &wr->ln);
 
@@ -66,6 +67,38 @@ rjs_weak_ref_free (RJS_Runtime *rt, RJS_WeakRef *wr)
     RJS_DEL(rt, wr);
 }
 
+/**
+ * Mark the values kept alive by the weak references.
+ * \param rt The current runtime.
+ * \retval RJS_TRUE Some things are newly marked.
+ * \retval RJS_FALSE Nothing is newly marked.
+ */
+RJS_Bool
+rjs_gc_scan_weak_values (RJS_Runtime *rt)
+{
+    RJS_WeakRef *r;
+
+    rjs_list_foreach_c(&rt->weak_ref_list, r, RJS_WeakRef, ln) {
+        RJS_GcThing *gt;
+
+        if (!r->value)
+            continue;
+
+        gt = rjs_value_get_gc_thing(rt, &r->base);
+        if (!(gt->next_flags & RJS_GC_THING_FL_MARKED))
+            continue;
+
+        gt = rjs_value_get_gc_thing(rt, &r->ref);
+        if (!(gt->next_flags & RJS_GC_THING_FL_MARKED))
+            continue;
+
+        rjs_gc_scan_value(rt, r->value);
+    }
+
+    /*The newly marked things are to be scanned.*/
+    return rt->rb.gc_mark_stack.item_num || rt->rb.gc_mark_stack_full;
+}
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
-- 
2.43.0


From 9bac1ba77a02695e2d57dd093d85d5e62f068480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:36 +0000
Subject: [PATCH 77/77] fix: keep every registration of a finalization registry

---
 src/lib/include/rjs_finalization_registry.h |  2 -
 src/lib/rjs_finalization_registry_opt.c     | 74 ++++++---------------
 2 files changed, 21 insertions(+), 55 deletions(-)

diff --git a/src/lib/include/rjs_finalization_registry.h b/src/lib/include/rjs_finalization_registry.h
index 6ce30c0..5919d43 100644
--- a/src/lib/include/rjs_finalization_registry.h
+++ b/src/lib/include/rjs_finalization_registry.h
@@ -38,13 +38,11 @@ extern "C" {
 /**Finalization registry.*/
 typedef struct {
     RJS_Object  object;  /**< The base object data.*/
-    RJS_Hash    cb_hash; /**< The callback hash table.*/
     RJS_Value   func;    /**< The callback function.*/
 } RJS_FinalizationRegistry;
 
 /**Finalization callback.*/
 typedef struct {
-    RJS_HashEntry he;       /**< Hash table entry.*/
     RJS_List      ln;       /**< List node data.*/
     RJS_Value     registry; /**< The registry.*/
     RJS_Value     target;   /**< The target value.*/
diff --git a/src/lib/rjs_finalization_registry_opt.c b/src/lib/rjs_finalization_registry_opt.c
index 3dffa7b..5143ecf 100644
--- a/src/lib/rjs_finalization_registry_opt.c
+++ b/src/lib/rjs_finalization_registry_opt.c
@@ -62,8 +62,6 @@ rjs_gc_scan_finalization_registry (RJS_Runtime *rt)
         rjs_gc_scan_value(rt, &fcb->registry);
         rjs_gc_scan_value(rt, &fcb->held);
 
-        if (!rjs_same_value(rt, &fcb->target, &fcb->token))
-            rjs_gc_scan_value(rt, &fcb->token);
     }
 }
 
@@ -131,19 +129,14 @@ rjs_solve_finalization_registry (RJS_Runtime *rt)
             rjs_job_enqueue(rt, finalization_func, realm, finalization_scan, finalization_free, f);
 
             /*Remove the finalization entry.*/
-            if (!rjs_value_is_undefined(rt, &fcb->token)) {
-                RJS_HashEntry *he, **phe;
-                RJS_Result     r;
-
-                r = rjs_hash_lookup(&fr->cb_hash, &fcb->token, &he, &phe, &rjs_hash_value_ops, rt);
-                if (r) {
-                    rjs_hash_remove(&fr->cb_hash, phe, rt);
-                }
-            }
-
             rjs_list_remove(&fcb->ln);
 
             RJS_DEL(rt, fcb);
+        } else if (!rjs_value_is_undefined(rt, &fcb->token)) {
+            /*The token is held weakly.*/
+            gt = rjs_value_get_gc_thing(rt, &fcb->token);
+            if (!(gt->next_flags & RJS_GC_THING_FL_MARKED))
+                rjs_value_set_undefined(rt, &fcb->token);
         }
     }
 }
@@ -167,8 +160,6 @@ finalization_registry_op_gc_free (RJS_Runtime *rt, void *ptr)
 
     rjs_object_deinit(rt, &fr->object);
 
-    rjs_hash_deinit(&fr->cb_hash, &rjs_hash_value_ops, rt);
-
     RJS_DEL(rt, fr);
 }
 
@@ -207,12 +198,10 @@ rjs_finalization_registry_new (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *
     RJS_NEW(rt, fr);
 
     rjs_value_copy(rt, &fr->func, func);
-    rjs_hash_init(&fr->cb_hash);
 
     r = rjs_ordinary_init_from_constructor(rt, &fr->object, nt,
             RJS_O_FinalizationRegistry_prototype, &finalization_registry_ops, registry);
     if (r == RJS_ERR) {
-        rjs_hash_deinit(&fr->cb_hash, &rjs_hash_value_ops, rt);
         RJS_DEL(rt, fr);
         return r;
     }
@@ -234,9 +223,7 @@ RJS_Result
 rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *target,
         RJS_Value *held, RJS_Value *token)
 {
-    RJS_FinalizationRegistry *fr;
-    RJS_HashEntry            *he, **phe = NULL;
-    RJS_FinalizationCallback *fcb = NULL;
+    RJS_FinalizationCallback *fcb;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -252,27 +239,9 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
             return rjs_throw_type_error(rt, _("unregister token cannot be held weakly"));
     }
 
-    fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
-
-    if (!rjs_value_is_undefined(rt, token)) {
-        RJS_Result r;
-
-        r = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
-
-        if (r)
-            fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
-    }
-
-    if (!fcb) {
-        RJS_NEW(rt, fcb);
-
-        rjs_value_copy(rt, &fcb->token, token);
-
-        rjs_list_append(&rt->final_cb_list, &fcb->ln);
+    RJS_NEW(rt, fcb);
 
-        if (!rjs_value_is_undefined(rt, token))
-            rjs_hash_insert(&fr->cb_hash, &fcb->token, &fcb->he, phe, &rjs_hash_value_ops, rt);
-    }
+    rjs_list_append(&rt->final_cb_list, &fcb->ln);
 
     rjs_value_copy(rt, &fcb->registry, registry);
     rjs_value_copy(rt, &fcb->target, target);
@@ -293,10 +262,9 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
 RJS_Result
 rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *token)
 {
-    RJS_FinalizationRegistry *fr;
-    RJS_FinalizationCallback *fcb;
-    RJS_Result                r;
-    RJS_HashEntry            *he, **phe;
+    RJS_FinalizationCallback *fcb, *nfcb;
+    RJS_Object               *fr;
+    RJS_Bool                  removed = RJS_FALSE;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -304,16 +272,16 @@ rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *to
     if (!rjs_can_be_held_weakly(rt, token))
         return rjs_throw_type_error(rt, _("the unregister token cannot be held weakly"));
 
-    fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
-    r  = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
-    if (!r)
-        return RJS_FALSE;
+    fr = rjs_value_get_object(rt, registry);
 
-    fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
-
-    rjs_hash_remove(&fr->cb_hash, phe, rt);
-    rjs_list_remove(&fcb->ln);
+    rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
+        if ((rjs_value_get_object(rt, &fcb->registry) == fr)
+                && rjs_same_value(rt, &fcb->token, token)) {
+            rjs_list_remove(&fcb->ln);
+            RJS_DEL(rt, fcb);
+            removed = RJS_TRUE;
+        }
+    }
 
-    RJS_DEL(rt, fcb);
-    return RJS_TRUE;
+    return removed;
 }
-- 
2.43.0

