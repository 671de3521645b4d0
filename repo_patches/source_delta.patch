From 8a6a1a31ff7027172db46e79c35f28d1bb0f9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 01/90] fix: tail call reuses captured environment, restarts
 generators and async functions

---
 src/lib/rjs_bc_gen.c       |  3 +-
 src/lib/rjs_native_stack.c | 61 +++++++++++++++++++++++++++++++++-----
 2 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 022eb19..a3b7681 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3359,7 +3359,8 @@ bc_gen_for_in_of_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstForStmt *fs)
         assert(0);
     }
 
-    if (fs->ast.type == RJS_AST_AwaitForOfStmt)
+    /*The iterator must be closed after the call.*/
+    if (fs->ast.type != RJS_AST_ForInStmt)
         bg->tco = RJS_FALSE;
 
     /*Run loop statement.*/
diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 33d250c..b979ab8 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1129,6 +1129,40 @@ direct_eval (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv)
 
 #endif /*ENABLE_EVAL*/
 
+/*Check if the tail call of the function can reuse the running context.*/
+static RJS_Bool
+tail_call_optimizable (RJS_Runtime *rt, RJS_Context *ctxt, RJS_Value *func)
+{
+    RJS_ScriptContext    *sc = (RJS_ScriptContext*)ctxt;
+    RJS_ScriptFuncObject *sfo;
+    RJS_Environment      *env;
+    int                   flags;
+
+    if (!rjs_same_value(rt, &ctxt->function, func))
+        return RJS_FALSE;
+
+    sfo = (RJS_ScriptFuncObject*)rjs_value_get_object(rt, func);
+
+    /*These functions need a new generator/promise, or cannot be called.*/
+    flags = RJS_FUNC_FL_CLASS_CONSTR;
+#if ENABLE_ASYNC
+    flags |= RJS_FUNC_FL_ASYNC;
+#endif /*ENABLE_ASYNC*/
+#if ENABLE_GENERATOR
+    flags |= RJS_FUNC_FL_GENERATOR;
+#endif /*ENABLE_GENERATOR*/
+
+    if (sfo->script_func->flags & flags)
+        return RJS_FALSE;
+
+    /*"return f()" in a constructor may need the object created by "new".*/
+    for (env = sc->scb.var_env;
+            env && (env->gc_thing.ops->type != RJS_GC_THING_FUNCTION_ENV);
+            env = env->outer);
+
+    return env && rjs_value_is_undefined(rt, &((RJS_FunctionEnv*)env)->new_target);
+}
+
 /**
  * Call the function use the top call state in the stack.
  * \param rt The current runtime.
@@ -1149,7 +1183,7 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
     assert(s->type == RJS_STATE_CALL);
 
     if ((flags & RJS_CALL_FL_TCO)
-            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)) {
+            && tail_call_optimizable(rt, ctxt, s->s.s_call.func)) {
         /*Tail call optimize.*/
         RJS_ScriptContext *sc = (RJS_ScriptContext*)ctxt;
         RJS_Value         *args;
@@ -1172,31 +1206,42 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
         sc->args = args;
         sc->argc = argc;
 
-        /*Bind this argument.*/
-        rt->env         = sc->scb.lex_env;
-        sc->scb.lex_env = sc->scb.var_env;
+        /*The old environment may be captured, so create a new one.*/
+        rjs_function_env_new(rt, &rt->env, &ctxt->function, rjs_v_undefined(rt));
 
-        rjs_function_env_clear(rt, sc->scb.var_env);
-        rjs_ordinary_call_bind_this(rt, &ctxt->function, s->s.s_call.thiz);
+        sc->scb.var_env = rt->env;
         sc->scb.lex_env = rt->env;
 
+        /*Bind this argument.*/
+        rjs_ordinary_call_bind_this(rt, &ctxt->function, s->s.s_call.thiz);
+
         /*Pop up the states.*/
         while (sp < rt->rb.curr_native_stack->state.item_num) {
             if ((r = rjs_state_pop(rt)) == RJS_ERR)
                 return r;
         }
 
+        rt->env         = sc->scb.var_env;
+        sc->scb.lex_env = sc->scb.var_env;
+
         r = RJS_FALSE;
 #if ENABLE_EVAL
     } else if ((flags & RJS_CALL_FL_EVAL)
             && rjs_same_value(rt, s->s.s_call.func, rjs_o_eval(realm))) {
         r = direct_eval(rt, s->s.s_call.args, s->s.s_call.argc, rv);
-        
+
+        if (r != RJS_ERR)
+            r = RJS_OK;
+
         rjs_state_pop(rt);
 #endif /*ENABLE_EVAL*/
     } else {
         r = rjs_call(rt, s->s.s_call.func, s->s.s_call.thiz, s->s.s_call.args, s->s.s_call.argc, rv);
-        
+
+        /*RJS_FALSE is reserved for the optimized tail call.*/
+        if (r != RJS_ERR)
+            r = RJS_OK;
+
         rjs_state_pop(rt);
     }
 
-- 
2.43.0


From c1ff39daaabb622895f22738e8367aabc729641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 02/90] fix: signed overflow when composing 32 bits values from
 bytes

---
 src/lib/rjs_array_buffer_opt.c  | 12 ++++++------
 src/lib/rjs_conv_internal_opt.c |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_array_buffer_opt.c b/src/lib/rjs_array_buffer_opt.c
index 1ab0d5c..146c01f 100644
--- a/src/lib/rjs_array_buffer_opt.c
+++ b/src/lib/rjs_array_buffer_opt.c
@@ -335,9 +335,9 @@ rjs_get_value_from_raw (RJS_Runtime *rt, const uint8_t *b,
         uint32_t u32;
 
         if (is_little_endian)
-            u32 = b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+            u32 = b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24);
         else
-            u32 = (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
+            u32 = ((uint32_t)b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
 
         n = u32;
         rjs_value_set_number(rt, v, n);
@@ -347,9 +347,9 @@ rjs_get_value_from_raw (RJS_Runtime *rt, const uint8_t *b,
         int32_t s32;
 
         if (is_little_endian)
-            s32 = b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+            s32 = b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24);
         else
-            s32 = (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
+            s32 = ((uint32_t)b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
 
         n = s32;
         rjs_value_set_number(rt, v, n);
@@ -402,9 +402,9 @@ rjs_get_value_from_raw (RJS_Runtime *rt, const uint8_t *b,
         } u;
 
         if (is_little_endian)
-            u.i = b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+            u.i = b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24);
         else
-            u.i = (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
+            u.i = ((uint32_t)b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
 
         if (isnan(u.f))
             rjs_value_set_number(rt, v, NAN);
diff --git a/src/lib/rjs_conv_internal_opt.c b/src/lib/rjs_conv_internal_opt.c
index 16af330..753a4df 100644
--- a/src/lib/rjs_conv_internal_opt.c
+++ b/src/lib/rjs_conv_internal_opt.c
@@ -215,7 +215,7 @@ ucs_4le_to_uc (uint8_t *c, size_t len, uint32_t *puc)
     if (len < 4)
         return 0;
 
-    uc   = (c[3] << 24) | (c[2] << 16) | (c[1] << 8) | c[0];
+    uc   = ((uint32_t)c[3] << 24) | (c[2] << 16) | (c[1] << 8) | c[0];
     *puc = uc;
     return 4;
 }
@@ -243,7 +243,7 @@ ucs_4be_to_uc (uint8_t *c, size_t len, uint32_t *puc)
     if (len < 4)
         return 0;
 
-    uc   = (c[0] << 24) | (c[1] << 16) | (c[2] << 8) | c[3];
+    uc   = ((uint32_t)c[0] << 24) | (c[1] << 16) | (c[2] << 8) | c[3];
     *puc = uc;
     return 4;
 }
-- 
2.43.0


From f48b386f8d9198661391489ce132d7803fe3c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 03/90] fix: generator objects own a spurious "length" property

---
 src/lib/rjs_generator_opt.c      |  6 +++---
 src/lib/rjs_script_func_object.c | 12 +++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 17d9a48..2b887a9 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -1131,6 +1131,9 @@ rjs_generator_function_new (RJS_Runtime *rt, RJS_Value *f, RJS_Value *def_proto,
     rjs_script_func_object_init(rt, f, sfo, def_proto, script, sf, env, priv_env,
             &generator_function_ops);
 
+    /*Set the length.*/
+    rjs_set_function_length(rt, f, sf->param_len);
+
     /*Set the function's name.*/
     if (sf->name_idx != RJS_INVALID_VALUE_INDEX) {
         RJS_Value *name = &script->value_table[sf->name_idx];
@@ -1138,9 +1141,6 @@ rjs_generator_function_new (RJS_Runtime *rt, RJS_Value *f, RJS_Value *def_proto,
         rjs_set_function_name(rt, f, name, NULL);
     }
 
-    /*Set the length.*/
-    rjs_set_function_length(rt, f, sf->param_len);
-
     /*Set "prototype".*/
     rjs_ordinary_object_create(rt, proto_proto, proto);
 
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 5180168..235aa8f 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -381,13 +381,15 @@ rjs_script_func_object_init (RJS_Runtime *rt, RJS_Value *v, RJS_ScriptFuncObject
 
     rjs_base_func_object_init(rt, v, &sfo->bfo, proto, ops, script);
 
-    rjs_set_function_length(rt, v, sf->param_len);
-
-    if ((sf->name_idx != RJS_INVALID_VALUE_INDEX)
 #if ENABLE_GENERATOR
-            && !(sf->flags & RJS_FUNC_FL_GENERATOR)
+    /*The generator's properties are set by its creator.*/
+    if (sf->flags & RJS_FUNC_FL_GENERATOR)
+        return;
 #endif /*ENABLE_GENERATOR*/
-            ) {
+
+    rjs_set_function_length(rt, v, sf->param_len);
+
+    if (sf->name_idx != RJS_INVALID_VALUE_INDEX) {
         RJS_Value *n = &script->value_table[sf->name_idx];
 
         rjs_set_function_name(rt, v, n, NULL);
-- 
2.43.0


From 9589fb6e6dd3f6ab1a7f89634dc741d73ca1f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 04/90] fix: jobs are executed twice when the job queue is
 solved in a job

---
 src/lib/include/rjs_runtime.h |  1 +
 src/lib/rjs_job.c             | 42 ++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/lib/include/rjs_runtime.h b/src/lib/include/rjs_runtime.h
index 2bbae00..cd806e7 100644
--- a/src/lib/include/rjs_runtime.h
+++ b/src/lib/include/rjs_runtime.h
@@ -62,6 +62,7 @@ struct RJS_Runtime_s {
     RJS_Parser      *parser;               /**< The parser.*/
     RJS_Environment *env;                  /**< The environment.*/
     RJS_List         job_list;             /**< Job list.*/
+    RJS_List         running_job_list;     /**< Running job list.*/
     RJS_ModuleLookupFunc mod_lookup_func;  /**< Module lookup function.*/
     RJS_ModuleLoadFunc   mod_load_func;    /**< Module load function.*/
     RJS_NativeData   native_data;          /**< Native data of the runtime.*/
diff --git a/src/lib/rjs_job.c b/src/lib/rjs_job.c
index a23bf94..37649c4 100644
--- a/src/lib/rjs_job.c
+++ b/src/lib/rjs_job.c
@@ -74,20 +74,23 @@ rjs_job_enqueue (RJS_Runtime *rt, RJS_JobFunc func, RJS_Realm *realm,
 void
 rjs_solve_jobs (RJS_Runtime *rt)
 {
-    RJS_Job   *j, *nj;
+    RJS_Job   *j;
     RJS_Realm *old_realm = rt->rb.bot_realm;
 
     while (!rjs_list_is_empty(&rt->job_list)) {
-        rjs_list_foreach_safe_c(&rt->job_list, j, nj, RJS_Job, ln) {
+        j = RJS_CONTAINER_OF(rt->job_list.next, RJS_Job, ln);
 
-            rt->rb.bot_realm = j->realm;
-            
-            j->func(rt, j->data);
+        /*Dequeue the job before running it, this function may be called in the job.*/
+        rjs_list_remove(&j->ln);
+        rjs_list_append(&rt->running_job_list, &j->ln);
 
-            rjs_list_remove(&j->ln);
+        rt->rb.bot_realm = j->realm;
 
-            job_free(rt, j);
-        }
+        j->func(rt, j->data);
+
+        rjs_list_remove(&j->ln);
+
+        job_free(rt, j);
     }
 
     rt->rb.bot_realm = old_realm;
@@ -101,6 +104,7 @@ void
 rjs_runtime_job_init (RJS_Runtime *rt)
 {
     rjs_list_init(&rt->job_list);
+    rjs_list_init(&rt->running_job_list);
 }
 
 /**
@@ -117,16 +121,13 @@ rjs_runtime_job_deinit (RJS_Runtime *rt)
     }
 }
 
-/**
- * Scan the reference things in the jobs.
- * \param rt The current runtime.
- */
-void
-rjs_gc_scan_job (RJS_Runtime *rt)
+/*Scan the reference things in the job list.*/
+static void
+gc_scan_job_list (RJS_Runtime *rt, RJS_List *list)
 {
     RJS_Job *j;
 
-    rjs_list_foreach_c(&rt->job_list, j, RJS_Job, ln) {
+    rjs_list_foreach_c(list, j, RJS_Job, ln) {
         if (j->realm)
             rjs_gc_mark(rt, j->realm);
 
@@ -134,3 +135,14 @@ rjs_gc_scan_job (RJS_Runtime *rt)
             j->scan(rt, j->data);
     }
 }
+
+/**
+ * Scan the reference things in the jobs.
+ * \param rt The current runtime.
+ */
+void
+rjs_gc_scan_job (RJS_Runtime *rt)
+{
+    gc_scan_job_list(rt, &rt->job_list);
+    gc_scan_job_list(rt, &rt->running_job_list);
+}
-- 
2.43.0


From c96706d0f5ae6c3fe3501f6ec3a2d9fffca41124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 05/90] fix: "return" followed by "}" in the same line is
 reported as a syntax error

---
 src/lib/rjs_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 53b76d5..3468c05 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7170,7 +7170,10 @@ parse_return_stmt (RJS_Runtime *rt, RJS_Value *vs)
     }
 
     tok = get_token(rt);
-    if ((tok->location.first_line == parser->last_line) && (tok->type != RJS_TOKEN_semicolon)) {
+    if ((tok->location.first_line == parser->last_line)
+            && (tok->type != RJS_TOKEN_semicolon)
+            && (tok->type != RJS_TOKEN_rbrace)
+            && (tok->type != RJS_TOKEN_END)) {
         RJS_Ast *ast;
 
         unget_token(rt);
-- 
2.43.0


From 99975c9e1e2f47b17ea445a991f4018e621f1f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 06/90] fix: catch clause without parameter pops the enclosing
 declaration scope

---
 src/lib/rjs_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 3468c05..b0749cd 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6928,7 +6928,8 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
         r = parse_block(rt, &stmt->catch_block);
 
-        decl_pop(rt);
+        if (stmt->catch_decl)
+            decl_pop(rt);
 
         if (r == RJS_ERR)
             goto end;
-- 
2.43.0


From 6f0a257baea08d2fc77b2e8d5ec4332e6eb15bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 07/90] fix: "for (x in y)" in a function expression or method
 is reported as a syntax error

---
 src/lib/rjs_parser.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index b0749cd..a555107 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6399,6 +6399,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     RJS_Bool        is_decl     = RJS_FALSE;
     RJS_Bool        is_async_of = RJS_FALSE;
     RJS_AstDeclType dtype       = RJS_AST_DECL_LET;
+    int             old_flags   = parser->flags;
     size_t          top         = rjs_value_stack_save(rt);
     RJS_Value      *tmp         = rjs_value_stack_push(rt);
 
@@ -6429,6 +6430,9 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     if ((r = get_token_expect(rt, RJS_TOKEN_lparenthese)) == RJS_ERR)
         goto end;
 
+    /*"in" cannot be an operator here even if the function is in an expression.*/
+    parser->flags &= ~RJS_PARSE_FL_IN;
+
     tok = get_token(rt);
     if (tok->type == RJS_TOKEN_semicolon) {
         unget_token(rt);
@@ -6469,10 +6473,11 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
             RJS_AstExprStmt *es;
             RJS_Token       *ntok;
 
-            ntok = next_token(rt);
-            if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_async)
-                    && token_is_identifier(ntok->type, ntok->flags, RJS_IDENTIFIER_of))
-                is_async_of = RJS_TRUE;
+            if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_async)) {
+                ntok = next_token_div(rt);
+                if (token_is_identifier(ntok->type, ntok->flags, RJS_IDENTIFIER_of))
+                    is_async_of = RJS_TRUE;
+            }
 
             unget_token(rt);
 
@@ -6485,6 +6490,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
         }
     }
 
+    parser->flags = old_flags;
+
     if (is_decl) {
         RJS_AstList *l = ast_get(rt, &stmt->init);
 
@@ -6637,6 +6644,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
     r = RJS_OK;
 end:
+    parser->flags = old_flags;
+
     if (stmt) {
         if (parser->decl_stack) {
             if (parser->decl_stack == stmt->decl)
-- 
2.43.0


From 97c664373902c8b62018779e4fb496b63141a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 08/90] fix: number shift operations do not convert and mask
 their operands

---
 src/lib/rjs_number.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_number.c b/src/lib/rjs_number.c
index 2df6116..1e21a12 100644
--- a/src/lib/rjs_number.c
+++ b/src/lib/rjs_number.c
@@ -58,7 +58,7 @@ rjs_number_left_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value
     rjs_to_int32(rt, v1, &n1);
     rjs_to_uint32(rt, v2, &n2);
 
-    rn = n1 << (n2 & 31);
+    rn = (int32_t)((uint32_t)n1 << (n2 & 31));
 
     rjs_value_set_number(rt, rv, rn);
 }
@@ -95,9 +95,14 @@ rjs_number_signed_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJ
 void
 rjs_number_unsigned_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
 {
-    uint32_t n1 = rjs_value_get_number(rt, v1);
-    uint32_t n2 = rjs_value_get_number(rt, v2);
-    uint32_t rn = n1 >> n2;
+    uint32_t n1 = 0;
+    uint32_t n2 = 0;
+    uint32_t rn;
+
+    rjs_to_uint32(rt, v1, &n1);
+    rjs_to_uint32(rt, v2, &n2);
+
+    rn = n1 >> (n2 & 31);
 
     rjs_value_set_number(rt, rv, rn);
 }
-- 
2.43.0


From 08c60d354193d2fc88df8aa79b6ca50fbaca9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 09/90] fix: relational operators convert objects with hint
 "default" instead of "number"

---
 src/lib/rjs_bc_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 03974fe..c2ee7f5 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -601,9 +601,9 @@ do_bc_compare (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     RJS_Value *n2  = rjs_value_stack_push(rt);
     RJS_Result r;
 
-    if ((r = rjs_to_primitive(rt, v1, p1, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v1, p1, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
-    if ((r = rjs_to_primitive(rt, v2, p2, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v2, p2, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
 
     if (rjs_value_is_string(rt, p1) && rjs_value_is_string(rt, p2)) {
-- 
2.43.0


From 3e25cef9ba2945d89178a8f0cdc74b31dfd6a403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 10/90] fix: private environments are mismatched when classes
 are not generated in parse order

---
 src/lib/rjs_code_gen_inc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_code_gen_inc.c b/src/lib/rjs_code_gen_inc.c
index 216a9ed..f775897 100644
--- a/src/lib/rjs_code_gen_inc.c
+++ b/src/lib/rjs_code_gen_inc.c
@@ -447,12 +447,13 @@ gen_script_internal (RJS_Runtime *rt, RJS_Script *script)
         RJS_NEW_N(rt, script->priv_id_table, script->priv_id_num);
         RJS_NEW_N(rt, script->priv_env_table, script->priv_env_num);
 
-        env = script->priv_env_table;
         pid = script->priv_id_table;
         idx = 0;
 
         rjs_list_foreach_c(&parser->priv_env_list, ast_env, RJS_AstPrivEnv, ast.ln) {
             if (ast_env->id != -1) {
+                env = &script->priv_env_table[ast_env->id];
+
                 env->priv_id_start = idx;
                 env->priv_id_num   = ast_env->priv_id_hash.entry_num;
 
@@ -462,7 +463,6 @@ gen_script_internal (RJS_Runtime *rt, RJS_Script *script)
                 }
 
                 idx += env->priv_id_num;
-                env ++;
             }
         }
     }
-- 
2.43.0


From 43514d6bcf54dc3cb7afd6f296a397df16cb7150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 11/90] fix: strings as "02" or " 2 " are treated as array
 indices

---
 src/lib/rjs_string.c | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index d0e2059..fa48fe2 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -494,24 +494,17 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     uc  = string_get_uchars(s);
     len = s->length;
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            break;
-
-        uc  ++;
-        len --;
-    }
-
     if (!len)
         goto end;
-        
-    if (!rjs_uchar_is_digit(*uc))
+
+    /*Only "0" can start with character '0'.*/
+    if ((*uc == '0') && (len > 1))
         goto end;
 
     n = 0;
     while (len) {
         if (!rjs_uchar_is_digit(*uc))
-            break;
+            goto end;
 
         n *= 10;
         n += *uc - '0';
@@ -523,14 +516,6 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
         len --;
     }
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            goto end;
-
-        uc  ++;
-        len --;
-    }
-
     is_idx = RJS_TRUE;
     *pi    = n;
 end:
-- 
2.43.0


From defa45363438a86d476b1ba4981029bbf08daba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 12/90] fix: operator "in" converts its key before checking the
 object

---
 src/lib/rjs_bc_call.c | 24 +++++++++++++++++++++++-
 src/lib/rjs_bc_gen.c  |  9 +--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index c2ee7f5..9e272a3 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -715,8 +715,30 @@ end:
         goto error;\
     rjs_value_set_boolean(rt, result, !r);
 
+/*Check if the object has the property.*/
+static RJS_Result
+do_bc_has_prop (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p)
+{
+    size_t      top = rjs_value_stack_save(rt);
+    RJS_Value  *key = rjs_value_stack_push(rt);
+    RJS_Result  r;
+
+    if (!rjs_value_is_object(rt, o)) {
+        r = rjs_throw_type_error(rt, _("the value is not an object"));
+        goto end;
+    }
+
+    if ((r = rjs_to_property_key(rt, p, key)) == RJS_ERR)
+        goto end;
+
+    r = rjs_has_property(rt, o, key);
+end:
+    rjs_value_stack_restore(rt, top);
+    return r;
+}
+
 #define bc_has_prop(operand1, operand2, result)\
-    if ((r = rjs_has_property(rt, operand1, operand2)) == RJS_ERR)\
+    if ((r = do_bc_has_prop(rt, operand1, operand2)) == RJS_ERR)\
         goto error;\
     rjs_value_set_boolean(rt, result, r);
 
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index a3b7681..6ae9842 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1284,14 +1284,7 @@ bc_gen_in_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstBinaryExpr *expr, int rid
     } else
 #endif /*ENABLE_PRIV_NAME*/
     {
-        int tr = bc_reg_add(rt, bg);
-
-        bc_gen_expr(rt, bg, ast, tr);
-
-        cid = bc_cmd_add(rt, bg, RJS_BC_to_prop, line);
-        cmd = bc_cmd_get(bg, cid);
-        cmd->unary.operand = tr;
-        cmd->unary.result  = r1;
+        bc_gen_expr(rt, bg, ast, r1);
 
         bc_type = RJS_BC_has_prop;
     }
-- 
2.43.0


From ed7d6a0f7cb05435f3c2bd9a09adafe1c26c6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 13/90] fix: assignment to a "const" binding is ignored in
 sloppy mode

---
 src/lib/rjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index a555107..a63267a 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7436,7 +7436,7 @@ parse_lexical_decl (RJS_Runtime *rt, RJS_Value *vs)
         dtype = RJS_AST_DECL_LET;
     } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_const)) {
         type  = RJS_AST_ConstDecl;
-        dtype = RJS_AST_DECL_CONST;
+        dtype = RJS_AST_DECL_STRICT;
     } else {
         parse_unexpect_error(rt, &tok->location, _("`let\' or `const\'"));
         goto end;
-- 
2.43.0


From 244f0a059b3bb8e10bcde5cafdc74c3ea3a3fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 14/90] fix: invalid base of an assignment target is reported
 before the value is evaluated

---
 src/lib/rjs_bc_gen.c | 46 +++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 6ae9842..ec1de0c 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -436,9 +436,11 @@ bc_gen_binding_init (RJS_Runtime *rt, RJS_BcGen *bg, int line, RJS_AstBindingRef
     return RJS_OK;
 }
 
-/*Generate reference.*/
+/*Generate reference.
+ * If "check_base" is false, the property's base value is not checked here.
+ * Invalid base value is reported when the reference is accessed.*/
 static RJS_Result
-bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *ref)
+bc_gen_ref_real (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *ref, RJS_Bool check_base)
 {
     int            cid;
     int            line;
@@ -488,9 +490,11 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
 
             line = line1;
 
-            cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
-            cmd = bc_cmd_get(bg, cid);
-            cmd->store.value = ref->base_rid;
+            if (check_base) {
+                cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
+                cmd = bc_cmd_get(bg, cid);
+                cmd->store.value = ref->base_rid;
+            }
         } else {
             int tmp_rid = bc_reg_add(rt, bg);
 
@@ -500,9 +504,11 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
 
             bc_gen_expr(rt, bg, ast, tmp_rid);
 
-            cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
-            cmd = bc_cmd_get(bg, cid);
-            cmd->store.value = ref->base_rid;
+            if (check_base) {
+                cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
+                cmd = bc_cmd_get(bg, cid);
+                cmd->store.value = ref->base_rid;
+            }
 
             cid = bc_cmd_add(rt, bg, RJS_BC_to_prop, line);
             cmd = bc_cmd_get(bg, cid);
@@ -570,14 +576,14 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         RJS_AstUnaryExpr *ue  = (RJS_AstUnaryExpr*)expr;
         RJS_Ast          *ast = bc_ast_get(rt, &ue->operand);
 
-        bc_gen_ref(rt, bg, ast, rid, ref);
+        bc_gen_ref_real(rt, bg, ast, rid, ref, check_base);
         break;
     }
     case RJS_AST_OptionalBase: {
         RJS_AstUnaryExpr *ue  = (RJS_AstUnaryExpr*)expr;
         RJS_Ast          *ast = bc_ast_get(rt, &ue->operand);
 
-        bc_gen_ref(rt, bg, ast, rid, ref);
+        bc_gen_ref_real(rt, bg, ast, rid, ref, check_base);
 
         ref->opt_base = RJS_TRUE;
         break;
@@ -592,7 +598,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         bg->opt_end_label  = bc_label_add(rt, bg);
         bg->opt_res_reg    = rid;
 
-        bc_gen_ref(rt, bg, ast, rid, ref);
+        bc_gen_ref_real(rt, bg, ast, rid, ref, check_base);
 
         ref->opt_expr = RJS_TRUE;
         break;
@@ -610,6 +616,20 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
     return RJS_OK;
 }
 
+/*Generate reference.*/
+static RJS_Result
+bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *ref)
+{
+    return bc_gen_ref_real(rt, bg, expr, rid, ref, RJS_TRUE);
+}
+
+/*Generate the reference of an assignment target.*/
+static RJS_Result
+bc_gen_target_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, RJS_BcRef *ref)
+{
+    return bc_gen_ref_real(rt, bg, expr, -1, ref, RJS_FALSE);
+}
+
 /*Get this value from the reference.*/
 static RJS_Result
 bc_ref_get_this (RJS_Runtime *rt, RJS_BcGen *bg, int line, int *tr, RJS_BcRef *ref)
@@ -1019,7 +1039,7 @@ static RJS_Result
 bc_gen_assi_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *lh, RJS_BcRef *ref)
 {
     if ((lh->type != RJS_AST_ArrayBinding) && (lh->type != RJS_AST_ObjectBinding)) {
-        bc_gen_ref(rt, bg, lh, -1, ref);
+        bc_gen_target_ref(rt, bg, lh, ref);
     }
 
     return RJS_OK;
@@ -1066,7 +1086,7 @@ bc_gen_assi_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstBinaryExpr *expr, int r
         else
             bc_gen_object_assi(rt, bg, (RJS_AstList*)ast, rid);
     } else {
-        bc_gen_ref(rt, bg, ast, -1, &ref);
+        bc_gen_target_ref(rt, bg, ast, &ref);
 
         ast = bc_ast_get(rt, &expr->operand2);
         bc_gen_expr(rt, bg, ast, rid);
-- 
2.43.0


From 2884cdc7a5d45d0de1159bfadb42e1bc9adf00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 15/90] fix: property references in arrow function parameters
 are allocated in the outer function

---
 src/lib/include/rjs_parser.h | 10 ++++++++++
 src/lib/rjs_code_gen_inc.c   |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/lib/include/rjs_parser.h b/src/lib/include/rjs_parser.h
index d0b7241..c71abb4 100644
--- a/src/lib/include/rjs_parser.h
+++ b/src/lib/include/rjs_parser.h
@@ -461,6 +461,16 @@ rjs_code_gen_prop_ref_idx (RJS_Runtime *rt, RJS_AstPropRef *pr)
     if (!pr)
         return -1;
 
+    /*The reference in arrow function's parameters is created in the outer function.*/
+    if (pr->func != parser->func_stack) {
+        size_t     top = rjs_value_stack_save(rt);
+        RJS_Value *tmp = rjs_value_stack_push(rt);
+
+        pr = rjs_code_gen_prop_ref(rt, tmp, &pr->ast.location, parser->func_stack, &pr->prop->value);
+
+        rjs_value_stack_restore(rt, top);
+    }
+
     if (pr->id == -1) {
         pr->id = pr->func->prop_ref_num ++;
 
diff --git a/src/lib/rjs_code_gen_inc.c b/src/lib/rjs_code_gen_inc.c
index f775897..d802584 100644
--- a/src/lib/rjs_code_gen_inc.c
+++ b/src/lib/rjs_code_gen_inc.c
@@ -199,10 +199,13 @@ gen_func (RJS_Runtime *rt, RJS_AstFunc *func)
     }
 
     parser->decl_stack   = NULL;
+    parser->func_stack   = func;
     func->prop_ref_start = parser->prop_ref_num;
 
     r = rjs_bc_gen_func(rt, bg, func);
 
+    parser->func_stack   = NULL;
+
     return r;
 }
 
-- 
2.43.0


From 2388299e901c62b539670e1f33b2e0e4d2fc1283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 16/90] fix: strings as "" or " 2 " are treated as indices of
 string objects

---
 src/lib/rjs_primitive_object.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_primitive_object.c b/src/lib/rjs_primitive_object.c
index a08c7e0..af4bd00 100644
--- a/src/lib/rjs_primitive_object.c
+++ b/src/lib/rjs_primitive_object.c
@@ -70,12 +70,12 @@ string_get_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p, RJS_Proper
     uint64_t             idx;
     size_t               len;
 
-    if (rjs_value_is_string(rt, p)) {
-        if ((r = rjs_to_number(rt, p, &n)) == RJS_ERR)
-            return r;
-    } else {
+    if (!rjs_value_is_string(rt, p))
         return RJS_FALSE;
-    }
+
+    r = rjs_canonical_numeric_index_string(rt, p, &n);
+    if (r != RJS_TRUE)
+        return r;
 
     if (isinf(n) || isnan(n))
         return RJS_FALSE;
@@ -89,10 +89,11 @@ string_get_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p, RJS_Proper
     po  = (RJS_PrimitiveObject*)rjs_value_get_object(rt, o);
     len = rjs_string_get_length(rt, &po->value);
 
-    idx = n;
-    if (idx >= len)
+    if (n >= len)
         return RJS_FALSE;
 
+    idx = n;
+
     pd->flags = RJS_PROP_FL_DATA|RJS_PROP_FL_ENUMERABLE;
 
     rjs_string_substr(rt, &po->value, idx, idx + 1, pd->value);
-- 
2.43.0


From 32be17b8fdd329e0718dba034b745c8e4d50bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 17/90] fix: numbers not less than 2^63 are converted to wrong
 8/16/32 bits integers

---
 include/ratjs/rjs_operation.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index cd5419e..cbe604c 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -723,6 +723,20 @@ rjs_to_integer_or_infinity (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
     return RJS_OK;
 }
 
+/**
+ * Convert the finite number to an integer congruent to it modulo 2^32.
+ * \param n The finite number.
+ * \return The integer.
+ */
+static inline int64_t
+rjs_number_wrap_integer (RJS_Number n)
+{
+    if (fabs(n) >= 9223372036854775808.)
+        n = fmod(n, 4294967296.);
+
+    return (int64_t)n;
+}
+
 /**
  * Convert the value to 8 bits signed integer.
  * \param rt The current runtime.
@@ -743,7 +757,7 @@ rjs_to_int8 (RJS_Runtime *rt, RJS_Value *v, int8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_wrap_integer(n);
     }
 
     return RJS_OK;
@@ -769,7 +783,7 @@ rjs_to_uint8 (RJS_Runtime *rt, RJS_Value *v, uint8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_wrap_integer(n);
     }
 
     return RJS_OK;
@@ -834,7 +848,7 @@ rjs_to_int16 (RJS_Runtime *rt, RJS_Value *v, int16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_wrap_integer(n);
     }
 
     return RJS_OK;
@@ -860,7 +874,7 @@ rjs_to_uint16 (RJS_Runtime *rt, RJS_Value *v, uint16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_wrap_integer(n);
     }
 
     return RJS_OK;
@@ -886,7 +900,7 @@ rjs_to_int32 (RJS_Runtime *rt, RJS_Value *v, int32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_wrap_integer(n);
     }
 
     return RJS_OK;
@@ -912,7 +926,7 @@ rjs_to_uint32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_wrap_integer(n);
     }
 
     return RJS_OK;
-- 
2.43.0


From b8ef403bdfaf6d192b06472ea17890cce17ecb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 18/90] fix: Function.prototype.toString converts the "length"
 property of the function

---
 src/lib/rjs_function_object_inc.c | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/src/lib/rjs_function_object_inc.c b/src/lib/rjs_function_object_inc.c
index 168ce0f..a3fe273 100644
--- a/src/lib/rjs_function_object_inc.c
+++ b/src/lib/rjs_function_object_inc.c
@@ -188,8 +188,6 @@ static RJS_NF(Function_prototype_toString)
     RJS_Value      *name  = NULL;
     int             flags = 0;
     RJS_GcThingType gtt;
-    int64_t         len;
-    int             i;
     RJS_UCharBuffer ucb;
     RJS_Result      r;
 
@@ -239,23 +237,7 @@ static RJS_NF(Function_prototype_toString)
     if (name)
         rjs_uchar_buffer_append_string(rt, &ucb, name);
 
-    rjs_uchar_buffer_append_uchar(rt, &ucb, '(');
-
-    if ((r = rjs_length_of_array_like(rt, thiz, &len)) == RJS_ERR)
-        goto end;
-
-    for (i = 0; i < (int)len; i ++) {
-        char buf[32];
-
-        if (i)
-            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
-
-        snprintf(buf, sizeof(buf), "p%d", i);
-
-        rjs_uchar_buffer_append_chars(rt, &ucb, buf, -1);
-    }
-
-    rjs_uchar_buffer_append_chars(rt, &ucb, "){[native code]}", -1);
+    rjs_uchar_buffer_append_chars(rt, &ucb, "(){[native code]}", -1);
 
     rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 
-- 
2.43.0


From 3822d2d507de24c8be8a01b6d3b2259f2718aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 19/90] fix: an exception pending in "finally" hides errors of
 iterator closing

---
 src/lib/rjs_bc_call.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 9e272a3..6524956 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1190,7 +1190,8 @@ end:
 #define bc_finally()\
     RJS_State *s = rjs_state_top(rt);\
     assert(s->type == RJS_STATE_TRY);\
-    s->s.s_try.state = RJS_TRY_STATE_FINALLY;
+    s->s.s_try.state = RJS_TRY_STATE_FINALLY;\
+    rjs_catch(rt, NULL);
 
 #define bc_try_end()\
     RJS_State *s = rjs_state_top(rt);\
-- 
2.43.0


From 97f769d2c2fa34fd2d44d1e22b5e05e0e570e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 20/90] fix: substitutions of a template literal are converted
 after all of them are evaluated

---
 gen/bc/bc.json        | 1 +
 src/lib/rjs_bc_call.c | 6 ++++++
 src/lib/rjs_bc_gen.c  | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/gen/bc/bc.json b/gen/bc/bc.json
index 5f670b8..5cfd815 100644
--- a/gen/bc/bc.json
+++ b/gen/bc/bc.json
@@ -68,6 +68,7 @@
             "yield",
             "yield_iter_start",
             "arg_add",
+            "str_arg_add",
             "spread_args_add",
             "push_new",
             "push_array_assi",
diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 6524956..6e1dcd1 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -987,6 +987,12 @@ end:
     if ((r = rjs_call_state_push_arg(rt, arg)) == RJS_ERR)\
         goto error;
 
+#define bc_str_arg_add(arg)\
+    if ((r = rjs_to_string(rt, arg, arg)) == RJS_ERR)\
+        goto error;\
+    if ((r = rjs_call_state_push_arg(rt, arg)) == RJS_ERR)\
+        goto error;
+
 #define bc_spread_args_add(arg)\
     if ((r = rjs_call_state_push_spread_args(rt, arg)) == RJS_ERR)\
         goto error;
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index ec1de0c..e1e869c 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1622,7 +1622,7 @@ bc_gen_templ_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTemplate *expr, int ri
 
         line = ast->location.first_line;
 
-        cid = bc_cmd_add(rt, bg, RJS_BC_arg_add, line);
+        cid = bc_cmd_add(rt, bg, (fr == -1) ? RJS_BC_str_arg_add : RJS_BC_arg_add, line);
         cmd = bc_cmd_get(bg, cid);
         cmd->store.value = tr;
     }
-- 
2.43.0


From b8664e947ed8030fab210b10a2bcc1f74ce4f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 21/90] fix: class fields are not installed when static
 elements create instances

---
 src/lib/rjs_native_stack.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index b979ab8..1a4f02a 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -678,6 +678,20 @@ rjs_class_state_init (RJS_Runtime *rt)
             sf->is_af = se->is_af;
             sf ++;
             break;
+        case RJS_CLASS_ELEMENT_STATIC_INIT:
+        case RJS_CLASS_ELEMENT_FIELD:
+            break;
+        default:
+            assert(0);
+            break;
+        }
+    }
+
+    /*The class can be instantiated by the static elements.*/
+    bfo->clazz = clazz;
+
+    rjs_list_foreach_c(s->s.s_class.elem_list, se, RJS_StateClassElement, ln) {
+        switch (se->type) {
         case RJS_CLASS_ELEMENT_STATIC_INIT:
             if ((r = rjs_call(rt, &se->value, s->s.s_class.constr, NULL, 0, NULL)) == RJS_ERR)
                 goto end;
@@ -687,17 +701,15 @@ rjs_class_state_init (RJS_Runtime *rt)
                 goto end;
             break;
         default:
-            assert(0);
             break;
         }
 
         s = rjs_state_top(rt);
     }
 
-    bfo->clazz = clazz;
     r = RJS_OK;
 end:
-    if (r == RJS_ERR) {
+    if ((r == RJS_ERR) && !bfo->clazz) {
 #if ENABLE_PRIV_NAME
         if (clazz->priv_methods)
             RJS_DEL_N(rt, clazz->priv_methods, clazz->priv_method_num);
-- 
2.43.0


From 418bb8b1a10e98c4456fb3062c3550a6a666c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 22/90] fix: native error prototypes own a "toString" method

---
 src/lib/rjs_error.c | 51 +++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/lib/rjs_error.c b/src/lib/rjs_error.c
index fcaff36..52a3655 100644
--- a/src/lib/rjs_error.c
+++ b/src/lib/rjs_error.c
@@ -472,7 +472,18 @@ end:
     return r;
 }
 
-#define ERROR_DESCS(name, parent)\
+/*Error prototype's methods.*/
+static const RJS_BuiltinFuncDesc
+Error_proto_func_descs[] = {
+    {
+        "toString",
+        0,
+        error_toString
+    },
+    {NULL}
+};
+
+#define ERROR_DESCS(name, parent, funcs)\
 static RJS_NF(name##_constructor)\
 {\
     return generic_error_constructor(rt, f, args, argc, nt, RJS_O_##name##_prototype, rv);\
@@ -489,15 +500,6 @@ name##_proto_field_descs[] = {\
     {"message", RJS_VALUE_STRING, 0, "", RJS_PROP_ATTR_WRITABLE|RJS_PROP_ATTR_CONFIGURABLE},\
     {NULL}\
 };\
-static const RJS_BuiltinFuncDesc \
-name##_proto_func_descs[] = {\
-    {\
-        "toString",\
-        0,\
-        error_toString\
-    },\
-    {NULL}\
-};\
 static const RJS_BuiltinObjectDesc \
 name##_proto_desc = {\
     #name "_prototype",\
@@ -505,7 +507,7 @@ name##_proto_desc = {\
     NULL,\
     NULL,\
     name##_proto_field_descs,\
-    name##_proto_func_descs,\
+    funcs,\
     NULL,\
     NULL,\
     #name "_prototype"\
@@ -582,17 +584,6 @@ AggregateError_proto_field_descs[] = {
     {NULL}
 };
 
-/*AggregateError prototype's methods.*/
-static const RJS_BuiltinFuncDesc
-AggregateError_proto_func_descs[] = {
-    {
-        "toString",
-        0,
-        error_toString
-    },
-    {NULL}
-};
-
 /*AggregateError prototype's description.*/
 static const RJS_BuiltinObjectDesc
 AggregateError_proto_desc = {
@@ -601,21 +592,21 @@ AggregateError_proto_desc = {
     NULL,
     NULL,
     AggregateError_proto_field_descs,
-    AggregateError_proto_func_descs,
+    NULL,
     NULL,
     NULL,
     "AggregateError_prototype"
 };
 
-ERROR_DESCS(Error, NULL)
-ERROR_DESCS(EvalError, "Error_prototype")
-ERROR_DESCS(RangeError, "Error_prototype")
-ERROR_DESCS(ReferenceError, "Error_prototype")
-ERROR_DESCS(SyntaxError, "Error_prototype")
-ERROR_DESCS(TypeError, "Error_prototype")
+ERROR_DESCS(Error, NULL, Error_proto_func_descs)
+ERROR_DESCS(EvalError, "Error_prototype", NULL)
+ERROR_DESCS(RangeError, "Error_prototype", NULL)
+ERROR_DESCS(ReferenceError, "Error_prototype", NULL)
+ERROR_DESCS(SyntaxError, "Error_prototype", NULL)
+ERROR_DESCS(TypeError, "Error_prototype", NULL)
 
 #if ENABLE_URI
-ERROR_DESCS(URIError, "Error_prototype")
+ERROR_DESCS(URIError, "Error_prototype", NULL)
 #endif /*ENABLE_URI*/
 
 #define ERROR_OBJECT(name, parent)\
-- 
2.43.0


From d1dc7d36cf57fb2ba640ec653a441e1157536112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 23/90] fix: object of for-in statement is collected while its
 iterator is created

---
 src/lib/rjs_for_in_iterator.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index 7994454..ca1a7bf 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -117,9 +117,15 @@ RJS_Result
 rjs_for_in_iterator_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *v)
 {
     RJS_Realm         *realm = rjs_realm_current(rt);
+    size_t             top   = rjs_value_stack_save(rt);
+    RJS_Value         *o     = rjs_value_stack_push(rt);
     RJS_ForInIterator *fii;
     RJS_Result         r;
 
+    /*The iterator cannot be scanned by GC now, so keep the object in the stack.*/
+    if (!rjs_value_is_null(rt, v) && !rjs_value_is_undefined(rt, v))
+        rjs_to_object(rt, v, o);
+
     RJS_NEW(rt, fii);
 
     if (rjs_value_is_null(rt, v) || rjs_value_is_undefined(rt, v)) {
@@ -128,7 +134,7 @@ rjs_for_in_iterator_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *v)
     } else {
         fii->visited = RJS_FALSE;
 
-        rjs_to_object(rt, v, &fii->v);
+        rjs_value_copy(rt, &fii->v, o);
     }
 
     rjs_value_set_undefined(rt, &fii->keys);
@@ -136,6 +142,7 @@ rjs_for_in_iterator_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *v)
 
     r = rjs_object_init(rt, iterv, &fii->object, rjs_o_ForInIteratorPrototype(realm), &for_in_iterator_ops);
 
+    rjs_value_stack_restore(rt, top);
     return r;
 }
 
-- 
2.43.0


From f365ebbcc0a47494c7017c68308e50fb17e3f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 24/90] fix: value of an overridden "return" becomes the result
 of the function

---
 src/lib/rjs_bc_call.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 6e1dcd1..f68f27b 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1348,7 +1348,7 @@ restart:
         }
     }
 
-    rjs_value_set_undefined(rt, rv);
+    rjs_value_set_undefined(rt, &sc->retv);
 
     r = RJS_OK;
 ret:
-- 
2.43.0


From 982acd0f1bf1a003e3e5dad5337fdae9cec5021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 25/90] fix: "yield" and "await" after a method of an object
 literal are syntax errors

---
 src/lib/rjs_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index a63267a..352d1a4 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3504,7 +3504,8 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
 
                         if (tok->type == RJS_TOKEN_lparenthese) {
                             RJS_AstClassElem *m;
-                            RJS_Ast          *cen = ast_get(rt, tmp1);
+                            RJS_Ast          *cen       = ast_get(rt, tmp1);
+                            int               old_flags = parser->flags;
 
                             m = ast_new(rt, tmp2, RJS_AST_ClassElem, cen ? &cen->location : &tok->location);
 
@@ -3518,6 +3519,7 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
 
                             unget_token(rt);
                             r = parse_method_params_body(rt, RJS_TRUE, m, 0);
+                            parser->flags = old_flags;
                             if (r == RJS_OK)
                                 rjs_list_append(&o->list, &m->ast.ln);
                         } else if (tok->type == RJS_TOKEN_colon) {
-- 
2.43.0


From d63aac2cde46aeee508852e095de4ecfbbddee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 26/90] fix: errors caught while an iterator is closed replace
 the pending error

---
 src/lib/rjs_bc_call.c  | 10 +++++-----
 src/lib/rjs_iterator.c | 16 +++++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index f68f27b..c4eca15 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -48,12 +48,12 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
 
     ASYNC_OP_DEBUG();
 
-    if ((r = rjs_await_async_iterator_close(rt, type, iv, rv)) == RJS_ERR)
-        return r;
+    /*The original error is thrown even if the closing failed.*/
+    if ((r = ac->i0) == RJS_ERR)
+        return rjs_throw(rt, &ac->v0);
 
-    r = ac->i0;
-    if (r == RJS_ERR)
-        rjs_throw(rt, &ac->v0);
+    if (rjs_await_async_iterator_close(rt, type, iv, rv) == RJS_ERR)
+        return RJS_ERR;
 
     return r;
 }
diff --git a/src/lib/rjs_iterator.c b/src/lib/rjs_iterator.c
index 0d57001..1f88e97 100644
--- a/src/lib/rjs_iterator.c
+++ b/src/lib/rjs_iterator.c
@@ -272,9 +272,10 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
     RJS_Bool   is_err;
     RJS_Result r;
 
+    /*Keep the pending error, functions invoked here may catch other errors.*/
     is_err = rt->error_flag;
     if (is_err)
-        rjs_value_copy(rt, err, &rt->error);
+        rjs_catch(rt, err);
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -294,8 +295,10 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
 
     r = RJS_OK;
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
@@ -324,9 +327,10 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
     RJS_Bool    is_err;
     RJS_Result  r;
 
+    /*Keep the pending error, functions invoked here may catch other errors.*/
     is_err = rt->error_flag;
     if (is_err)
-        rjs_value_copy(rt, err, &rt->error);
+        rjs_catch(rt, err);
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -340,10 +344,12 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
         goto end;
 
     if (op)
-        r = rjs_await(rt, res, op, ip, vp);
+        r = rjs_await(rt, res, op, ip, (is_err && (vp == &rt->error)) ? err : vp);
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From 0cb0dbedc15e13db29441a2d3994f17ed2a514d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 27/90] fix: "return" in "for await" loses its value

---
 src/lib/rjs_bc_call.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index c4eca15..c4ea7ad 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -55,6 +55,10 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
     if (rjs_await_async_iterator_close(rt, type, iv, rv) == RJS_ERR)
         return RJS_ERR;
 
+    /*Keep the return value of the function.*/
+    if (r == RJS_RETURN)
+        rjs_value_copy(rt, rv, &((RJS_ScriptContext*)ac)->retv);
+
     return r;
 }
 
-- 
2.43.0


From d40bb22dcdc5ec14e43a2ec234e43660d19e7d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 28/90] fix: "next" queued on a completed async generator
 returns its argument

---
 src/lib/rjs_generator_opt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 2b887a9..1b232c8 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -432,7 +432,9 @@ rjs_async_generator_drain_queue (RJS_Runtime *rt, RJS_Value *gv)
             async_generator_await_return(rt, gv);
             break;
         } else {
-            rjs_async_generator_complete_step(rt, gv, agr->type, &agr->value, RJS_TRUE, NULL);
+            RJS_Value *v = (agr->type == RJS_GENERATOR_REQUEST_NEXT) ? rjs_v_undefined(rt) : &agr->value;
+
+            rjs_async_generator_complete_step(rt, gv, agr->type, v, RJS_TRUE, NULL);
         }
     }
 
-- 
2.43.0


From e9c1f411bbe979543e1370f95dd257b1274f62e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 29/90] fix: errors that reject promises stay pending

---
 src/lib/rjs_promise_object_inc.c |  8 +++++++-
 src/lib/rjs_script.c             | 12 ++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 5f6849a..2e31f3f 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -67,8 +67,14 @@ RJS_Result
 if_abrupt_reject_promise (RJS_Runtime *rt, RJS_Result r, RJS_PromiseCapability *pc, RJS_Value *rv)
 {
     if (r == RJS_ERR) {
-        rjs_call(rt, pc->reject, rjs_v_undefined(rt), &rt->error, 1, NULL);
+        size_t     top = rjs_value_stack_save(rt);
+        RJS_Value *err = rjs_value_stack_push(rt);
+
+        rjs_catch(rt, err);
+        rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL);
         rjs_value_copy(rt, rv, pc->promise);
+
+        rjs_value_stack_restore(rt, top);
     }
 
     return r;
diff --git a/src/lib/rjs_script.c b/src/lib/rjs_script.c
index 7cdb799..2d58a40 100644
--- a/src/lib/rjs_script.c
+++ b/src/lib/rjs_script.c
@@ -933,7 +933,7 @@ rjs_script_func_call (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value *v, RJ
                     req_type = RJS_GENERATOR_REQUEST_NEXT;
                 } else {
                     req_type = RJS_GENERATOR_REQUEST_THROW;
-                    rjs_value_copy(rt, rv, &rt->error);
+                    rjs_catch(rt, rv);
                 }
 
                 rjs_async_generator_complete_step(rt, &ctxt->function, req_type, rv, RJS_TRUE, NULL);
@@ -959,10 +959,14 @@ rjs_script_func_call (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value *v, RJ
             RJS_AsyncContext *ac = (RJS_AsyncContext*)ctxt;
 
             if (!rjs_value_is_undefined(rt, ac->capability.promise)) {
-                if (r == RJS_OK)
+                if (r == RJS_OK) {
                     rjs_call(rt, ac->capability.resolve, rjs_v_undefined(rt), rv, 1, NULL);
-                else
-                    rjs_call(rt, ac->capability.reject, rjs_v_undefined(rt), &rt->error, 1, NULL);
+                } else {
+                    RJS_Value *err = rjs_value_stack_push(rt);
+
+                    rjs_catch(rt, err);
+                    rjs_call(rt, ac->capability.reject, rjs_v_undefined(rt), err, 1, NULL);
+                }
             }
         }
 #endif /*ENABLE_ASYNC*/
-- 
2.43.0


From 9dba44044dfa1cd6897d7968860517a5237d2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 30/90] fix: "break" and "continue" in "finally" do not
 override a pending "return"

---
 src/lib/rjs_bc_call.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index c4ea7ad..99b6394 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1131,15 +1131,6 @@ end:
             sc->ip = s->s.s_try.finally_ip;\
             goto restart;\
         case RJS_TRY_STATE_FINALLY:\
-            switch (s->s.s_try.next_op) {\
-            case RJS_TRY_NEXT_OP_NORMAL:\
-            case RJS_TRY_NEXT_OP_THROW:\
-                break;\
-            case RJS_TRY_NEXT_OP_RETURN:\
-                rjs_state_pop(rt);\
-                r = RJS_RETURN;\
-                goto ret;\
-            }\
             break;\
         case RJS_TRY_STATE_END:\
             switch (s->s.s_try.next_op) {\
-- 
2.43.0


From 1e3ad02d078240d71a8ea3d11102b2858189fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 31/90] fix: jumps after a tail call pop too many states

---
 src/lib/rjs_bc_gen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index e1e869c..94f2716 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -141,11 +141,13 @@ bc_cmd_add_stack_check (RJS_Runtime *rt, RJS_BcGen *bg, RJS_BcType type, int lin
             break;
         case RJS_BC_pop_state:
         case RJS_BC_call:
+        case RJS_BC_tail_call:
         case RJS_BC_super_call:
         case RJS_BC_new:
         case RJS_BC_save_lex_env:
 #if ENABLE_EVAL
         case RJS_BC_eval:
+        case RJS_BC_tail_eval:
 #endif /*ENABLE_EVAL*/
             bg->stack_depth --;
             break;
-- 
2.43.0


From afb88d7ad5114aff54a1f542829aaee0cc858e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 32/90] fix: "break" to the label of a try statement in "catch"
 and "finally" is a syntax error

---
 src/lib/rjs_bc_gen.c | 15 ++++++++++++++-
 src/lib/rjs_parser.c |  7 ++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 94f2716..c753973 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3535,7 +3535,7 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 {
     int            line;
     int            cid;
-    int            lc, lf, le, lb;
+    int            lc, lf, le, lb, lx = -1;
     RJS_BcCommand *cmd;
     RJS_Ast       *ast;
     RJS_Bool       old_tco = bg->tco;
@@ -3650,6 +3650,13 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 
         cid = bc_cmd_add(rt, bg, RJS_BC_finally, line);
 
+        /*"break" in the finally block must leave the try statement.*/
+        bg->stack_depth --;
+        lx = bc_label_add(rt, bg);
+        bg->stack_depth ++;
+
+        ts->break_js.label = lx;
+
         if (old_rv_reg != -1) {
             bg->rv_reg = bc_reg_add(rt, bg);
 
@@ -3673,6 +3680,12 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 
     cid = bc_cmd_add(rt, bg, RJS_BC_pop_state, line);
 
+    if (lx != -1) {
+        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->stub.label = lx;
+    }
+
     return RJS_OK;
 }
 
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 352d1a4..fc308b5 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6937,7 +6937,9 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
             unget_token(rt);
         }
 
+        break_push(rt, &stmt->break_js, &stmt->ast);
         r = parse_block(rt, &stmt->catch_block);
+        break_pop(rt);
 
         if (stmt->catch_decl)
             decl_pop(rt);
@@ -6981,7 +6983,10 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
     /*Finally block.*/
     if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_finally)) {
-        if ((r = parse_block(rt, &stmt->final_block)) == RJS_ERR)
+        break_push(rt, &stmt->break_js, &stmt->ast);
+        r = parse_block(rt, &stmt->final_block);
+        break_pop(rt);
+        if (r == RJS_ERR)
             goto end;
 
         loc_update_last_ast(rt, &stmt->ast.location, &stmt->final_block);
-- 
2.43.0


From 55c5aabccc1277067cec6d3390d5c3c5d815a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 33/90] fix: value of a failed try block becomes the completion
 value of the catch block

---
 src/lib/rjs_bc_gen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index c753973..53958ac 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3591,6 +3591,13 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
         cmd = bc_cmd_get(bg, cid);
         cmd->load.dest = rid;
 
+        /*Drop the value of the try block.*/
+        if (bg->rv_reg != -1) {
+            cid = bc_cmd_add(rt, bg, RJS_BC_load_undefined, line);
+            cmd = bc_cmd_get(bg, cid);
+            cmd->load.dest = bg->rv_reg;
+        }
+
         if (ts->catch_decl) {
             RJS_Ast *binding;
 
-- 
2.43.0


From 285eed0a13922b909e7ccdbdd394435c8d318123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 34/90] fix: "await" in async arrow functions is a syntax error
 in static blocks and parenthesized parameters

---
 src/lib/rjs_parser.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index fc308b5..fbff97f 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -862,6 +862,20 @@ contains_list_add (RJS_Runtime *rt, RJS_AstType type, RJS_Location *loc)
     rjs_value_stack_restore(rt, top);
 }
 
+/*Remove the nodes from the contains list.*/
+static void
+contains_list_remove (RJS_Runtime *rt, RJS_AstType type)
+{
+    RJS_Parser               *parser = rt->parser;
+    RJS_AstContainsListStack *cls    = parser->contains_list_stack;
+    RJS_Ast                  *n, *nn;
+
+    rjs_list_foreach_safe_c(&cls->list, n, nn, RJS_Ast, ln) {
+        if (n->type == type)
+            rjs_list_remove(&n->ln);
+    }
+}
+
 /*Check the contains list.*/
 static RJS_Bool
 contains_list_check (RJS_Runtime *rt, int flags)
@@ -4498,6 +4512,7 @@ parse_arrow_function (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vl)
     RJS_Value      *tmp1      = rjs_value_stack_push(rt);
     RJS_Value      *tmp2      = rjs_value_stack_push(rt);
     RJS_Bool        il_pushed = RJS_FALSE;
+    RJS_Bool        cl_pushed = RJS_FALSE;
     RJS_Token      *tok;
     RJS_Result      r;
     RJS_Ast        *ast;
@@ -4534,6 +4549,10 @@ parse_arrow_function (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vl)
     fr->decl        = NULL;
     fr->binding_ref = NULL;
 
+    /*Await expressions in the body are not contained by the outer function.*/
+    contains_list_push(rt);
+    cl_pushed = RJS_TRUE;
+
     parser->flags &= ~(RJS_PARSE_FL_YIELD
             |RJS_PARSE_FL_AWAIT);
 
@@ -4574,6 +4593,11 @@ end:
     rjs_value_stack_restore(rt, top);
     parser->flags = old_flags;
 
+    if (cl_pushed) {
+        contains_list_remove(rt, RJS_AST_AwaitExprRef);
+        contains_list_pop(rt, RJS_TRUE);
+    }
+
     if (il_pushed)
         no_strict_list_pop(rt, RJS_TRUE, RJS_FALSE);
 
-- 
2.43.0


From abd11330424110d735ab6022761848249fa3278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 35/90] fix: value of "return f()" is not awaited in async
 generators

---
 src/lib/rjs_bc_gen.c | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 53958ac..cf98a1b 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -2659,30 +2659,29 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
             ast = RJS_CONTAINER_OF(list->list.prev, RJS_Ast, ln);
         }
 
-        if ((ast->type == RJS_AST_CallExpr) && bg->tco) {
-            bc_gen_call_expr(rt, bg, (RJS_AstCall*)ast, rid, RJS_TRUE);
-        } else if ((ast->type == RJS_AST_Template) && bg->tco) {
-            bc_gen_templ_expr(rt, bg, (RJS_AstTemplate*)ast, rid, RJS_TRUE);
-        } else {
 #if ENABLE_ASYNC && ENABLE_GENERATOR
-            if ((bg->func_ast->flags & RJS_AST_FUNC_FL_ASYNC)
-                    && (bg->func_ast->flags & RJS_AST_FUNC_FL_GENERATOR)) {
-                int trid = bc_reg_add(rt, bg);
+        /*The value must be awaited in the async generator.*/
+        if ((bg->func_ast->flags & RJS_AST_FUNC_FL_ASYNC)
+                && (bg->func_ast->flags & RJS_AST_FUNC_FL_GENERATOR)) {
+            int trid = bc_reg_add(rt, bg);
 
-                bc_gen_expr(rt, bg, ast, trid);
+            bc_gen_expr(rt, bg, ast, trid);
 
-                cid = bc_cmd_add(rt, bg, RJS_BC_await, line);
-                cmd = bc_cmd_get(bg, cid);
-                cmd->store.value = trid;
+            cid = bc_cmd_add(rt, bg, RJS_BC_await, line);
+            cmd = bc_cmd_get(bg, cid);
+            cmd->store.value = trid;
 
-                cid = bc_cmd_add(rt, bg, RJS_BC_await_resume, line);
-                cmd = bc_cmd_get(bg, cid);
-                cmd->load.dest = rid;
-            } else
+            cid = bc_cmd_add(rt, bg, RJS_BC_await_resume, line);
+            cmd = bc_cmd_get(bg, cid);
+            cmd->load.dest = rid;
+        } else
 #endif /*ENABLE_ASYNC && ENABLE_GENERATOR*/
-            {
-                bc_gen_expr(rt, bg, ast, rid);
-            }
+        if ((ast->type == RJS_AST_CallExpr) && bg->tco) {
+            bc_gen_call_expr(rt, bg, (RJS_AstCall*)ast, rid, RJS_TRUE);
+        } else if ((ast->type == RJS_AST_Template) && bg->tco) {
+            bc_gen_templ_expr(rt, bg, (RJS_AstTemplate*)ast, rid, RJS_TRUE);
+        } else {
+            bc_gen_expr(rt, bg, ast, rid);
         }
     } else {
         cid = bc_cmd_add(rt, bg, RJS_BC_load_undefined, line);
-- 
2.43.0


From bc168bca6a7f8c72f1952349b1d42ab677097f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 36/90] fix: Number() of a big integer which needs more than 64
 bits returns a wrong value

---
 src/lib/rjs_number_object_inc.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 9f304f2..85ae99a 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -44,12 +44,10 @@ static RJS_NF(Number_constructor)
 
 #if ENABLE_BIG_INT
         if (rjs_value_is_big_int(rt, prim)) {
-            int64_t i;
-
-            if ((r = rjs_big_int_to_int64(rt, prim, &i)) == RJS_ERR)
+            if ((r = rjs_big_int_to_string(rt, prim, 10, nv)) == RJS_ERR)
+                goto end;
+            if ((r = rjs_to_number(rt, nv, &n)) == RJS_ERR)
                 goto end;
-
-            n = i;
         } else
 #endif /*ENABLE_BIG_INT*/
         {
-- 
2.43.0


From e670560380dc9da29cd5e3f2f24919832bafd505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 37/90] fix: -0 is not normalized to +0 when it is used as the
 key of "Map" or "Set"

---
 src/lib/rjs_hash_object_inc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index ede08b0..8f08c49 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -323,7 +323,11 @@ hash_add (RJS_Runtime *rt, RJS_Value *hashv, RJS_Value *k, size_t esize)
 
         se = rjs_alloc_assert_0(rt, esize);
 
-        rjs_value_copy(rt, &se->key, k);
+        /*-0 is stored as +0.*/
+        if (rjs_value_is_number(rt, k) && (rjs_value_get_number(rt, k) == 0))
+            rjs_value_set_number(rt, &se->key, 0);
+        else
+            rjs_value_copy(rt, &se->key, k);
 
         rjs_hash_insert(&ho->hash, &se->key, &se->he, phe, &rjs_hash_value_ops_0, rt);
         rjs_list_append(&ho->list, &se->ln);
-- 
2.43.0


From 9464dbf00ce9ba265002fb16f58eefdd663b40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 38/90] fix: equal big integers are different keys of "Map" and
 "Set"

---
 src/lib/include/rjs_big_int.h      |  9 +++++++++
 src/lib/rjs_big_int_gmp_opt.c      | 20 ++++++++++++++++++++
 src/lib/rjs_big_int_internal_opt.c | 20 ++++++++++++++++++++
 src/lib/rjs_hash.c                 |  5 +++++
 4 files changed, 54 insertions(+)

diff --git a/src/lib/include/rjs_big_int.h b/src/lib/include/rjs_big_int.h
index 221b1b0..eeaae8f 100644
--- a/src/lib/include/rjs_big_int.h
+++ b/src/lib/include/rjs_big_int.h
@@ -62,6 +62,15 @@ struct RJS_BigInt_s {
 extern "C" {
 #endif
 
+/**
+ * Calculate the hash key of the big integer.
+ * \param rt The current runtime.
+ * \param v The big integer value.
+ * \return The hash key. Equal big integers have the same key.
+ */
+RJS_INTERNAL size_t
+rjs_big_int_hash_key (RJS_Runtime *rt, RJS_Value *v);
+
 /**
  * Convert the number to big integer.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_big_int_gmp_opt.c b/src/lib/rjs_big_int_gmp_opt.c
index 5ad4b06..1a778ad 100644
--- a/src/lib/rjs_big_int_gmp_opt.c
+++ b/src/lib/rjs_big_int_gmp_opt.c
@@ -446,6 +446,26 @@ rjs_big_int_same_value (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     return (r == 0);
 }
 
+/**
+ * Calculate the hash key of the big integer.
+ * \param rt The current runtime.
+ * \param v The big integer value.
+ * \return The hash key. Equal big integers have the same key.
+ */
+size_t
+rjs_big_int_hash_key (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_BigInt *bi   = rjs_value_get_big_int(rt, v);
+    size_t      size = mpz_size(&bi->mpz);
+    size_t      key  = mpz_sgn(&bi->mpz);
+    size_t      i;
+
+    for (i = 0; i < size; i ++)
+        key = key * 31 + mpz_getlimbn(&bi->mpz, i);
+
+    return key;
+}
+
 /**
  * Check if the big integer is zero.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index d40a6fc..88383e4 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -824,6 +824,26 @@ rjs_big_int_same_value (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     return RJS_TRUE;
 }
 
+/**
+ * Calculate the hash key of the big integer.
+ * \param rt The current runtime.
+ * \param v The big integer value.
+ * \return The hash key. Equal big integers have the same key.
+ */
+size_t
+rjs_big_int_hash_key (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_BI *bi   = bi_get(rt, v);
+    int     size = bi_size(bi);
+    size_t  key  = bi->size;
+    int     i;
+
+    for (i = 0; i < size; i ++)
+        key = key * 31 + bi->n[i];
+
+    return key;
+}
+
 /**
  * Check if the big integer is zero.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_hash.c b/src/lib/rjs_hash.c
index 5d67913..82c46bd 100644
--- a/src/lib/rjs_hash.c
+++ b/src/lib/rjs_hash.c
@@ -291,6 +291,11 @@ hash_op_value_key (void *data, void *key)
     case RJS_VALUE_STRING:
         r = rjs_string_hash_key(rt, v);
         break;
+#if ENABLE_BIG_INT
+    case RJS_VALUE_BIG_INT:
+        r = rjs_big_int_hash_key(rt, v);
+        break;
+#endif /*ENABLE_BIG_INT*/
     default:
         r = RJS_PTR2SIZE(rjs_value_get_gc_thing(rt, v));
         break;
-- 
2.43.0


From 858f2649f88a6df4d0d06099064dae02296d80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 39/90] fix: Object.defineProperties defines properties before
 all descriptors are checked and ignores errors of getOwnPropertyDescriptor

---
 src/lib/rjs_object_object_inc.c | 49 +++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index 123a227..3aba168 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -97,13 +97,16 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
     RJS_Value           *keys   = rjs_value_stack_push(rt);
     RJS_Value           *desco  = rjs_value_stack_push(rt);
     RJS_PropertyKeyList *pkl;
-    RJS_PropertyDesc     pd, npd;
+    RJS_PropertyDesc     pd;
+    RJS_PropertyDesc    *npds  = NULL;
+    size_t              *idxs  = NULL;
+    size_t               num   = 0;
+    size_t               npd_n = 0;
     RJS_PropertyName     pn;
     size_t               i;
     RJS_Result           r;
 
     rjs_property_desc_init(rt, &pd);
-    rjs_property_desc_init(rt, &npd);
 
     if ((r = rjs_to_object(rt, props, propso)) == RJS_ERR)
         goto end;
@@ -112,18 +115,28 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
         goto end;
 
     pkl = rjs_value_get_gc_thing(rt, keys);
-    for (i = 0; i < pkl->keys.item_num; i ++) {
+    num = pkl->keys.item_num;
+
+    if (num) {
+        RJS_NEW_N(rt, npds, num);
+        RJS_NEW_N(rt, idxs, num);
+    }
+
+    /*Get all the descriptors before any of the properties is defined.*/
+    for (i = 0; i < num; i ++) {
         RJS_Value *key = &pkl->keys.items[i];
 
         rjs_property_name_init(rt, &pn, key);
 
         r = rjs_object_get_own_property(rt, propso, &pn, &pd);
-        if ((r = RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
+        if ((r == RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
             if ((r = rjs_get(rt, propso, &pn, desco)) == RJS_OK) {
-                r = rjs_to_property_descriptor(rt, desco, &npd);
-                if (r == RJS_OK) {
-                    r = rjs_define_property_or_throw(rt, o, &pn, &npd);
-                }
+                rjs_property_desc_init(rt, &npds[npd_n]);
+                idxs[npd_n] = i;
+
+                r = rjs_to_property_descriptor(rt, desco, &npds[npd_n]);
+
+                npd_n ++;
             }
         }
 
@@ -133,10 +146,28 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
             goto end;
     }
 
+    for (i = 0; i < npd_n; i ++) {
+        RJS_Value *key = &pkl->keys.items[idxs[i]];
+
+        rjs_property_name_init(rt, &pn, key);
+        r = rjs_define_property_or_throw(rt, o, &pn, &npds[i]);
+        rjs_property_name_deinit(rt, &pn);
+
+        if (r == RJS_ERR)
+            goto end;
+    }
+
     r = RJS_OK;
 end:
+    for (i = 0; i < npd_n; i ++)
+        rjs_property_desc_deinit(rt, &npds[i]);
+
+    if (num) {
+        RJS_DEL_N(rt, npds, num);
+        RJS_DEL_N(rt, idxs, num);
+    }
+
     rjs_property_desc_deinit(rt, &pd);
-    rjs_property_desc_deinit(rt, &npd);
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From a389dc6e6e8087c09c21fb9974c26c3fb23ef44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 40/90] fix: binding operated by "typeof" is resolved twice

---
 src/lib/rjs_bc_gen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index cf98a1b..63ad55f 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -845,16 +845,20 @@ bc_gen_typeof_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstUnaryExpr *expr, int
     t_rid = bc_reg_add(rt, bg);
     ast   = bc_ast_get(rt, &expr->operand);
 
-    bc_gen_ref(rt, bg, ast, t_rid, &ref);
+    line  = ast->location.first_line;
 
-    line = ast->location.first_line;
+    if (ast->type == RJS_AST_Id) {
+        RJS_AstId *ir = (RJS_AstId*)ast;
+
+        /*"typeof_binding" resolves the binding itself.*/
+        ref.binding_ref = rjs_code_gen_binding_ref(rt, &ast->location, &ir->identifier->value);
 
-    if (ref.type == RJS_BC_REF_BINDING) {
         cid = bc_cmd_add(rt, bg, RJS_BC_typeof_binding, line);
         cmd = bc_cmd_get(bg, cid);
         cmd->typeof_binding.binding = ref.binding_ref;
         cmd->typeof_binding.dest    = rid;
     } else {
+        bc_gen_ref(rt, bg, ast, t_rid, &ref);
         bc_ref_get_value(rt, bg, line, t_rid, &ref);
 
         cid = bc_cmd_add(rt, bg, RJS_BC_typeof, line);
-- 
2.43.0


From 51fdf3cbded055eac892f905c685c3c4270596fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 41/90] fix: garbage collection crashes while a realm is
 created

---
 src/lib/rjs_global_env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_global_env.c b/src/lib/rjs_global_env.c
index 19053c1..0e6a3fe 100644
--- a/src/lib/rjs_global_env.c
+++ b/src/lib/rjs_global_env.c
@@ -34,7 +34,8 @@ global_env_op_gc_scan (RJS_Runtime *rt, void *ptr)
     RJS_HashEntry *he;
 
     rjs_gc_scan_value(rt, &ge->global_this);
-    rjs_gc_mark(rt, ge->object_rec);
+    if (ge->object_rec)
+        rjs_gc_mark(rt, ge->object_rec);
 
     rjs_hash_foreach(&ge->var_name_hash, i, he) {
         rjs_gc_mark(rt, he->key);
-- 
2.43.0


From efdb2e7f8d7dabdc8a07c9ac3f02ff8bf23443ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 42/90] fix: Object.isFrozen and Object.isSealed ignore errors
 of isExtensible

---
 src/lib/rjs_operation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 3988ba9..fd4df60 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1019,7 +1019,10 @@ rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel leve
 
     rjs_property_desc_init(rt, &pd);
 
-    if (rjs_object_is_extensible(rt, o)) {
+    if ((r = rjs_object_is_extensible(rt, o)) == RJS_ERR)
+        goto end;
+
+    if (r) {
         r = RJS_FALSE;
         goto end;
     }
-- 
2.43.0


From 2ecc5727470ca54f96fd7f4e8d19b6a3720b2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 43/90] fix: Object.freeze throws when the last key of a proxy
 has no property

---
 src/lib/rjs_operation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index fd4df60..181a5c6 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -992,6 +992,8 @@ rjs_set_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel level
                 goto end;
         }
     }
+
+    r = RJS_OK;
 end:
     rjs_property_desc_deinit(rt, &pd);
     rjs_value_stack_restore(rt, top);
-- 
2.43.0


From eb6fb4a6da2b903140e933954b336f4bfdd19761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 44/90] fix: Object.prototype.toString loses lone surrogates of
 the tag

---
 src/lib/rjs_object_object_inc.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index 3aba168..eed14a2 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -1009,12 +1009,12 @@ static RJS_NF(Object_prototype_toLocaleString)
 /*Object.prototype.toString*/
 static RJS_NF(Object_prototype_toString)
 {
-    size_t         top  = rjs_value_stack_save(rt);
-    RJS_Value     *o    = rjs_value_stack_push(rt);
-    RJS_Value     *tstr = rjs_value_stack_push(rt);
-    const char    *tag  = "Object";
-    RJS_CharBuffer cb;
-    RJS_Result     r;
+    size_t          top  = rjs_value_stack_save(rt);
+    RJS_Value      *o    = rjs_value_stack_push(rt);
+    RJS_Value      *tstr = rjs_value_stack_push(rt);
+    const char     *tag  = "Object";
+    RJS_UCharBuffer ucb;
+    RJS_Result      r;
 
     if (rjs_value_is_undefined(rt, thiz)) {
         tag = "Undefined";
@@ -1058,20 +1058,18 @@ static RJS_NF(Object_prototype_toString)
 #endif /*ENABLE_DATE*/
         if ((r = rjs_get(rt, o, rjs_pn_s_toStringTag(rt), tstr)) == RJS_ERR)
             goto end;
-
-        if (rjs_value_is_string(rt, tstr))
-            tag = rjs_string_to_enc_chars(rt, tstr, NULL, 0);
     }
 
-    rjs_char_buffer_init(rt, &cb);
-    rjs_char_buffer_append_chars(rt, &cb, "[object ", -1);
-    rjs_char_buffer_append_chars(rt, &cb, tag, -1);
-    rjs_char_buffer_append_char(rt, &cb, ']');
-
-    rjs_string_from_enc_chars(rt, rv, cb.items, cb.item_num, NULL);
-    rjs_char_buffer_deinit(rt, &cb);
+    rjs_uchar_buffer_init(rt, &ucb);
+    rjs_uchar_buffer_append_chars(rt, &ucb, "[object ", -1);
+    if (rjs_value_is_string(rt, tstr))
+        rjs_uchar_buffer_append_string(rt, &ucb, tstr);
+    else
+        rjs_uchar_buffer_append_chars(rt, &ucb, tag, -1);
+    rjs_uchar_buffer_append_uchar(rt, &ucb, ']');
 
-    r = RJS_OK;
+    r = rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
+    rjs_uchar_buffer_deinit(rt, &ucb);
 end:
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From dc62d43563f1b6117a3eed34311d847776b51e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 45/90] fix: parseInt and parseFloat ignore lone surrogates
 inside of the number

---
 src/lib/rjs_global_object.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index f173525..d6d0325 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -128,6 +128,23 @@ static RJS_NF(global_isNaN)
     return RJS_OK;
 }
 
+/*Get the leading ASCII characters of the string.*/
+static const char*
+string_ascii_prefix (RJS_Runtime *rt, RJS_Value *str, RJS_CharBuffer *cb)
+{
+    const RJS_UChar *c = rjs_string_get_uchars(rt, str);
+    const RJS_UChar *e = c + rjs_string_get_length(rt, str);
+
+    rjs_char_buffer_clear(rt, cb);
+
+    while ((c < e) && (*c > 0) && (*c < 0x80)) {
+        rjs_char_buffer_append_char(rt, cb, *c);
+        c ++;
+    }
+
+    return rjs_char_buffer_to_c_str(rt, cb);
+}
+
 /*parseFloat*/
 static RJS_NF(global_parseFloat)
 {
@@ -150,7 +167,7 @@ static RJS_NF(global_parseFloat)
     if ((r = rjs_string_trim(rt, str, RJS_STRING_TRIM_START|RJS_STRING_TRIM_END, trim)) == RJS_ERR)
         goto end;
 
-    cstr = rjs_string_to_enc_chars(rt, trim, &cb, "UTF-8");
+    cstr = string_ascii_prefix(rt, trim, &cb);
     len  = strlen(cstr);
 
     if (len == 0) {
@@ -209,12 +226,7 @@ static RJS_NF(global_parseInt)
         }
     }
 
-    cstr = rjs_string_to_enc_chars(rt, trim, &cb, "UTF-8");
-    if (!cstr) {
-        rjs_value_set_number(rt, rv, NAN);
-        goto end;
-    }
-
+    cstr = string_ascii_prefix(rt, trim, &cb);
     len = strlen(cstr);
     if (len == 0) {
         rjs_value_set_number(rt, rv, NAN);
-- 
2.43.0


From 0e21d985234cbeb6bde5347d08c72c9493b71626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:28 +0000
Subject: [PATCH 46/90] fix: parseInt parses decimal strings as floating point
 numbers and loses precision

---
 src/lib/rjs_global_object.c | 10 ++----
 src/lib/rjs_strtoi.c        | 62 ++++++++++++++++++++++++++++++++-----
 2 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index d6d0325..437b6f0 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -142,7 +142,7 @@ string_ascii_prefix (RJS_Runtime *rt, RJS_Value *str, RJS_CharBuffer *cb)
         c ++;
     }
 
-    return rjs_char_buffer_to_c_str(rt, cb);
+    return rjs_char_buffer_to_c_string(rt, cb);
 }
 
 /*parseFloat*/
@@ -174,11 +174,8 @@ static RJS_NF(global_parseFloat)
         d = NAN;
     } else {
         d = rjs_strtod(cstr, &end);
-        if (end == cstr) {
+        if (end == cstr)
             d = NAN;
-        } else if ((errno == ERANGE) && ((d == HUGE_VAL) || (d == -HUGE_VAL))) {
-            d = NAN;
-        }
     }
 
     rjs_value_set_number(rt, rv, d);
@@ -240,9 +237,6 @@ static RJS_NF(global_parseInt)
         goto end;
     }
 
-    if ((d == INFINITY) || (d == -INFINITY))
-        d = NAN;
-
     rjs_value_set_number(rt, rv, d);
     r = RJS_OK;
 end:
diff --git a/src/lib/rjs_strtoi.c b/src/lib/rjs_strtoi.c
index e30d5e6..5305769 100644
--- a/src/lib/rjs_strtoi.c
+++ b/src/lib/rjs_strtoi.c
@@ -35,9 +35,14 @@
 double
 rjs_strtoi (const char *str, char **end, int base)
 {
-    const char *p    = str;
-    int         sign = 1;
-    double      d    = 0;
+    const char *p     = str;
+    const char *begin;
+    int         sign  = 1;
+    double      d     = 0;
+    uint64_t    mant  = 0;
+    int         exp   = 0;
+    int         bits  = 0;
+    int         i;
 
     assert((base == 0) || ((base >= 2) && (base <= 36)));
 
@@ -66,8 +71,13 @@ rjs_strtoi (const char *str, char **end, int base)
     if (base == 0)
         base = 10;
 
-    if (base == 10)
-        return rjs_strtod(str, end);
+    /*The radix is the power of 2.*/
+    if ((base & (base - 1)) == 0) {
+        while ((1 << bits) < base)
+            bits ++;
+    }
+
+    begin = p;
 
     while (*p) {
         int v;
@@ -93,11 +103,49 @@ rjs_strtoi (const char *str, char **end, int base)
             }
         }
 
-        d *= base;
-        d += v;
+        if (bits) {
+            /*Keep 55 bits, the lowest bit is sticky.*/
+            for (i = bits - 1; i >= 0; i --) {
+                int bit = (v >> i) & 1;
+
+                if (mant >> 54) {
+                    mant |= bit;
+                    if (exp < 2048)
+                        exp ++;
+                } else {
+                    mant = (mant << 1) | bit;
+                }
+            }
+        } else {
+            d *= base;
+            d += v;
+        }
+
         p ++;
     }
 
+    /*No digit.*/
+    if (p == begin) {
+        if (end)
+            *end = (char*)str;
+
+        return 0;
+    }
+
+    if (bits) {
+        d = ldexp((double)mant, exp);
+    } else if ((base == 10) && (d >= 9007199254740992.0)) {
+        size_t  len = p - begin;
+        char   *buf = malloc(len + 1);
+
+        if (buf) {
+            memcpy(buf, begin, len);
+            buf[len] = 0;
+            d = rjs_strtod(buf, NULL);
+            free(buf);
+        }
+    }
+
     if (end)
         *end = (char*)p;
 
-- 
2.43.0


From 221fa4fef312435d95d961065cc33c4d2cbba330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 47/90] fix: parseFloat accepts incomplete and lower case
 "Infinity"

---
 src/lib/rjs_global_object.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index 437b6f0..4d9bb16 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -174,8 +174,18 @@ static RJS_NF(global_parseFloat)
         d = NAN;
     } else {
         d = rjs_strtod(cstr, &end);
-        if (end == cstr)
+        if (end == cstr) {
             d = NAN;
+        } else if (isinf(d)) {
+            const char *b = cstr;
+
+            if ((*b == '+') || (*b == '-'))
+                b ++;
+
+            /*Only "Infinity" is a valid literal.*/
+            if (isalpha((uint8_t)*b) && strncmp(b, "Infinity", 8))
+                d = NAN;
+        }
     }
 
     rjs_value_set_number(rt, rv, d);
-- 
2.43.0


From fe5720273eecb646e550a8953894fcf5da4d842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 48/90] fix: proxy ownKeys uses a collected string when the
 target has index keys

---
 src/lib/rjs_proxy_object_opt.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index f08b8c3..601beb5 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -829,6 +829,7 @@ proxy_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Value *key
     RJS_Value           *trap    = rjs_value_stack_push(rt);
     RJS_Value           *tr      = rjs_value_stack_push(rt);
     RJS_Value           *tkeys   = rjs_value_stack_push(rt);
+    RJS_Value           *kv      = rjs_value_stack_push(rt);
     RJS_Value           *target  = rjs_value_stack_push(rt);
     RJS_Value           *handler = rjs_value_stack_push(rt);
     RJS_PropertyKeyList *pkl, *tpkl;
@@ -902,8 +903,11 @@ proxy_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Value *key
     }
 
     for (i = 0; i < ncfg_keys.item_num; i ++) {
-        RJS_Value *kv = &ncfg_keys.items[i];
-        void      *k  = get_prop_key(rt, kv);
+        void *k;
+
+        /*The key must be in the value stack to avoid being collected.*/
+        rjs_value_copy(rt, kv, &ncfg_keys.items[i]);
+        k = get_prop_key(rt, kv);
 
         r = rjs_hash_lookup(&hash, k, &he, &phe, &rjs_hash_size_ops, rt);
         if (!r) {
@@ -921,8 +925,11 @@ proxy_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Value *key
     }
 
     for (i = 0; i < cfg_keys.item_num; i ++) {
-        RJS_Value *kv = &cfg_keys.items[i];
-        void      *k  = get_prop_key(rt, kv);
+        void *k;
+
+        /*The key must be in the value stack to avoid being collected.*/
+        rjs_value_copy(rt, kv, &cfg_keys.items[i]);
+        k = get_prop_key(rt, kv);
 
         r = rjs_hash_lookup(&hash, k, &he, &phe, &rjs_hash_size_ops, rt);
         if (!r) {
-- 
2.43.0


From 96000824efa88544e1532bcc7eda4b6e6dd18022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 49/90] fix: comments, escape sequences and white space after
 the sign are accepted in numeric strings

---
 src/lib/rjs_string.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index fa48fe2..a493255 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -570,6 +570,27 @@ end:
     return r;
 }
 
+/*Check if the string has the characters which are never parts of a string numeric literal.*/
+static RJS_Bool
+has_non_numeric_chars (RJS_Runtime *rt, RJS_Value *str)
+{
+    const RJS_UChar *c = rjs_string_get_uchars(rt, str);
+    const RJS_UChar *e = c + rjs_string_get_length(rt, str);
+
+    for (; c < e; c ++) {
+        /*Comment or escape sequence.*/
+        if ((*c == '/') || (*c == '\\'))
+            return RJS_TRUE;
+
+        /*White space after the sign.*/
+        if (((*c == '+') || (*c == '-')) && (c + 1 < e)
+                && (rjs_uchar_is_white_space(c[1]) || rjs_uchar_is_line_terminator(c[1])))
+            return RJS_TRUE;
+    }
+
+    return RJS_FALSE;
+}
+
 /*Parse the string to a value.*/
 static RJS_Result
 parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v)
@@ -580,6 +601,16 @@ parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v
     RJS_Result  r;
     int         sign = 0;
 
+    if (has_non_numeric_chars(rt, str)) {
+#if ENABLE_BIG_INT
+        if (is_big_int)
+            rjs_value_set_undefined(rt, v);
+        else
+#endif /*ENABLE_BIG_INT*/
+            rjs_value_set_number(rt, v, NAN);
+        return RJS_OK;
+    }
+
     if ((r = rjs_string_input_init(rt, &si, str)) == RJS_ERR)
         return r;
 
-- 
2.43.0


From 2c5aa5ddc46f3eee54f306974aa8cd8d7ebbd5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 50/90] fix: proxy operations ignore errors of isExtensible of
 the target

---
 src/lib/rjs_proxy_object_opt.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index 601beb5..7eb219e 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -84,7 +84,10 @@ proxy_object_op_get_prototype_of (RJS_Runtime *rt, RJS_Value *o, RJS_Value *prot
         goto end;
     }
 
-    if (rjs_object_is_extensible(rt, target)) {
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+
+    if (r) {
         r = RJS_OK;
         goto end;
     }
@@ -192,7 +195,11 @@ proxy_object_op_is_extensible (RJS_Runtime *rt, RJS_Value *o)
         goto end;
 
     b1 = rjs_to_boolean(rt, tmp);
-    b2 = rjs_object_is_extensible(rt, target);
+
+    if ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR)
+        goto end;
+
+    b2 = r;
 
     if (b1 != b2) {
         r = rjs_throw_type_error(rt, _("proxy result mismatch"));
@@ -505,8 +512,11 @@ proxy_object_op_has_property (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *p
         if ((r = rjs_object_get_own_property(rt, target, pn, &target_pd)) == RJS_ERR)
             goto end1;
         if (r) {
-            if (!(target_pd.flags & RJS_PROP_FL_CONFIGURABLE)
-                    || !rjs_object_is_extensible(rt, target)) {
+            r = RJS_FALSE;
+            if ((target_pd.flags & RJS_PROP_FL_CONFIGURABLE)
+                    && ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR))
+                goto end1;
+            if (!r) {
                 r = rjs_throw_type_error(rt, _("proxy result mismatch"));
                 goto end1;
             }
@@ -726,8 +736,12 @@ proxy_object_op_delete (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn)
         goto end;
     }
 
-    if (!(tpd->flags & RJS_PROP_FL_CONFIGURABLE)
-            || !rjs_object_is_extensible(rt, target)) {
+    r = RJS_FALSE;
+    if ((tpd->flags & RJS_PROP_FL_CONFIGURABLE)
+            && ((r = rjs_object_is_extensible(rt, target)) == RJS_ERR))
+        goto end;
+
+    if (!r) {
         r = rjs_throw_type_error(rt, _("proxy result mismatch"));
         goto end;
     }
-- 
2.43.0


From 8843a81a4976eed1234000825f203bbe26dd16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:47 +0000
Subject: [PATCH 51/90] fix: Array.prototype.splice and unshift access elements
 outside of the moved range

---
 src/lib/rjs_array_object_inc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index e32663a..63e8f6a 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2490,7 +2490,7 @@ static RJS_NF(Array_prototype_splice)
         goto end;
 
     if (insert_cnt < act_del_cnt) {
-        for (k = act_start; k < len; k ++) {
+        for (k = act_start; k < len - act_del_cnt; k ++) {
             rjs_value_set_number(rt, idx, k + act_del_cnt);
             rjs_to_string(rt, idx, pk);
 
@@ -2517,7 +2517,7 @@ static RJS_NF(Array_prototype_splice)
                 goto end;
         }
     } else if (insert_cnt > act_del_cnt) {
-        for (k = len - act_del_cnt; k >= act_start; k --) {
+        for (k = len - act_del_cnt; k > act_start; k --) {
             rjs_value_set_number(rt, idx, k + act_del_cnt - 1);
             rjs_to_string(rt, idx, pk);
 
@@ -2905,7 +2905,7 @@ static RJS_NF(Array_prototype_unshift)
             goto end;
         }
 
-        for (k = len; k >= 0; k --) {
+        for (k = len; k > 0; k --) {
             rjs_value_set_number(rt, idx, k - 1);
             rjs_to_string(rt, idx, pk);
 
-- 
2.43.0


From 50d76ae4f2ab971a7388ce344fded2f614bae903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 52/90] fix: Array.prototype.toSorted skips holes and elements
 of the prototype

---
 src/lib/rjs_array_object_inc.c | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index 63e8f6a..8dd8f31 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2668,7 +2668,7 @@ static RJS_NF(Array_prototype_toSorted)
     size_t     size;
     RJS_ValueBuffer       *vb;
     RJS_ArrayCompareParams params;
-    int64_t    len, k, nitem;
+    int64_t    len, k;
     RJS_Result r;
 
     if (!rjs_value_is_undefined(rt, cmp_fn) && !rjs_is_callable(rt, cmp_fn)) {
@@ -2693,26 +2693,17 @@ static RJS_NF(Array_prototype_toSorted)
     rjs_value_set_gc_thing(rt, items, vb);
     rjs_gc_add(rt, vb, &value_buffer_ops);
 
-    nitem = 0;
-
     for (k = 0; k < len; k ++) {
+        RJS_PropertyName pn;
+
         rjs_value_set_number(rt, idx, k);
         rjs_to_string(rt, idx, pk);
 
-        if ((r = rjs_has_property(rt, o, pk)) == RJS_ERR)
+        rjs_property_name_init(rt, &pn, pk);
+        r = rjs_get(rt, o, &pn, &vb->value[k]);
+        rjs_property_name_deinit(rt, &pn);
+        if (r == RJS_ERR)
             goto end;
-
-        if (r) {
-            RJS_PropertyName pn;
-
-            rjs_property_name_init(rt, &pn, pk);
-            r = rjs_get(rt, o, &pn, &vb->value[nitem]);
-            rjs_property_name_deinit(rt, &pn);
-            if (r == RJS_ERR)
-                goto end;
-
-            nitem ++;
-        }
     }
 
     params.rt     = rt;
@@ -2721,13 +2712,8 @@ static RJS_NF(Array_prototype_toSorted)
     if ((r = rjs_sort(vb->value, vb->len, sizeof(RJS_Value), array_item_compare_fn, &params)) == RJS_ERR)
         goto end;
 
-    for (k = 0; k < nitem; k ++) {
-        if ((r = rjs_set_index(rt, a, k, &vb->value[k], RJS_TRUE)) == RJS_ERR)
-            goto end;
-    }
-
-    for (; k < len; k ++) {
-        if ((r = rjs_set_index(rt, a, k, rjs_v_undefined(rt), RJS_TRUE)) == RJS_ERR)
+    for (k = 0; k < len; k ++) {
+        if ((r = rjs_create_data_property_or_throw_index(rt, a, k, &vb->value[k])) == RJS_ERR)
             goto end;
     }
 
-- 
2.43.0


From 96ac5ee8199a4babd3d57e22a67bfbe8c5152722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 53/90] fix: byteLength of a detached array buffer throws

---
 src/lib/rjs_array_buffer_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_array_buffer_object_inc.c b/src/lib/rjs_array_buffer_object_inc.c
index 6909880..c6854f7 100644
--- a/src/lib/rjs_array_buffer_object_inc.c
+++ b/src/lib/rjs_array_buffer_object_inc.c
@@ -243,7 +243,8 @@ static RJS_NF(ArrayBuffer_prototype_byteLength_get)
     }
 
     if (rjs_is_detached_buffer(rt, thiz)) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        rjs_value_set_number(rt, rv, 0);
+        r = RJS_OK;
         goto end;
     }
 
-- 
2.43.0


From 7e5857398d507db5920844efdec69d87264c0f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 54/90] fix: typed arrays own index keys after their buffer is
 detached

---
 src/lib/rjs_int_indexed_object_opt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_int_indexed_object_opt.c b/src/lib/rjs_int_indexed_object_opt.c
index 5366144..2073f12 100644
--- a/src/lib/rjs_int_indexed_object_opt.c
+++ b/src/lib/rjs_int_indexed_object_opt.c
@@ -298,14 +298,15 @@ int_indexed_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Valu
     size_t                top = rjs_value_stack_save(rt);
     RJS_Value            *tmp = rjs_value_stack_push(rt);
     RJS_PropertyKeyList  *pkl;
-    size_t                i, cap;
+    size_t                i, len, cap;
     RJS_Result            r;
 
-    cap = iio->array_length + iio->object.array_item_num + iio->object.prop_hash.entry_num;
+    len = rjs_is_detached_buffer(rt, &iio->buffer) ? 0 : iio->array_length;
+    cap = len + iio->object.array_item_num + iio->object.prop_hash.entry_num;
 
     pkl = rjs_property_key_list_new(rt, keys, cap);
 
-    for (i = 0; i < iio->array_length; i ++) {
+    for (i = 0; i < len; i ++) {
         RJS_Value *kv = pkl->keys.items + pkl->keys.item_num ++;
 
         rjs_value_set_number(rt, tmp, i);
-- 
2.43.0


From b39cc9610c1baaa4acd4c404df8aa2df9b3a047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:58 +0000
Subject: [PATCH 55/90] fix: typeof of a parenthesized unresolvable reference
 throws

---
 src/lib/rjs_bc_gen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 63ad55f..147d298 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -845,6 +845,12 @@ bc_gen_typeof_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstUnaryExpr *expr, int
     t_rid = bc_reg_add(rt, bg);
     ast   = bc_ast_get(rt, &expr->operand);
 
+    while (ast->type == RJS_AST_ParenthesesExpr) {
+        RJS_AstUnaryExpr *pe = (RJS_AstUnaryExpr*)ast;
+
+        ast = bc_ast_get(rt, &pe->operand);
+    }
+
     line  = ast->location.first_line;
 
     if (ast->type == RJS_AST_Id) {
-- 
2.43.0


From a45d5f7d1d0eb8cfc9369bbdf5a4134f3e3b2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:26 +0000
Subject: [PATCH 56/90] fix: index arguments beyond the range of 64 bits
 integers are converted to wrong indices

---
 src/lib/rjs_array_object_inc.c       | 8 ++++++++
 src/lib/rjs_typed_array_object_inc.c | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index 8dd8f31..8663350 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -1317,6 +1317,8 @@ static RJS_NF(Array_prototype_includes)
         n = 0;
     }
 
+    n = RJS_CLAMP(n, -1 - len, len);
+
     if (n >= 0) {
         k = n;
     } else {
@@ -1383,6 +1385,8 @@ static RJS_NF(Array_prototype_indexOf)
         n = 0;
     }
 
+    n = RJS_CLAMP(n, -1 - len, len);
+
     if (n >= 0) {
         k = n;
     } else {
@@ -1530,6 +1534,8 @@ static RJS_NF(Array_prototype_lastIndexOf)
         goto end;
     }
 
+    n = RJS_CLAMP(n, -1 - len, len);
+
     if (n >= 0) {
         k = RJS_MIN(n, len - 1);
     } else {
@@ -2975,6 +2981,8 @@ static RJS_NF(Array_prototype_with)
     if ((r = rjs_to_integer_or_infinity(rt, index, &rel_index)) == RJS_ERR)
         goto end;
 
+    rel_index = RJS_CLAMP(rel_index, -1 - len, len);
+
     if (rel_index >= 0)
         act_index = rel_index;
     else
diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 3f9a229..3210343 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -927,7 +927,7 @@ static RJS_NF(TypedArray_prototype_includes)
         n = 0;
 
     if (n >= 0) {
-        k = n;
+        k = RJS_MIN(n, len);
     } else {
         k = RJS_MAX(len + n, 0);
     }
@@ -988,7 +988,7 @@ static RJS_NF(TypedArray_prototype_indexOf)
         n = 0;
 
     if (n >= 0) {
-        k = n;
+        k = RJS_MIN(n, len);
     } else {
         k = RJS_MAX(len + n, 0);
     }
@@ -1122,7 +1122,7 @@ static RJS_NF(TypedArray_prototype_lastIndexOf)
     if (n >= 0) {
         k = RJS_MIN(n, len -1);
     } else {
-        k = len + n;
+        k = RJS_MAX(len + n, -1);
     }
 
     for (; k >= 0; k --) {
-- 
2.43.0


From 24c9ee4b2bd926294dc3c5ad9ddcf40e2f582438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:26 +0000
Subject: [PATCH 57/90] fix: exhausted array iterators return elements added
 later

---
 src/lib/rjs_array_object_inc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index 8663350..eb7823a 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -3327,6 +3327,12 @@ static RJS_NF(ArrayIteratorPrototype_next)
 
     ai = (RJS_ArrayIterator*)rjs_value_get_object(rt, thiz);
 
+    if (rjs_value_is_undefined(rt, &ai->array)) {
+        rjs_value_set_undefined(rt, iv);
+        r = rjs_create_iter_result_object(rt, iv, RJS_TRUE, rv);
+        goto end;
+    }
+
 #if ENABLE_INT_INDEXED_OBJECT
     if (rjs_value_get_gc_thing_type(rt, &ai->array) == RJS_GC_THING_INT_INDEXED_OBJECT) {
         RJS_IntIndexedObject *iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, &ai->array);
@@ -3346,6 +3352,7 @@ static RJS_NF(ArrayIteratorPrototype_next)
 
     if (ai->curr >= len) {
         rjs_value_set_undefined(rt, iv);
+        rjs_value_set_undefined(rt, &ai->array);
 
         done = RJS_TRUE;
     } else {
-- 
2.43.0


From b21a8b52adda86f8e17f862b2aa9f0e572b5161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:10 +0000
Subject: [PATCH 58/90] fix: TypedArray.prototype.filter ignores errors of
 storing elements

---
 src/lib/rjs_typed_array_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 3210343..51854d5 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -649,7 +649,8 @@ static RJS_NF(TypedArray_prototype_filter)
     k = 0;
     rjs_list_foreach_c(&vl->seg_list, vls, RJS_ValueListSegment, ln) {
         for (i = 0; i < vls->num; i ++) {
-            rjs_set_index(rt, rv, k, &vls->v[i], RJS_TRUE);
+            if ((r = rjs_set_index(rt, rv, k, &vls->v[i], RJS_TRUE)) == RJS_ERR)
+                goto end;
             k ++;
         }
     }
-- 
2.43.0


From 67ec58729209cb5bc76c6ae02d9d033ce72549af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 59/90] fix: adding an element to a sparse array emptied before
 crashes

---
 src/lib/rjs_object.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_object.c b/src/lib/rjs_object.c
index 0e11f04..ac18cac 100644
--- a/src/lib/rjs_object.c
+++ b/src/lib/rjs_object.c
@@ -127,18 +127,15 @@ prop_rbt_to_vec (RJS_Runtime *rt, RJS_Rbt *rbt, size_t len)
     RJS_Property *vec;
     size_t        i;
 
-    if (!rbt)
-        return NULL;
-
     RJS_NEW_N(rt, vec, len);
 
     for (i = 0; i < len; i ++)
         vec[i].attrs = RJS_PROP_ATTR_DELETED;
 
-    if (rbt)
+    if (rbt) {
         prop_rbt_set_vec(rt, rbt, vec, len);
-
-    prop_rbt_free_all(rt, rbt);
+        prop_rbt_free_all(rt, rbt);
+    }
 
     return vec;
 }
-- 
2.43.0


From 721d65399390b197d483bb920af697891cccc5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 60/90] fix: conversion between big integers and INT64_MIN
 negates it as signed integer

---
 src/lib/rjs_big_int_internal_opt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 88383e4..58240a3 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -684,12 +684,12 @@ RJS_Result
 rjs_big_int_from_int64 (RJS_Runtime *rt, RJS_Value *v, int64_t i)
 {
     RJS_BI     *bi;
-    int64_t     a;
+    uint64_t    a;
     RJS_Result  r;
 
     bi = big_int_new(rt, v);
 
-    a = RJS_ABS(i);
+    a = (i < 0) ? - (uint64_t)i : (uint64_t)i;
 
     if ((r = bi_set_item(rt, bi, 0, a & 0xffffffff)) == RJS_ERR)
         return r;
@@ -747,7 +747,7 @@ rjs_big_int_to_int64 (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     if (pos == 0) {
         *pi = 0;
     } else {
-        int64_t i;
+        uint64_t i;
 
         i = bi->n[0];
 
@@ -780,7 +780,7 @@ rjs_big_int_to_uint64 (RJS_Runtime *rt, RJS_Value *v, uint64_t *pi)
     if (pos == 0) {
         *pi = 0;
     } else {
-        int64_t i;
+        uint64_t i;
 
         i = bi->n[0];
 
-- 
2.43.0


From 883796d0d60c63b60d2d4e266b7ec3fb539675f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:40 +0000
Subject: [PATCH 61/90] fix: decodeURI and decodeURIComponent accept invalid
 UTF-8 sequences

---
 src/lib/rjs_uri_functions_inc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index 1d7c8fc..58213c7 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -66,9 +66,9 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             c ++;
         } else {
-            int uc, n;
+            int uc, n, min;
 
-            if (e - c < 2) {
+            if (e - c < 3) {
                 r = throw_uri_error(rt);
                 goto end;
             }
@@ -106,15 +106,19 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             c += 3;
 
             if (!(uc & 0x80)) {
-                n = 0;
+                n   = 0;
+                min = 0;
             } else if ((uc & 0xe0) == 0xc0) {
                 n   = 1;
+                min = 0x80;
                 uc &= 0x1f;
             } else if ((uc & 0xf0) == 0xe0) {
                 n   = 2;
+                min = 0x800;
                 uc &= 0x0f;
             } else if ((uc & 0xf8) == 0xf0) {
                 n   = 3;
+                min = 0x10000;
                 uc &= 0x07;
             } else {
                 r = throw_uri_error(rt);
@@ -152,6 +156,11 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
                 n --;
             }
 
+            if ((uc < min) || (uc > 0x10ffff) || ((uc >= 0xd800) && (uc <= 0xdfff))) {
+                r = throw_uri_error(rt);
+                goto end;
+            }
+
             rjs_uchar_buffer_append_uc(rt, &ucb, uc);
         }
     }
-- 
2.43.0


From 3ed3ac69b86ca6364997fc516c1df3f162c4386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:44 +0000
Subject: [PATCH 62/90] fix: toFixed, toPrecision and toExponential round ties
 to even

---
 src/lib/rjs_dtoa.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_dtoa.c b/src/lib/rjs_dtoa.c
index f12c0e7..04963e4 100644
--- a/src/lib/rjs_dtoa.c
+++ b/src/lib/rjs_dtoa.c
@@ -5375,7 +5375,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		j += k;
 		if (ilim == 0) {
 			S = mhi = 0;
-			if (res > (5ull << j))
+			if (res >= (5ull << j))
 				goto one_digit;
 			goto no_digits;
 			}
@@ -5383,7 +5383,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		}
 	if (ilim == 0 && j + k >= 0) {
 		S = mhi = 0;
-		if ((dbits >> 11) > (pfive[k-1] << j))
+		if ((dbits >> 11) >= (pfive[k-1] << j))
 			goto one_digit;
 		goto no_digits;
 		}
@@ -5421,8 +5421,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 				  case 2: goto Roundup;
 				  }
 				ures = 2*res;
-				if (ures > den
-				|| (ures == den && dig & 1)
+				if (ures >= den
 				|| (spec_case && res <= ulp && 2*res >= ulp))
 					goto Roundup;
 				goto retc;
@@ -5470,7 +5469,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 				  }
 #endif
 				hb = 1ull << j;
-				if (res & hb && (dig & 1 || res & (hb-1)))
+				if (res & hb)
 					goto Roundup;
 				if (spec_case && res <= ulp && 2*res >= ulp) {
  Roundup:
@@ -5913,7 +5912,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		ds = tens[k];
 		if (ndigits < 0 && ilim <= 0) {
 			S = mhi = 0;
-			if (ilim < 0 || dval(&u) <= 5*ds)
+			if (ilim < 0 || dval(&u) < 5*ds)
 				goto no_digits;
 			goto one_digit;
 			}
@@ -5946,7 +5945,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 #ifdef ROUND_BIASED
 				if (dval(&u) >= ds)
 #else
-				if (dval(&u) > ds || (dval(&u) == ds && L & 1))
+				if (dval(&u) > ds || (dval(&u) == ds && (mode > 1 || L & 1)))
 #endif
 					{
  bump_up:
@@ -6038,7 +6037,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		}
 #endif
 	if (ilim <= 0 && (mode == 3 || mode == 5)) {
-		if (ilim < 0 || cmp(b,S = multadd(S,5,0 MTb)) <= 0) {
+		if (ilim < 0 || cmp(b,S = multadd(S,5,0 MTb)) < 0) {
 			/* no digits, fcvt style */
  no_digits:
 			k = -1 - ndigits;
@@ -6181,7 +6180,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 #ifdef ROUND_BIASED
 	if (j >= 0)
 #else
-	if (j > 0 || (j == 0 && dig & 1))
+	if (j > 0 || (j == 0 && (mode > 1 || dig & 1)))
 #endif
 		{
  roundoff:
-- 
2.43.0


From 7f9f63835c1478775cebf0fd5991ce8cd9f33297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:18 +0000
Subject: [PATCH 63/90] fix: Number.prototype.toString ignores the radix for
 numbers that are not integers

---
 src/lib/rjs_number_object_inc.c | 164 ++++++++++++++++++++++----------
 1 file changed, 114 insertions(+), 50 deletions(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 85ae99a..d24169b 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -573,12 +573,121 @@ end:
     return r;
 }
 
+/*Convert the number to string of the radix.*/
+static RJS_Result
+number_to_radix_string (RJS_Runtime *rt, RJS_Number n, int radix, RJS_Value *rv)
+{
+    static const char digits[] = "0123456789abcdefghijklmnopqrstuvwxyz";
+    char       buf[2400];
+    int        dot = RJS_N_ELEM(buf) / 2;
+    int        ic  = dot;
+    int        fc  = dot;
+    RJS_Number v, i, f, delta;
+
+    v = fabs(n);
+    i = floor(v);
+    f = v - i;
+
+    /*Half of the distance to the next number.*/
+    delta = 0.5 * (nextafter(v, INFINITY) - v);
+    if (delta < nextafter(0.0, 1.0))
+        delta = nextafter(0.0, 1.0);
+
+    if (f >= delta) {
+        buf[fc ++] = '.';
+
+        do {
+            int d;
+
+            f     *= radix;
+            delta *= radix;
+
+            d = (int)f;
+            buf[fc ++] = d;
+            f -= d;
+
+            /*Round to even.*/
+            if ((f > 0.5) || ((f == 0.5) && (d & 1))) {
+                if (f + delta > 1) {
+                    while (1) {
+                        fc --;
+
+                        if (fc == dot) {
+                            i += 1;
+                            break;
+                        }
+
+                        if (buf[fc] + 1 < radix) {
+                            buf[fc ++] ++;
+                            break;
+                        }
+                    }
+                    break;
+                }
+            }
+        } while (f >= delta);
+
+        for (int p = dot + 1; p < fc; p ++)
+            buf[p] = digits[(int)buf[p]];
+    }
+
+    if (i >= 9007199254740992.0) {
+        uint32_t w[34];
+        uint64_t m;
+        int      exp, wn, wi;
+
+        /*Get the exact digits of the big integer.*/
+        memset(w, 0, sizeof(w));
+
+        m   = ldexp(frexp(i, &exp), 53);
+        exp -= 53;
+        wi  = exp / 32;
+        exp %= 32;
+
+        w[wi]     = (uint32_t)(m << exp);
+        w[wi + 1] = (uint32_t)((m << exp) >> 32);
+        if (exp)
+            w[wi + 2] = (uint32_t)(m >> (64 - exp));
+
+        wn = wi + 3;
+
+        while (1) {
+            uint64_t rem = 0;
+
+            while ((wn > 0) && !w[wn - 1])
+                wn --;
+
+            if (!wn)
+                break;
+
+            for (wi = wn - 1; wi >= 0; wi --) {
+                rem   = (rem << 32) | w[wi];
+                w[wi] = rem / radix;
+                rem  %= radix;
+            }
+
+            buf[-- ic] = digits[rem];
+        }
+    } else {
+        int64_t left = i;
+
+        do {
+            buf[-- ic] = digits[left % radix];
+            left /= radix;
+        } while (left > 0);
+    }
+
+    if (n < 0)
+        buf[-- ic] = '-';
+
+    return rjs_string_from_chars(rt, rv, buf + ic, fc - ic);
+}
+
 /*Number.prototype.toString*/
 static RJS_NF(Number_prototype_toString)
 {
     RJS_Value *radixv = rjs_argument_get(rt, args, argc, 0);
     RJS_Number n, rn;
-    int64_t    i;
     int        radix;
     RJS_Result r;
 
@@ -604,57 +713,12 @@ static RJS_NF(Number_prototype_toString)
         goto end;
     }
 
-    i = n;
-    if (n == (RJS_Number)i) {
-        char    buf[256];
-        char   *c;
-        int     sign;
-        int64_t left;
-
-        if (i < 0) {
-            sign = 1;
-            i    = -i;
-        } else {
-            sign = 0;
-        }
-
-        c = buf + RJS_N_ELEM(buf) - 1;
-        *c -- = 0;
-
-        left = i;
-
-        while (1) {
-            int n;
-            int end;
-
-            if (left < radix) {
-                n   = left;
-                end = 1;
-            } else {
-                n     = left % radix;
-                left /= radix;
-                end   = 0;
-            }
-
-            if (n < 10)
-                *c = n + '0';
-            else
-                *c = n - 10 + 'a';
-
-            c --;
-
-            if (end)
-                break;
-        }
-
-        if (sign)
-            *c -- = '-';
-
-        r = rjs_string_from_chars(rt, rv, c + 1, -1);
-            goto end;
+    if (isinf(n) || isnan(n)) {
+        r = rjs_number_to_string(rt, n, rv);
+        goto end;
     }
 
-    r = rjs_number_to_string(rt, n, rv);
+    r = number_to_radix_string(rt, n, radix, rv);
 end:
     return r;
 }
-- 
2.43.0


From e4feb915bbc653e2e506be3b75496ef4cc87a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:18 +0000
Subject: [PATCH 64/90] fix: U+0085 is not a white space character

---
 src/lib/rjs_uchar_icu_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_uchar_icu_opt.c b/src/lib/rjs_uchar_icu_opt.c
index 8cd659e..02bceaf 100644
--- a/src/lib/rjs_uchar_icu_opt.c
+++ b/src/lib/rjs_uchar_icu_opt.c
@@ -34,7 +34,7 @@
 RJS_Bool
 rjs_uchar_is_white_space (int c)
 {
-    return u_isUWhiteSpace(c) || (c == 0xfeff);
+    return (u_isUWhiteSpace(c) && (c != 0x85)) || (c == 0xfeff);
 }
 
 /**
-- 
2.43.0


From f7e2ec595987dceca2eb1ab9f2f1aa257b9f7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:35 +0000
Subject: [PATCH 65/90] fix: padStart and padEnd convert the pattern when no
 padding is needed

---
 src/lib/rjs_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index a493255..cdab5e6 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -1187,7 +1187,7 @@ rjs_string_pad (RJS_Runtime *rt, RJS_Value *o, RJS_Value *max_len, RJS_Value *fi
 
     slen = rjs_string_get_length(rt, str);
 
-    if (ilen < slen) {
+    if (ilen <= (int64_t)slen) {
         rjs_value_copy(rt, rs, str);
         r = RJS_OK;
         goto end;
-- 
2.43.0


From e47e790dff0e789b098d6caa303952a539fa1ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:05 +0000
Subject: [PATCH 66/90] fix: borrow is not reset when internal big integers are
 subtracted

---
 src/lib/rjs_big_int_internal_opt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 58240a3..f85fdd8 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1188,7 +1188,8 @@ bi_self_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, src1, i, v)) == RJS_ERR)
@@ -1240,7 +1241,8 @@ bi_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, dst, i, v)) == RJS_ERR)
-- 
2.43.0


From c5e63e1fd6375af471a38322fdd1257d03957875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:05 +0000
Subject: [PATCH 67/90] fix: product of internal big integers has wrong sign
 when the lowest word is 1

---
 src/lib/rjs_big_int_internal_opt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index f85fdd8..dc1102e 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -318,7 +318,11 @@ bi_mul_int (RJS_Runtime *rt, RJS_BI *src, uint32_t n, RJS_BI *dst, int shift)
         bi_set_0(dst);
         return RJS_OK;
     } else if ((n == 1) && (shift == 0)) {
-        return bi_dup(rt, dst, src);
+        if ((r = bi_dup(rt, dst, src)) == RJS_ERR)
+            return r;
+
+        dst->size = size;
+        return RJS_OK;
     }
 
     bi_set_0(dst);
-- 
2.43.0


From fef1a5702586525724b08ceb99f2c3f0e478464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:05 +0000
Subject: [PATCH 68/90] fix: power of the internal big integers 1 and -1 with a
 big exponent throws, big results never terminate

---
 src/lib/rjs_big_int_internal_opt.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index dc1102e..98b3da1 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -106,6 +106,9 @@ bi_set_cap (RJS_Runtime *rt, RJS_BI *bi, int cap)
     return RJS_OK;
 }
 
+/*Maximum bits number of a big integer.*/
+#define BI_MAX_BITS (1 << 30)
+
 /*Set the big integer data's number item.*/
 static RJS_Result
 bi_set_item (RJS_Runtime *rt, RJS_BI *bi, int idx, uint32_t n)
@@ -1787,13 +1790,16 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
         goto end;
     }
 
-    if (bi_size(src2) > 1) {
+    e = src2->n[0];
+
+    /*The result has at least this number of bits.*/
+    if (!bi_is_1(src1)
+            && ((bi_size(src2) > 1)
+            || ((uint64_t)e * RJS_MAX((bi_size(src1) - 1) * 32ull, 1) > BI_MAX_BITS))) {
         r = rjs_throw_range_error(rt, _("exponent is too big"));
         goto end;
     }
 
-    e = src2->n[0];
-
     if ((bi_size(src1) == 1) && (src1->n[0] == 1)) {
         if ((r = bi_set_item(rt, dst, 0, 1)) == RJS_ERR)
             goto end;
-- 
2.43.0


From e7228edabd7057a8ea1ea1f75bb3c6323986de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:05 +0000
Subject: [PATCH 69/90] fix: shift of negative internal big integers loses
 words

---
 src/lib/rjs_big_int_internal_opt.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 98b3da1..2efd13f 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1885,13 +1885,16 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
             }
             r = RJS_OK;
             goto end;
+        } else if (pos1 == 0) {
+            r = RJS_OK;
+            goto end;
         } else {
             r = rjs_throw_range_error(rt, _("shift value is too big"));
             goto end;
         }
     }
 
-    if (pos1 < 0) {
+    if ((pos1 < 0) && (pos2 < 0)) {
         if ((r = bi_complement(rt, src1, &inp)) == RJS_ERR)
             goto end;
 
@@ -1929,6 +1932,11 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
     } else {
         uint32_t left = 0;
 
+        if ((pos1 != 0) && (y + size1 * 32ull > BI_MAX_BITS)) {
+            r = rjs_throw_range_error(rt, _("shift value is too big"));
+            goto end;
+        }
+
         for (i = 0; i < off; i ++) {
             if ((r = bi_set_item(rt, d, i, 0)) == RJS_ERR)
                 goto end;
@@ -1948,22 +1956,20 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
         }
 
         if (left) {
-            if (pos1 < 0)
-                left |= 0xffffffff << bits;
-
             if ((r = bi_set_item(rt, d, i, left)) == RJS_ERR)
                 goto end;
         }
     }
 
-    bi_end(d);
-
-    if (pos1 < 0) {
+    if ((pos1 < 0) && (pos2 < 0)) {
         if ((r = bi_complement(rt, d, dst)) == RJS_ERR)
             goto end;
+    } else {
+        bi_end(dst);
+    }
 
+    if (pos1 < 0)
         dst->size = - dst->size;
-    }
 
     r = RJS_OK;
 end:
-- 
2.43.0


From 9bdfbbc343896212daa0730dbc1790d72c235db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:05 +0000
Subject: [PATCH 70/90] fix: BigInt.asIntN and asUintN do not extend the sign
 of internal big integers

---
 src/lib/rjs_big_int_internal_opt.c | 56 ++++++++++++++++++------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 2efd13f..09d754e 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -2275,6 +2275,8 @@ bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
 
     bi_init(&tmp);
 
+    size = bi_size(src);
+
     if (bi_positive(src) < 0) {
         inp = &tmp;
 
@@ -2284,28 +2286,28 @@ bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
         inp = src;
     }
 
-    size = bi_size(inp);
-
     off = bits / 32;
     b   = bits % 32;
 
-    for (i = 0; i < off; i ++) {
-        if (i < size)
-            n = inp->n[i];
-        else
-            n = 0;
-
-        if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
-            goto end;
+    if (inp == src) {
+        /*The words over the size are 0.*/
+        if (off >= size) {
+            off = size;
+            b   = 0;
+        }
+    } else if (bits > BI_MAX_BITS) {
+        r = rjs_throw_range_error(rt, _("bits number is too big"));
+        goto end;
     }
 
-    if (b) {
+    for (i = 0; i < off + (b ? 1 : 0); i ++) {
         if (i < size)
             n = inp->n[i];
         else
-            n = 0;
+            n = 0xffffffff;
 
-        n &= ~(0xffffffff << b);
+        if (i == off)
+            n &= ~(0xffffffff << b);
 
         if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
             goto end;
@@ -2342,19 +2344,27 @@ rjs_big_int_as_int_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv
 
     bi_init(&res);
 
-    if ((r = bi_bits(rt, src, &res, bits)) == RJS_ERR)
+    if (bits > bi_size(src) * 32ll) {
+        /*The value is in the range.*/
+        r = bi_dup(rt, dst, src);
         goto end;
+    }
 
-    off  = (bits - 1) / 32;
-    b    = (bits - 1) % 32;
-    size = bi_size(&res);
+    if ((r = bi_bits(rt, src, &res, bits)) == RJS_ERR)
+        goto end;
 
-    if (size > off) {
-        n = res.n[off];
-        if (n & (1 << b)) {
-            n |= (0xffffffff << b);
-            bi_set_item(rt, &res, off, n);
-            pos = -1;
+    if (bits > 0) {
+        off  = (bits - 1) / 32;
+        b    = (bits - 1) % 32;
+        size = bi_size(&res);
+
+        if (size > off) {
+            n = res.n[off];
+            if (n & (1u << b)) {
+                n |= (0xffffffff << b);
+                bi_set_item(rt, &res, off, n);
+                pos = -1;
+            }
         }
     }
 
-- 
2.43.0


From 91835cb9ab53ef8c77082a39442c3a2d76451074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 71/90] fix: negative internal big integer to the power of 1
 loses its sign

---
 src/lib/rjs_big_int_internal_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 09d754e..3a2e193 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1806,6 +1806,7 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
     } else if (e == 1) {
         if ((r = bi_dup(rt, dst, src1)) == RJS_ERR)
             goto end;
+        dst->size = RJS_ABS(dst->size);
     } else {
         bi_map_resize(rt, &emap, 1);
         pbi = emap.items;
-- 
2.43.0


From 47299538670f4deaf653457ee87c73f26de435be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:27 +0000
Subject: [PATCH 72/90] fix: empty string is equal to any string in
 localeCompare

---
 src/lib/rjs_uchar_icu_opt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_uchar_icu_opt.c b/src/lib/rjs_uchar_icu_opt.c
index 02bceaf..5150551 100644
--- a/src/lib/rjs_uchar_icu_opt.c
+++ b/src/lib/rjs_uchar_icu_opt.c
@@ -85,6 +85,10 @@ rjs_uchars_compare (const RJS_UChar *s1, int l1, const RJS_UChar *s2, int l2)
 {
     UErrorCode err = U_ZERO_ERROR;
 
+    /*The characters pointer of an empty string may be NULL.*/
+    if (!l1 || !l2)
+        return (l1 > l2) - (l1 < l2);
+
     return unorm_compare(s1, l1, s2, l2, U_FOLD_CASE_DEFAULT, &err);
 }
 
-- 
2.43.0


From 94e63fcc025cf9f72f9d4de6e8044a8b46d0ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:40 +0000
Subject: [PATCH 73/90] fix: String.prototype.repeat overflows the length with
 a big count

---
 src/lib/rjs_string_object_inc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 1f689c1..5c44c92 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -847,7 +847,6 @@ static RJS_NF(String_prototype_repeat)
     size_t     top   = rjs_value_stack_save(rt);
     RJS_Value *str   = rjs_value_stack_push(rt);
     RJS_Number n;
-    size_t     rc;
     RJS_Result r;
 
     if ((r = rjs_require_object_coercible(rt, thiz)) == RJS_ERR)
@@ -863,11 +862,14 @@ static RJS_NF(String_prototype_repeat)
         r = rjs_throw_range_error(rt, _("repeat count must >= 0 and < infinite"));
         goto end;
     }
-    rc = n;
 
-    if (rc == 0) {
+    if ((n == 0) || (rjs_string_get_length(rt, str) == 0)) {
         rjs_value_copy(rt, rv, rjs_s_empty(rt));
+    } else if (n * rjs_string_get_length(rt, str) > INT_MAX) {
+        r = rjs_throw_range_error(rt, _("string is too long"));
+        goto end;
     } else {
+        size_t           rc   = n;
         size_t           slen = rjs_string_get_length(rt, str);
         size_t           rlen = rc * slen;
         size_t           i;
-- 
2.43.0


From 09895c3b7929ec976665edddb37f6bf39be65282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 74/90] fix: toFixed of negative zero has a sign

---
 src/lib/rjs_number_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index d24169b..6bda388 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -388,7 +388,7 @@ static RJS_NF(Number_prototype_toFixed)
     kv = se - sb;
     nv = decpt;
 
-    if (sign)
+    if (sign && (n != 0))
         *dc ++ = '-';
 
     if (kv <= nv) {
-- 
2.43.0


From 1b66959d5f4f7ca478a6e21d7d52ba911d75cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:01 +0000
Subject: [PATCH 75/90] fix: JSON.stringify reads every property twice

---
 src/lib/rjs_json_opt.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 32031fa..6887bc6 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -694,7 +694,6 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
     RJS_Value         *stepback = rjs_value_stack_push(rt);
     RJS_Value         *indent   = rjs_value_stack_push(rt);
     RJS_Value         *keys     = rjs_value_stack_push(rt);
-    RJS_Value         *kv       = rjs_value_stack_push(rt);
     RJS_Value         *str      = rjs_value_stack_push(rt);
     RJS_Bool           empty    = RJS_TRUE;
     RJS_UCharBuffer    ucb;
@@ -759,23 +758,20 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
 
-            r = rjs_get(rt, value, &pn, kv);
+            r = serialize_json_property(rt, js, &pn, value, str);
             if (r == RJS_OK) {
-                r = serialize_json_property(rt, js, &pn, value, str);
-                if (r == RJS_OK) {
-                    if (rjs_value_is_string(rt, str)) {
-                        if (!empty)
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
+                if (rjs_value_is_string(rt, str)) {
+                    if (!empty)
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
 
-                        if (js->gap) {
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
-                            rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
-                        }
+                    if (js->gap) {
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
+                        rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
+                    }
 
-                        serialize_key_value(rt, js, &ucb, key, str);
+                    serialize_key_value(rt, js, &ucb, key, str);
 
-                        empty = RJS_FALSE;
-                    }
+                    empty = RJS_FALSE;
                 }
             }
 
-- 
2.43.0


From 12277cf230e285c6eb300b10c3bc53f18c1b4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:02 +0000
Subject: [PATCH 76/90] fix: hours, minutes and seconds of dates before 1970
 are wrong

---
 src/lib/rjs_date_object_inc.c | 37 +++++++++++++++--------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 7c1fc18..a73431a 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -93,6 +93,19 @@ day (int64_t t)
     return floor(((double)t) / RJS_MS_PER_DAY);
 }
 
+/*Get the rest of the floor division of the time value by the unit's cycle.*/
+static int
+time_unit (int64_t t, int64_t unit, int n)
+{
+    int64_t v;
+
+    v = t % (unit * n);
+    if (v < 0)
+        v += unit * n;
+
+    return v / unit;
+}
+
 /*Get the time within a day.*/
 static int
 time_within_day (int64_t t)
@@ -245,39 +258,21 @@ date_from_time (int64_t t)
 static int
 hour_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_HOUR) % RJS_HOURS_PER_DAY;
-    if (v < 0)
-        v += RJS_HOURS_PER_DAY;
-
-    return v;
+    return time_unit(t, RJS_MS_PER_HOUR, RJS_HOURS_PER_DAY);
 }
 
 /*Get minute from time.*/
 static int
 min_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
-    if (v < 0)
-        v += RJS_MINUTES_PER_HOUR;
-
-    return v;
+    return time_unit(t, RJS_MS_PER_MINUTE, RJS_MINUTES_PER_HOUR);
 }
 
 /*Get second from time.*/
 static int
 sec_from_time (int64_t t)
 {
-    int v;
-
-    v = (t / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
-    if (v < 0)
-        v += RJS_SECONDS_PER_MINUTE;
-
-    return v;
+    return time_unit(t, RJS_MS_PER_SECOND, RJS_SECONDS_PER_MINUTE);
 }
 
 /*Get microseconds from time.*/
-- 
2.43.0


From a08e56ff82e7c66a9a1fa144e4fc619024c92e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:02 +0000
Subject: [PATCH 77/90] fix: Date.prototype.setUTCMilliseconds changes the
 minutes

---
 src/lib/rjs_date_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index a73431a..863f001 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -1985,7 +1985,7 @@ static RJS_NF(Date_prototype_setUTCMilliseconds)
         return RJS_OK;
     }
 
-    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), ms_from_time(t), sec_from_time(t), milli));
+    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), min_from_time(t), sec_from_time(t), milli));
     u = time_clip(rt, u);
 
     d = (RJS_Date*)rjs_value_get_object(rt, thiz);
-- 
2.43.0


From 48aa837d978f670298bdb70ee0cd49f2a8713370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:02 +0000
Subject: [PATCH 78/90] fix: toISOString does not expand years beyond 4 digits

---
 src/lib/rjs_date_object_inc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 863f001..6929002 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -2175,8 +2175,12 @@ static RJS_NF(Date_prototype_toISOString)
         sec = sec_from_time(t);
         ms  = ms_from_time(t);
 
-        snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
-                y, m + 1, d, h, min, sec, ms);
+        if ((y < 0) || (y > 9999))
+            snprintf(buf, sizeof(buf), "%c%06d-%02d-%02dT%02d:%02d:%02d.%03dZ",
+                    (y < 0) ? '-' : '+', RJS_ABS(y), m + 1, d, h, min, sec, ms);
+        else
+            snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
+                    y, m + 1, d, h, min, sec, ms);
 
         r = rjs_string_from_chars(rt, rv, buf, -1);
     }
-- 
2.43.0


From 65cf0b610d34d25cefad8e8ba1fc6e5690e708b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:02 +0000
Subject: [PATCH 79/90] fix: date arithmetic overflows with big arguments

---
 src/lib/rjs_date_object_inc.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 6929002..4073e10 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -316,9 +316,12 @@ local_time (RJS_Runtime *rt, int64_t t)
 }
 
 /*Get the UTC time.*/
-static int64_t
-utc (RJS_Runtime *rt, int64_t t)
+static RJS_Number
+utc (RJS_Runtime *rt, RJS_Number t)
 {
+    if (isnan(t) || (RJS_ABS(t) > 1e17))
+        return NAN;
+
     return t - local_tza(rt, t, RJS_FALSE);
 }
 
@@ -463,18 +466,20 @@ make_day (RJS_Runtime *rt, RJS_Number y, RJS_Number m, RJS_Number d)
         rjs_value_set_number(rt, v, d);
         rjs_to_integer_or_infinity(rt, v, &d);
 
-        y += floor(m / 12);
-        if (isinf(y)) {
+        /*Avoid overflow, the time is out of range.*/
+        if ((RJS_ABS(y) > 1e6) || (RJS_ABS(m) > 1e7)) {
             dv = NAN;
             goto end;
         }
 
+        y += floor(m / 12);
+
         mon = ((int64_t)m) % 12;
         if (mon < 0)
             mon += 12;
 
         t    = time_from_year(y);
-        leap = in_leap_year(t);
+        leap = is_leap_year(y);
 
         yd = month_year_days[mon];
 
-- 
2.43.0


From 083542d461cbf52e951c20a4927313e0f69140ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:24 +0000
Subject: [PATCH 80/90] fix: Date.parse rejects 24:00:00

---
 src/lib/rjs_date_object_inc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 4073e10..17dcbd1 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -942,7 +942,10 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
         if (day > month_days[mon - 1])
             goto end;
     }
-    if ((hour > 23) || (min > 59) || (sec > 59))
+    if ((min > 59) || (sec > 59))
+        goto end;
+    /*24:00:00 is the end of the day.*/
+    if ((hour > 24) || ((hour == 24) && (min || sec || ms)))
         goto end;
     if ((off_hour > 23) || (off_min > 59))
         goto end;
-- 
2.43.0


From d48b5fbe96bbc9629117a2b496144f2dc9067be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:25 +0000
Subject: [PATCH 81/90] fix: Date.parse accepts day 0

---
 src/lib/rjs_date_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 17dcbd1..679e3ca 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -931,7 +931,7 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
     if (c != RJS_INPUT_END)
         goto end;
 
-    if ((mon < 1) || (mon > 12))
+    if ((mon < 1) || (mon > 12) || (day < 1))
         goto end;
     if (mon == 2) {
         int leap = is_leap_year(y);
-- 
2.43.0


From 5287d56ee7a52fe3c63b21843cbf4e30f3194f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:09 +0000
Subject: [PATCH 82/90] fix: Date.parse overflows with long numbers

---
 src/lib/rjs_date_object_inc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 679e3ca..3a1b6a8 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -556,6 +556,9 @@ parse_date_number (RJS_Runtime *rt, RJS_Input *input, int len)
             break;
         }
 
+        if (v > 99999999)
+            return -1;
+
         v *= 10;
         v += c - '0';
 
-- 
2.43.0


From 3bca855dacd5c879814fc5f21d84943affe0c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:03 +0000
Subject: [PATCH 83/90] fix: releasing the stack of suspended generators
 accesses released values and the running context

---
 src/lib/rjs_native_stack.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 1a4f02a..716f2a3 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1764,13 +1764,29 @@ rjs_native_stack_clear (RJS_Runtime *rt, RJS_NativeStack *ns)
 
     rt->rb.curr_native_stack = ns;
 
-    rjs_vector_foreach(&ns->state, i, s) {
-        /*Set the iterator done flag to avoid "close" be called*/
-        if ((s->type == RJS_STATE_FOR_IN)
-                || (s->type == RJS_STATE_FOR_OF)
-                || (s->type == RJS_STATE_ARRAY_ASSI)) {
+    /*The states must be released from the top to the bottom.*/
+    for (i = ns->state.item_num; i > 0; i --) {
+        s = &ns->state.items[i - 1];
+
+        switch (s->type) {
+        case RJS_STATE_FOR_IN:
+        case RJS_STATE_FOR_OF:
+        case RJS_STATE_ARRAY_ASSI:
+            /*Set the iterator done flag to avoid "close" be called*/
             if (s->s.s_iter.iterator)
                 s->s.s_iter.iterator->done = RJS_TRUE;
+            break;
+        case RJS_STATE_ARRAY:
+            /*The array is not used any more.*/
+            continue;
+#if ENABLE_PRIV_NAME
+        case RJS_STATE_CLASS:
+            /*The running context does not own the private environment.*/
+            s->s.s_class.priv_env = NULL;
+            break;
+#endif /*ENABLE_PRIV_NAME*/
+        default:
+            break;
         }
 
         rjs_state_deinit(rt, s, NULL, 0, NULL);
-- 
2.43.0


From 5bd3cf8c8ca278cf0be199fdd57b939ddd7f189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:52 +0000
Subject: [PATCH 84/90] fix: AggregateError objects are error objects

---
 src/lib/rjs_error.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_error.c b/src/lib/rjs_error.c
index 52a3655..c26541a 100644
--- a/src/lib/rjs_error.c
+++ b/src/lib/rjs_error.c
@@ -522,6 +522,7 @@ static RJS_NF(AggregateError_constructor)
     size_t           top   = rjs_value_stack_save(rt);
     RJS_Value       *str   = rjs_value_stack_push(rt);
     RJS_Value       *cause = rjs_value_stack_push(rt);
+    RJS_Object      *o;
     RJS_PropertyDesc pd;
     RJS_Result       r;
 
@@ -530,8 +531,12 @@ static RJS_NF(AggregateError_constructor)
     if (!nt)
         nt = f;
 
-    if ((r = rjs_ordinary_create_from_constructor(rt, nt, RJS_O_AggregateError_prototype, rv)) == RJS_ERR)
+    RJS_NEW(rt, o);
+
+    if ((r = rjs_ordinary_init_from_constructor(rt, o, nt, RJS_O_AggregateError_prototype, &error_ops, rv)) == RJS_ERR) {
+        RJS_DEL(rt, o);
         goto end;
+    }
 
     if (!rjs_value_is_undefined(rt, msg)) {
         if ((r = rjs_to_string(rt, msg, str)) == RJS_ERR)
-- 
2.43.0


From 5768f72f02e1e08ee2976b4fd7e5ee7bb0497587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:20 +0000
Subject: [PATCH 85/90] fix: the two element functions of Promise.allSettled
 share one already-called state, errors of the resolving function propagate

---
 src/lib/rjs_promise_object_inc.c | 33 +++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 2e31f3f..f5762f9 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -93,6 +93,7 @@ typedef struct {
 
 /**Promise single task data.*/
 typedef struct {
+    int             ref;    /**< Reference counter.*/
     RJS_PromiseAll *all;    /**< All reference*/
     size_t          index;  /**< The current promise index.*/
     RJS_Bool        called; /**< The function is already called.*/
@@ -161,6 +162,11 @@ promise_single_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_PromiseSingle *s = ptr;
 
+    s->ref --;
+
+    if (s->ref != 0)
+        return;
+
     if (s->all)
         promise_all_free(rt, s->all);
 
@@ -175,6 +181,7 @@ promise_single_new (RJS_Runtime *rt, RJS_PromiseAll *all, size_t index)
 
     RJS_NEW(rt, s);
 
+    s->ref    = 1;
     s->called = RJS_FALSE;
     s->index  = index;
 
@@ -230,6 +237,24 @@ promise_all_func_new (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, size_t i
     return RJS_OK;
 }
 
+/*Create a new promise all built-in function sharing the task data with another function.*/
+static RJS_Result
+promise_all_func_share (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, RJS_Value *other)
+{
+    RJS_Realm         *realm  = rjs_realm_current(rt);
+    RJS_PromiseSingle *single = rjs_native_object_get_data(rt, other);
+    RJS_Result         r;
+
+    r = rjs_create_native_function(rt, NULL, nf, 1, rjs_s_empty(rt), realm, NULL, NULL, v);
+    if (r == RJS_ERR)
+        return r;
+
+    single->ref ++;
+    rjs_native_object_set_data(rt, v, NULL, single, promise_single_scan, promise_single_free);
+
+    return RJS_OK;
+}
+
 /*Perform promise all operation.*/
 static RJS_Result
 perform_promise_all (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
@@ -380,8 +405,6 @@ static RJS_NF(promise_all_settled_resolve)
         rjs_value_set_undefined(rt, rv);
         r = RJS_OK;
     }
-
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
@@ -419,8 +442,6 @@ static RJS_NF(promise_all_settled_reject)
         rjs_value_set_undefined(rt, rv);
         r = RJS_OK;
     }
-
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
@@ -479,7 +500,7 @@ perform_promise_all_settled (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *con
         if ((r = promise_all_func_new(rt, fulfill, promise_all_settled_resolve, index, all)) == RJS_ERR)
             goto end;
 
-        if ((r = promise_all_func_new(rt, reject, promise_all_settled_reject, index, all)) == RJS_ERR)
+        if ((r = promise_all_func_share(rt, reject, promise_all_settled_reject, fulfill)) == RJS_ERR)
             goto end;
 
         all->left ++;
@@ -577,8 +598,6 @@ static RJS_NF(promise_any_reject)
         rjs_value_set_undefined(rt, rv);
         r = RJS_OK;
     }
-
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From 53ebe1d8141bf0438864c867f86084233f1cc8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:13 +0000
Subject: [PATCH 86/90] fix: errors of an iterator itself do not close it in
 Array.from, collections and Object.fromEntries

---
 src/lib/rjs_array_object_inc.c | 10 ++++++++--
 src/lib/rjs_hash_object_inc.c  |  8 ++++----
 src/lib/rjs_operation.c        |  8 ++++++--
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index eb7823a..cc91a11 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -144,10 +144,14 @@ static RJS_NF(Array_from)
                 goto end;
             }
 
-            if ((r = rjs_iterator_step(rt, &iter_rec, next)) == RJS_ERR)
+            if ((r = rjs_iterator_step(rt, &iter_rec, next)) == RJS_ERR) {
+                use_iter = RJS_FALSE;
                 goto end;
+            }
 
             if (!r) {
+                use_iter = RJS_FALSE;
+
                 rjs_value_set_number(rt, lenv, k);
 
                 if ((r = rjs_set(rt, rv, rjs_pn_length(rt), lenv, RJS_TRUE)) == RJS_ERR)
@@ -155,8 +159,10 @@ static RJS_NF(Array_from)
                 break;
             }
 
-            if ((r = rjs_iterator_value(rt, next, kv)) == RJS_ERR)
+            if ((r = rjs_iterator_value(rt, next, kv)) == RJS_ERR) {
+                use_iter = RJS_FALSE;
                 goto end;
+            }
 
             if (mapping) {
                 rjs_value_set_number(rt, iv, k);
diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index 8f08c49..b5f1344 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -200,13 +200,13 @@ set_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if ((r = rjs_call(rt, adder, rv, iv, 1, res)) == RJS_ERR)
             goto iter_end;
@@ -270,13 +270,13 @@ map_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!rjs_value_is_object(rt, iv)) {
             r = rjs_throw_type_error(rt, _("the result is not an object"));
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 181a5c6..2583d31 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2239,14 +2239,18 @@ rjs_add_entries_from_iterable (RJS_Runtime *rt, RJS_Value *target, RJS_Value *it
     need_close = RJS_TRUE;
 
     while (1) {
-        if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
+        if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR) {
+            need_close = RJS_FALSE;
             goto end;
+        }
 
         if (!r)
             break;
 
-        if ((r = rjs_iterator_value(rt, ir, item)) == RJS_ERR)
+        if ((r = rjs_iterator_value(rt, ir, item)) == RJS_ERR) {
+            need_close = RJS_FALSE;
             goto end;
+        }
 
         if (!rjs_value_is_object(rt, item)) {
             r = rjs_throw_type_error(rt, _("\"value\" of iterator result is not an object"));
-- 
2.43.0


From 18e7f75f50505adc651aae90441a36e7ab9ca295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:55 +0000
Subject: [PATCH 87/90] fix: an error reading the value of a rest element does
 not close the iterator

---
 src/lib/rjs_native_stack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 716f2a3..c1b186e 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -463,8 +463,10 @@ rjs_iter_state_rest (RJS_Runtime *rt, RJS_Value *rv)
             break;
         }
 
-        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR)
+        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR) {
+            iter->done = RJS_TRUE;
             goto end;
+        }
 
         if ((r = rjs_create_data_property_or_throw_index(rt, rv, i, item)) == RJS_ERR)
             goto end;
-- 
2.43.0


From d9ff151036f1b7281d3377ebb2d121249d998d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:12 +0000
Subject: [PATCH 88/90] fix: regular expression case folding, empty iterations,
 captures, classes and source text

- an optional iteration of a quantifier that matches the empty string is rejected, so its captures do not stay set
- with the i flag class ranges, \p and \w compare through every case variant, and a non-ASCII character never canonicalizes to ASCII without the u flag
- back references compare code points with the iu flags
- \p{..} inside a class keeps its property; \ud83d followed by another \u escape is read correctly
- captures that did not participate are own undefined elements, and replace callbacks get undefined
- patterns without the u flag are read as code units; a class escape before a trailing - is accepted
- source escapes / only where needed; the groups object is in group order
---
 src/lib/include/rjs_uchar.h     |  25 ++++
 src/lib/rjs_regexp.c            | 225 +++++++++++++++++++++++++-------
 src/lib/rjs_regexp_object_inc.c |   4 +-
 src/lib/rjs_uchar_icu_opt.c     |  30 +++++
 4 files changed, 239 insertions(+), 45 deletions(-)

diff --git a/src/lib/include/rjs_uchar.h b/src/lib/include/rjs_uchar.h
index 087ab0b..e2b5e1e 100644
--- a/src/lib/include/rjs_uchar.h
+++ b/src/lib/include/rjs_uchar.h
@@ -35,6 +35,9 @@
 extern "C" {
 #endif
 
+/**The maximum number of the case variants of a character.*/
+#define RJS_UCHAR_CASE_VARIANT_MAX 16
+
 /**
  * Check if the character is an octal number.
  * \param c The character.
@@ -209,6 +212,15 @@ rjs_uchars_normalize (const RJS_UChar *s, int slen, RJS_UChar *d, int dlen, cons
 RJS_INTERNAL int
 rjs_uchar_fold_case (int c);
 
+/**
+ * Get the characters which differ from the character only in case.
+ * \param c The input character.
+ * \param[out] vars The buffer to store the characters.
+ * \return The number of the characters.
+ */
+extern int
+rjs_uchar_case_variants (int c, int *vars);
+
 #else /*ENC_CONV != ENC_CONV_ICU*/
 
 static inline RJS_Bool
@@ -265,6 +277,19 @@ rjs_uchar_fold_case (int c)
     return c;
 }
 
+static inline int
+rjs_uchar_case_variants (int c, int *vars)
+{
+    if ((c >= 'a') && (c <= 'z'))
+        vars[0] = c - 'a' + 'A';
+    else if ((c >= 'A') && (c <= 'Z'))
+        vars[0] = c - 'A' + 'a';
+    else
+        return 0;
+
+    return 1;
+}
+
 #endif /*ENC_CONV == ENC_CONV_ICU*/
 
 /**
diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index a3bdcc3..7553930 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -171,6 +171,7 @@ typedef struct {
 /**Parser.*/
 typedef struct {
     int                flags;      /**< The flags.*/
+    RJS_Bool           full_uc;    /**< Read surrogate pairs as one character.*/
     size_t             stack_top;  /**< Value stack top.*/
     RJS_Input          si;         /**< The string input.*/
     RJS_RegExpPattern *pattern;    /**< The pattern.*/
@@ -385,6 +386,7 @@ regexp_parser_init (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_Value *src, int fl
     rjs_list_init(&p->br_list);
 
     p->flags     = flags;
+    p->full_uc   = (flags & RJS_REGEXP_FL_U) ? RJS_TRUE : RJS_FALSE;
     p->sp        = 0;
     p->group_num = 1;
 
@@ -432,14 +434,28 @@ regexp_parser_deinit (RJS_Runtime *rt, RJS_RegExpParser *p)
 static int
 get_uc (RJS_Runtime *rt, RJS_RegExpParser *p)
 {
-    return rjs_input_get_uc(rt, &p->si);
+    int c = rjs_input_get_uc(rt, &p->si);
+
+    /*Without the flag "u" the pattern is a sequence of code units.*/
+    if ((c > 0xffff) && !p->full_uc) {
+        p->si.pos --;
+
+        c = rjs_string_get_uchar(rt, p->si.str, p->si.pos - 1);
+    }
+
+    return c;
 }
 
 /*Push back a unicode character.*/
 static void
 unget_uc (RJS_Runtime *rt, RJS_RegExpParser *p, int uc)
 {
-    rjs_input_unget_uc(rt, &p->si, uc);
+    if (!p->full_uc && rjs_uchar_is_trailing_surrogate(uc)) {
+        p->si.pos --;
+        p->si.column --;
+    } else {
+        rjs_input_unget_uc(rt, &p->si, uc);
+    }
 }
 
 /*Output parse error message.*/
@@ -543,6 +559,16 @@ parse_uc_escape_seq (RJS_Runtime *rt, RJS_RegExpParser *p, int flags)
             if (c == '\\') {
                 c = get_uc(rt, p);
                 if (c == 'u') {
+                    c = get_uc(rt, p);
+                    unget_uc(rt, p, c);
+
+                    if (c == '{') {
+                        unget_uc(rt, p, 'u');
+                        unget_uc(rt, p, '\\');
+
+                        return c1;
+                    }
+
                     if ((c2 = parse_uc_escape(rt, p)) == RJS_ERR)
                         return RJS_ERR;
 
@@ -552,7 +578,7 @@ parse_uc_escape_seq (RJS_Runtime *rt, RJS_RegExpParser *p, int flags)
                         int i;
 
                         for (i = 0; i < 4; i ++) {
-                            unget_uc(rt, p, c2 & 0xf);
+                            unget_uc(rt, p, "0123456789abcdef"[c2 & 0xf]);
                             c2 >>= 4;
                         }
                         unget_uc(rt, p, 'u');
@@ -841,6 +867,7 @@ parse_group_name (RJS_Runtime *rt, RJS_RegExpParser *p)
     RJS_HashEntry       *he, **phe;
     RJS_String          *str;
     RJS_RegExpNameEntry *ne = NULL;
+    RJS_Bool             full_uc = p->full_uc;
 
     c = get_uc(rt, p);
     if (c != '<') {
@@ -850,6 +877,9 @@ parse_group_name (RJS_Runtime *rt, RJS_RegExpParser *p)
 
     rjs_uchar_buffer_init(rt, &text);
 
+    /*Group names are always read in code points.*/
+    p->full_uc = RJS_TRUE;
+
     if ((c = parse_uc(rt, p, RJS_REGEXP_FL_U)) == RJS_ERR)
         goto end;
 
@@ -903,6 +933,7 @@ parse_group_name (RJS_Runtime *rt, RJS_RegExpParser *p)
         rjs_list_append(&p->name_list, &ne->ln);
     }
 end:
+    p->full_uc = full_uc;
     rjs_uchar_buffer_deinit(rt, &text);
     return ne;
 }
@@ -922,6 +953,10 @@ parse_class_atom (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpChar *mc)
             mc->type = RJS_REGEXP_CHAR_NORMAL;
             mc->c.c  = '\b';
             break;
+        case '-':
+            mc->type = RJS_REGEXP_CHAR_NORMAL;
+            mc->c.c  = '-';
+            break;
         default:
             if ((r = parse_escape(rt, p, c, mc)) == RJS_ERR)
                 return r;
@@ -971,11 +1006,6 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
 
         c = get_uc(rt, p);
         if (c == '-') {
-            if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
-                regexp_parse_error(rt, p, _("only normal character can be used in range"));
-                return RJS_ERR;
-            }
-
             min = mc.c.c;
             max = mc.c.c;
 
@@ -985,9 +1015,14 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
             if (c == ']') {
                 unget_uc(rt, p, '-');
 
-                ca.type  = mc.type;
-                ca.a.c.c = mc.c.c;
+                ca.type = mc.type;
+                ca.a.c  = mc.c;
             } else {
+                if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
+                    regexp_parse_error(rt, p, _("only normal character can be used in range"));
+                    return RJS_ERR;
+                }
+
                 if ((r = parse_class_atom(rt, p, &mc)) == RJS_ERR)
                     return r;
 
@@ -1015,8 +1050,8 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
         } else {
             unget_uc(rt, p, c);
 
-            ca.type  = mc.type;
-            ca.a.c.c = mc.c.c;
+            ca.type = mc.type;
+            ca.a.c  = mc.c;
         }
 
         rjs_vector_append(&term->t.clazz.atoms, ca, rt);
@@ -1492,6 +1527,8 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     RJS_UCharBuffer  ucb;
     const RJS_UChar *c, *e;
     size_t           len;
+    RJS_Bool         in_class = RJS_FALSE;
+    RJS_Bool         in_esc   = RJS_FALSE;
 
     len = rjs_string_get_length(rt, src);
     if (len == 0) {
@@ -1505,23 +1542,46 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     rjs_uchar_buffer_init(rt, &ucb);
 
     while (c < e) {
+        const char *esc = NULL;
+
         switch (*c) {
         case '\n':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, 'n');
+            esc = "n";
             break;
         case '\r':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, 'r');
+            esc = "r";
+            break;
+        case 0x2028:
+            esc = "u2028";
+            break;
+        case 0x2029:
+            esc = "u2029";
             break;
         case '/':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '/');
+            if (!in_class && !in_esc)
+                esc = "/";
             break;
-        default:
-            rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
+        case '[':
+            if (!in_esc)
+                in_class = RJS_TRUE;
             break;
+        case ']':
+            if (!in_esc)
+                in_class = RJS_FALSE;
+            break;
+        }
+
+        if (esc) {
+            if (!in_esc)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+
+            while (*esc)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, *esc ++);
+        } else {
+            rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
         }
+
+        in_esc = !in_esc && (*c == '\\');
         c ++;
     }
 
@@ -1838,6 +1898,8 @@ canonicalize (int c, int flags)
 
         if (rjs_uchars_to_upper(&cin, 1, &cout, 1, "") > 1)
             r = c;
+        else if ((c >= 128) && (cout < 128))
+            r = c;
         else
             r = cout;
     } else {
@@ -1847,6 +1909,33 @@ canonicalize (int c, int flags)
     return r;
 }
 
+/*Get the characters which are equal to the character when the case is ignored.*/
+static int
+get_case_variants (int c, int flags, int *vars)
+{
+    int n = 0;
+
+    vars[n ++] = c;
+
+    if (flags & RJS_REGEXP_FL_I) {
+        int buf[RJS_UCHAR_CASE_VARIANT_MAX];
+        int canon = canonicalize(c, flags);
+        int cnt   = rjs_uchar_case_variants(c, buf);
+        int i;
+
+        for (i = 0; i < cnt; i ++) {
+            if ((buf[i] == c) || (canonicalize(buf[i], flags) != canon))
+                continue;
+            if (!(flags & RJS_REGEXP_FL_U) && (buf[i] > 0xffff))
+                continue;
+
+            vars[n ++] = buf[i];
+        }
+    }
+
+    return n;
+}
+
 /*Get the last index.*/
 static RJS_Result
 get_last_index (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
@@ -1961,9 +2050,19 @@ regexp_adv_str_index (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, size_t index, RJS_B
 
 /*Check if the character is a word.*/
 static RJS_Bool
-is_word (int c)
+is_word (int c, int flags)
 {
-    return rjs_uchar_is_alnum(c) || (c == '_');
+    if (rjs_uchar_is_alnum(c) || (c == '_'))
+        return RJS_TRUE;
+
+    /*Characters whose simple case folding is a word character.*/
+    if ((flags & RJS_REGEXP_FL_I) && (flags & RJS_REGEXP_FL_U) && (c > 127)) {
+        int v = canonicalize(c, flags);
+
+        return (v < 128) && rjs_uchar_is_alnum(v);
+    }
+
+    return RJS_FALSE;
 }
 
 /*Match the alternative.*/
@@ -2084,7 +2183,7 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_w:
-        r = is_word(c);
+        r = is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_S:
         r = !rjs_uchar_is_white_space(c);
@@ -2093,18 +2192,28 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = !rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_W:
-        r = !is_word(c);
+        r = !is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_NORMAL:
         r = canonicalize(c, flags) == canonicalize(d->c, flags);
         break;
 #if ENABLE_UNICODE_PROPERTY
     case RJS_REGEXP_CHAR_p:
-        r = unicode_property_match(d->p.prop, d->p.value, canonicalize(c, flags));
-        break;
-    case RJS_REGEXP_CHAR_P:
-        r = !unicode_property_match(d->p.prop, d->p.value, canonicalize(c, flags));
+    case RJS_REGEXP_CHAR_P: {
+        int      vars[RJS_UCHAR_CASE_VARIANT_MAX + 1];
+        int      n   = get_case_variants(c, flags, vars);
+        RJS_Bool neg = (t == RJS_REGEXP_CHAR_P);
+        int      i;
+
+        r = RJS_FALSE;
+
+        for (i = 0; (i < n) && !r; i ++) {
+            RJS_Bool m = unicode_property_match(d->p.prop, d->p.value, vars[i]) ? RJS_TRUE : RJS_FALSE;
+
+            r = (m != neg);
+        }
         break;
+    }
 #endif /*ENABLE_UNICODE_PROPERTY*/
     default:
         assert(0);
@@ -2124,11 +2233,19 @@ match_class_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpClassAtom *at
     if (atom->type != -1) {
         r = match_char(rt, atom->type, &atom->a.c, c, ctxt->flags);
     } else {
-        int min = canonicalize(atom->a.range.min, ctxt->flags);
-        int max = canonicalize(atom->a.range.max, ctxt->flags);
-        int v   = canonicalize(c, ctxt->flags);
+        int min = atom->a.range.min;
+        int max = atom->a.range.max;
+
+        r = (c >= min) && (c <= max);
+
+        if (!r && (ctxt->flags & RJS_REGEXP_FL_I)) {
+            int vars[RJS_UCHAR_CASE_VARIANT_MAX + 1];
+            int n = get_case_variants(c, ctxt->flags, vars);
+            int i;
 
-        r = (v >= min) && (v <= max);
+            for (i = 1; (i < n) && !r; i ++)
+                r = (vars[i] >= min) && (vars[i] <= max);
+        }
     }
 
     return r;
@@ -2309,6 +2426,22 @@ match_back_ref (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, int id)
         c1 = rjs_string_get_uchar(rt, &ctxt->str, p1);
         c2 = rjs_string_get_uchar(rt, &ctxt->str, p2);
 
+        if ((ctxt->flags & RJS_REGEXP_FL_U)
+                && (i + 1 < len)
+                && rjs_uchar_is_leading_surrogate(c1)
+                && rjs_uchar_is_leading_surrogate(c2)) {
+            int t1 = rjs_string_get_uchar(rt, &ctxt->str, p1 + 1);
+            int t2 = rjs_string_get_uchar(rt, &ctxt->str, p2 + 1);
+
+            if (rjs_uchar_is_trailing_surrogate(t1) && rjs_uchar_is_trailing_surrogate(t2)) {
+                c1 = rjs_surrogate_pair_to_uc(c1, t1);
+                c2 = rjs_surrogate_pair_to_uc(c2, t2);
+                p1 ++;
+                p2 ++;
+                i ++;
+            }
+        }
+
         if (canonicalize(c1, ctxt->flags) != canonicalize(c2, ctxt->flags)) {
             r = RJS_FALSE;
             goto end;
@@ -2385,14 +2518,14 @@ match_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpTerm *term)
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) == is_word(nc))
+        if (is_word(c, ctxt->flags) == is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_B:
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) != is_word(nc))
+        if (is_word(c, ctxt->flags) != is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_BR_ID:
@@ -2521,13 +2654,12 @@ match_term (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpPattern *pat, RJS_R
     if ((term->min == 0) && (term->max == 0))
         return RJS_REGEXP_NEXT;
 
-    if (cnt > term->min) {
-        if ((term->max != -1) && (cnt > term->max))
-            return RJS_REGEXP_NEXT;
+    /*An optional iteration must not match the empty string.*/
+    if ((cnt - 1 > term->min) && (pos == ctxt->pos))
+        return RJS_REGEXP_REJECT;
 
-        if ((cnt > 1) && (pos == ctxt->pos))
-            return RJS_REGEXP_NEXT;
-    }
+    if ((cnt > term->min) && (term->max != -1) && (cnt > term->max))
+        return RJS_REGEXP_NEXT;
 
     if (cnt <= term->min) {
         size_t         jid;
@@ -2943,6 +3075,7 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
 
         if ((start == -1) || (end == -1)) {
             rjs_value_set_undefined(rt, sub);
+            rjs_create_data_property_or_throw_index(rt, rv, i, sub);
 
             if (has_indices)
                 rjs_value_set_undefined(rt, indice);
@@ -2984,17 +3117,21 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
     if (has_group) {
         int i;
 
-        for (i = 0; i < ctxt.model->name_num; i ++) {
+        for (i = 1; i < ctxt.model->group_num; i ++) {
             RJS_PropertyName gn_pn;
             RJS_Value       *v;
+            int              gn = ctxt.model->group_names[i];
+
+            if (gn == -1)
+                continue;
 
-            rjs_property_name_init(rt, &gn_pn, &ctxt.model->names[i]);
+            rjs_property_name_init(rt, &gn_pn, &ctxt.model->names[gn]);
 
-            v = rjs_value_buffer_item(rt, gitems, i);
+            v = rjs_value_buffer_item(rt, gitems, gn);
             rjs_create_data_property_or_throw(rt, groups, &gn_pn, v);
 
             if (has_indices) {
-                v = rjs_value_buffer_item(rt, igitems, i);
+                v = rjs_value_buffer_item(rt, igitems, gn);
                 rjs_create_data_property_or_throw(rt, igroups, &gn_pn, v);
             }
 
diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 6b75315..c29dc09 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -423,7 +423,9 @@ replace_func (RJS_Runtime *rt, RJS_Value *s, RJS_Value *fn, RJS_Value *mstr, siz
         arg = rjs_value_buffer_item(rt, args, aid);
         aid ++;
 
-        if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
+        if (rjs_value_is_undefined(rt, cap))
+            rjs_value_set_undefined(rt, arg);
+        else if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
             goto end;
     }
 
diff --git a/src/lib/rjs_uchar_icu_opt.c b/src/lib/rjs_uchar_icu_opt.c
index 5150551..79f8c98 100644
--- a/src/lib/rjs_uchar_icu_opt.c
+++ b/src/lib/rjs_uchar_icu_opt.c
@@ -24,6 +24,7 @@
  *****************************************************************************/
 
 #include "ratjs_internal.h"
+#include <unicode/uset.h>
 
 /**
  * Check if the unicode character is a white space.
@@ -103,6 +104,35 @@ rjs_uchar_fold_case (int c)
     return u_foldCase(c, U_FOLD_CASE_DEFAULT);
 }
 
+/**
+ * Get the characters which differ from the character only in case.
+ * \param c The input character.
+ * \param[out] vars The buffer to store the characters.
+ * \return The number of the characters.
+ */
+int
+rjs_uchar_case_variants (int c, int *vars)
+{
+    USet *set;
+    int   i, n, cnt = 0;
+
+    if (!u_hasBinaryProperty(c, UCHAR_CASE_SENSITIVE))
+        return 0;
+
+    set = uset_openEmpty();
+    uset_add(set, c);
+    uset_closeOver(set, USET_CASE_INSENSITIVE);
+    uset_removeAllStrings(set);
+
+    n = uset_size(set);
+    for (i = 0; (i < n) && (cnt < RJS_UCHAR_CASE_VARIANT_MAX); i ++)
+        vars[cnt ++] = uset_charAt(set, i);
+
+    uset_close(set);
+
+    return cnt;
+}
+
 /**
  * Convert the characters to uppercase if a is a lowecase character.
  * \param s Input characters.
-- 
2.43.0


From 5978d3ec79a1d8e0bf4518e0cffe3e5b37ef2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:49 +0000
Subject: [PATCH 89/90] fix: an illegal arrow function parameter aborts the
 parser, huge exponents and quantifiers overflow

---
 src/lib/rjs_dtoa.c   |  6 ++++--
 src/lib/rjs_parser.c |  3 ++-
 src/lib/rjs_regexp.c | 13 +++++++++----
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_dtoa.c b/src/lib/rjs_dtoa.c
index 04963e4..be11225 100644
--- a/src/lib/rjs_dtoa.c
+++ b/src/lib/rjs_dtoa.c
@@ -3657,8 +3657,10 @@ rjs_strtod(const char *s00, char **se)
 			if (c > '0' && c <= '9') {
 				L = c - '0';
 				s1 = s;
-				while((c = *++s) >= '0' && c <= '9')
-					L = 10*L + c - '0';
+				while((c = *++s) >= '0' && c <= '9') {
+					if (L <= 19999)
+						L = 10*L + c - '0';
+				}
 				if (s - s1 > 8 || L > 19999)
 					/* Avoid confusion from exponents
 					 * so large that e might overflow.
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index fbff97f..be122f0 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -1163,7 +1163,8 @@ binding_param (RJS_Runtime *rt, RJS_Value *v, ParamAttr *pa)
         break;
     }
     default:
-        assert(0);
+        parse_error(rt, &ast->location, _("expect a binding element here"));
+        break;
     }
 }
 
diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 7553930..8ff93c0 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1101,8 +1101,11 @@ parse_regexp_number (RJS_Runtime *rt, RJS_RegExpParser *p, int64_t *pv)
             break;
         }
 
-        v *= 10;
-        v += c - '0';
+        /*Avoid overflow, no string is so long.*/
+        if (v < 100000000000000000LL) {
+            v *= 10;
+            v += c - '0';
+        }
     }
 
     *pv = v;
@@ -1319,8 +1322,10 @@ parse_term (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpAlter *alter)
                         break;
                     }
 
-                    v *= 10;
-                    v += c - '0';
+                    if (v < 100000000) {
+                        v *= 10;
+                        v += c - '0';
+                    }
                 }
 
                 term->type       = RJS_REGEXP_TERM_BR_ID;
-- 
2.43.0


From 366e8d94144d12d5ed0242af5fb54e4ca8755c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:40 +0000
Subject: [PATCH 90/90] fix: a private name in an object literal crashes the
 parser

---
 src/lib/rjs_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index be122f0..d673f92 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7918,6 +7918,9 @@ parse_class_element_name (RJS_Runtime *rt, RJS_Bool in_obj, RJS_Bool is_static,
         if (in_obj) {
             parse_error(rt, &tok->location, _("%s cannot be used in object literal"),
                     rjs_token_type_get_name(tok->type, tok->flags));
+
+            /*The caller uses the name to build the element.*/
+            value_expr_new(rt, vn, &tok->location, tok->value);
         } else {
             int priv_flags = 0;
 
-- 
2.43.0

