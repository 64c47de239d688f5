From 0035d6ebb357f778fb0da160cf0f830933f6a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 01/64] fix: copy resolved nextcase statements and switches
 inside of a defer

---
 src/compiler/compiler_internal.h |  1 +
 src/compiler/copying.c           | 33 ++++++++++++++++++++++++++++++--
 src/compiler/sema_stmts.c        |  5 +++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index 5cc4186..0607f82 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -1369,6 +1369,7 @@ typedef struct
 typedef struct
 {
 	AstId defer_id;
+	bool is_resolved;
 	union
 	{
 		struct
diff --git a/src/compiler/copying.c b/src/compiler/copying.c
index e9d2992..d0d2454 100644
--- a/src/compiler/copying.c
+++ b/src/compiler/copying.c
@@ -625,6 +625,29 @@ void doc_ast_copy(CopyStruct *c, AstContractStmt *doc)
 	}
 }
 
+/**
+ * Copy the cases of a switch. All cases are registered before any body is copied,
+ * since a resolved "nextcase" may refer to a later case.
+ */
+static Ast **copy_switch_cases(CopyStruct *c, Ast **cases)
+{
+	Ast **result = NULL;
+	FOREACH(Ast *, case_ast, cases)
+	{
+		Ast *copy = ast_copy(case_ast);
+		copy_reg_ref(c, case_ast, copy);
+		vec_add(result, copy);
+	}
+	FOREACH(Ast *, copy, result)
+	{
+		MACRO_COPY_AST(copy->case_stmt.body);
+		if (copy->ast_kind == AST_DEFAULT_STMT) continue;
+		MACRO_COPY_EXPRID(copy->case_stmt.expr);
+		MACRO_COPY_EXPRID(copy->case_stmt.to_expr);
+	}
+	return result;
+}
+
 Ast *ast_copy_deep(CopyStruct *c, Ast *source)
 {
 	if (!source) return NULL;
@@ -688,7 +711,6 @@ RETRY:
 			}
 			break;
 		case AST_CASE_STMT:
-			copy_reg_ref(c, source, ast);
 			MACRO_COPY_AST(ast->case_stmt.body);
 			MACRO_COPY_EXPRID(ast->case_stmt.expr);
 			MACRO_COPY_EXPRID(ast->case_stmt.to_expr);
@@ -763,6 +785,13 @@ RETRY:
 			MACRO_COPY_ASTID(ast->if_stmt.then_body);
 			break;
 		case AST_NEXTCASE_STMT:
+			if (ast->nextcase_stmt.is_resolved)
+			{
+				fixup_astid(c, &ast->nextcase_stmt.case_switch_stmt);
+				MACRO_COPY_ASTID(ast->nextcase_stmt.defer_id);
+				MACRO_COPY_EXPR(ast->nextcase_stmt.switch_expr);
+				break;
+			}
 			MACRO_COPY_EXPRID(ast->nextcase_stmt.expr);
 			break;
 		case AST_NOP_STMT:
@@ -779,7 +808,7 @@ RETRY:
 			SCOPE_FIXUP_START
 				copy_flow(c, ast);
 				MACRO_COPY_EXPRID(ast->switch_stmt.cond);
-				MACRO_COPY_AST_LIST(ast->switch_stmt.cases);
+				ast->switch_stmt.cases = copy_switch_cases(c, ast->switch_stmt.cases);
 			SCOPE_FIXUP_END;
 			break;
 	}
diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 0f66871..3bbe65f 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -1994,6 +1994,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 		}
 		if (!default_ast) RETURN_SEMA_ERROR(statement, "There is no 'default' in the switch to jump to.");
 		statement->nextcase_stmt.defer_id = context_get_defers(context, context->active_scope.defer_last, parent->switch_stmt.defer, true);
+		statement->nextcase_stmt.is_resolved = true;
 		statement->nextcase_stmt.case_switch_stmt = astid(default_ast);
 		statement->nextcase_stmt.switch_expr = NULL;
 		return true;
@@ -2005,6 +2006,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 	{
 		ASSERT(context->next_target);
 		statement->nextcase_stmt.defer_id = context_get_defers(context, context->active_scope.defer_last, parent->switch_stmt.defer, true);
+		statement->nextcase_stmt.is_resolved = true;
 		statement->nextcase_stmt.case_switch_stmt = astid(context->next_target);
 		return true;
 	}
@@ -2034,6 +2036,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 			Expr *expr = exprptr(case_stmt->case_stmt.expr);
 			if (sema_cast_const(expr) && expr->const_expr.typeid == type)
 			{
+				statement->nextcase_stmt.is_resolved = true;
 				statement->nextcase_stmt.case_switch_stmt = astid(case_stmt);
 				return true;
 			}
@@ -2059,6 +2062,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 			ExprConst *to_const_expr = case_stmt->case_stmt.to_expr ? &exprptr(case_stmt->case_stmt.to_expr)->const_expr : const_expr;
 			if (expr_const_in_range(&value->const_expr, const_expr, to_const_expr))
 			{
+				statement->nextcase_stmt.is_resolved = true;
 				statement->nextcase_stmt.case_switch_stmt = astid(case_stmt);
 				return true;
 			}
@@ -2067,6 +2071,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 		return false;
 	}
 VARIABLE_JUMP:
+	statement->nextcase_stmt.is_resolved = true;
 	statement->nextcase_stmt.case_switch_stmt = astid(parent);
 	statement->nextcase_stmt.switch_expr = value;
 	return true;
-- 
2.43.0


From 81eceff77ced954ec8fa14446ebc339a3240194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 02/64] fix: keep the fault of a discarded macro return for
 defer catch

---
 src/compiler/compiler_internal.h | 1 +
 src/compiler/llvm_codegen_stmt.c | 8 +++++++-
 src/compiler/sema_stmts.c        | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index 0607f82..288e1fd 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -1212,6 +1212,7 @@ typedef struct
 	AstId cleanup;
 	AstId cleanup_fail;
 	BlockExit** block_exit_ref; // For block exits
+	bool cleanup_fail_uses_fault; // A "defer (catch err)" may read the fault
 } AstReturnStmt;
 
 typedef struct
diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 1ba7052..8ba45f7 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -310,6 +310,7 @@ static inline void llvm_emit_block_exit_return(GenContext *c, Ast *ast)
 	PUSH_CATCH_VAR_BLOCK(exit->block_error_var, exit->block_optional_exit);
 
 	LLVMBasicBlockRef err_cleanup_block = NULL;
+	LLVMValueRef err_cleanup_var = exit->block_error_var;
 	Expr *ret_expr = ast->return_stmt.expr;
 
 	BEValue return_value = { 0 };
@@ -320,6 +321,11 @@ static inline void llvm_emit_block_exit_return(GenContext *c, Ast *ast)
 			ASSERT(c->catch.block);
 			err_cleanup_block = llvm_basic_block_new(c, "opt_block_cleanup");
 			c->catch.block = err_cleanup_block;
+			// The block may discard the fault, but a "defer (catch err)" still needs it.
+			if (!err_cleanup_var && ast->return_stmt.cleanup_fail_uses_fault)
+			{
+				c->catch.fault = err_cleanup_var = llvm_emit_alloca_aligned(c, type_fault, "reterr");
+			}
 		}
 		llvm_emit_expr(c, &return_value, ast->return_stmt.expr);
 		llvm_value_fold_optional(c, &return_value);
@@ -340,7 +346,7 @@ static inline void llvm_emit_block_exit_return(GenContext *c, Ast *ast)
 	{
 		llvm_emit_br(c, exit->block_return_exit);
 		llvm_emit_block(c, err_cleanup_block);
-		PUSH_DEFER_ERROR(exit->block_error_var);
+		PUSH_DEFER_ERROR(err_cleanup_var);
 		llvm_emit_statement_chain(c, err_cleanup);
 		POP_DEFER_ERROR();
 		llvm_emit_jmp(c, exit->block_optional_exit);
diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 3bbe65f..d9e4838 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -426,6 +426,7 @@ static inline void sema_inline_return_defers(SemaContext *context, Ast *stmt, As
 		&& sema_defer_has_try_or_catch(context->active_scope.defer_last, context->block_return_defer))
 	{
 		stmt->return_stmt.cleanup_fail = context_get_defers(context, context->active_scope.defer_last, context->block_return_defer, false);
+		stmt->return_stmt.cleanup_fail_uses_fault = true;
 		return;
 	}
 	// Otherwise we make the cleanup fail be the same as the cleanup.
-- 
2.43.0


From 61553c052be1b4ae06059f65ebd206762a143668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 03/64] fix: a labelled break out of an if continues after the
 if

---
 src/compiler/sema_stmts.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index d9e4838..b3d9ef5 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -1767,6 +1767,7 @@ static inline bool sema_analyse_if_stmt(SemaContext *context, Ast *statement)
 
 	bool else_jump;
 	bool then_jump;
+	bool then_break = false;
 	bool success;
 
 	Expr *cond = exprptr(statement->if_stmt.cond);
@@ -1817,6 +1818,8 @@ static inline bool sema_analyse_if_stmt(SemaContext *context, Ast *statement)
 			if (result == COND_FALSE) context->active_scope.is_dead = true;
 			success = success && sema_analyse_statement(context, then);
 			then_jump = context->active_scope.jump_end;
+			// A labelled break leaves the "then" but continues after the "if".
+			then_break = statement->flow.has_break;
 		SCOPE_END;
 
 		if (!success) goto END;
@@ -1837,11 +1840,12 @@ END:
 
 	SCOPE_OUTER_END;
 	if (!success) return false;
-	if (then_jump)
+	if (then_jump && !then_break)
 	{
 		sema_unwrappable_from_catch_in_else(context, cond);
 	}
-	if (then_jump && else_jump && !statement->flow.has_break)
+	if (statement->flow.has_break) return true;
+	if (then_jump && else_jump)
 	{
 		context->active_scope.jump_end = true;
 	}
-- 
2.43.0


From 1eb493122ccd2b48d600ecb96550b88aa379bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 04/64] fix: keep the condition block of a do-while while it is
 being emitted

---
 src/compiler/llvm_codegen_function.c      | 2 ++
 src/compiler/llvm_codegen_internal.h      | 2 ++
 src/compiler/llvm_codegen_internal_impl.h | 2 +-
 src/compiler/llvm_codegen_stmt.c          | 3 +++
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_function.c b/src/compiler/llvm_codegen_function.c
index f79b20f..19b777e 100644
--- a/src/compiler/llvm_codegen_function.c
+++ b/src/compiler/llvm_codegen_function.c
@@ -46,6 +46,7 @@ bool llvm_emit_check_block_branch(GenContext *c)
 	// Consequently, we will delete those and realize that
 	// we then have no need for emitting a br.
 	if (c->current_block != c->first_block
+		&& c->current_block != c->do_while_block
 		&& !LLVMGetFirstUse(LLVMBasicBlockAsValue(c->current_block)))
 	{
 		LLVMDeleteBasicBlock(c->current_block);
@@ -459,6 +460,7 @@ void llvm_emit_body(GenContext *c, LLVMValueRef function, FunctionPrototype *pro
 	c->cur_func.prototype = prototype;
 	c->builder = llvm_create_function_entry(c, function, &c->current_block);
 	c->first_block = c->current_block;
+	c->do_while_block = NULL;
 
 	LLVMValueRef alloca_point = LLVMBuildAlloca(c->builder, LLVMInt32TypeInContext(c->context), "alloca_point");
 	c->alloca_point = alloca_point;
diff --git a/src/compiler/llvm_codegen_internal.h b/src/compiler/llvm_codegen_internal.h
index d655999..6435440 100644
--- a/src/compiler/llvm_codegen_internal.h
+++ b/src/compiler/llvm_codegen_internal.h
@@ -131,6 +131,8 @@ typedef struct GenContext_
 		BEValue retval;
 		// The entry block in the function
 		LLVMBasicBlockRef first_block;
+		// The condition of a do-while, it is used but its branch is not emitted yet.
+		LLVMBasicBlockRef do_while_block;
 		// The last emitted location.
 		SourceSpan last_emitted_loc;
 		// Last emitted location metadata
diff --git a/src/compiler/llvm_codegen_internal_impl.h b/src/compiler/llvm_codegen_internal_impl.h
index 958b381..5036c0d 100644
--- a/src/compiler/llvm_codegen_internal_impl.h
+++ b/src/compiler/llvm_codegen_internal_impl.h
@@ -188,7 +188,7 @@ static inline bool llvm_delete_current_if_unused(GenContext *c)
 static inline LLVMBasicBlockRef llvm_get_current_block_if_in_use(GenContext *c)
 {
 	LLVMBasicBlockRef block = c->current_block;
-	if (block && llvm_basic_block_is_unused(block))
+	if (block && block != c->do_while_block && llvm_basic_block_is_unused(block))
 	{
 		LLVMDeleteBasicBlock(block);
 		return c->current_block = NULL;
diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 8ba45f7..b0e735c 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -585,6 +585,8 @@ void llvm_emit_for_stmt(GenContext *c, Ast *ast)
 
 		// Emit the block
 		llvm_emit_block(c, cond_block);
+		LLVMBasicBlockRef old_do_while_block = c->do_while_block;
+		if (skip_first) c->do_while_block = cond_block;
 		BEValue be_value;
 		ASSERT(cond);
 		if (cond->expr_kind == EXPR_COND)
@@ -597,6 +599,7 @@ void llvm_emit_for_stmt(GenContext *c, Ast *ast)
 		}
 		llvm_value_rvalue(c, &be_value);
 		ASSERT(llvm_value_is_bool(&be_value));
+		c->do_while_block = old_do_while_block;
 
 		// If we have a body, conditionally jump to it.
 		LLVMBasicBlockRef cond_success = body_block ? body_block : inc_block;
-- 
2.43.0


From 150b82ece71d37895ecd9fa2d094a1c022ee02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 05/64] fix: jump tables over wide or overflowing signed ranges

---
 src/compiler/llvm_codegen_stmt.c | 22 ++++++++++++++--------
 src/compiler/sema_stmts.c        |  3 ++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index b0e735c..3f5e5e3 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -787,6 +787,8 @@ static LLVMValueRef llvm_emit_switch_jump_stmt(GenContext *c,
 	llvm_emit_block(c, switch_block);
 	AlignSize align;
 	LLVMTypeRef type = LLVMArrayType(c->ptr_type, count);
+	// The offset is unsigned, and for 'ichar' it might not fit the signed type.
+	if (switch_value->type == type_ichar) switch_value->type = type_char;
 	LLVMValueRef index = llvm_emit_array_gep_raw_index(c, jump_table, type, switch_value, llvm_abi_alignment(c, type), &align);
 	LLVMValueRef addr = llvm_load(c, c->ptr_type, index, align, "target");
 	LLVMValueRef instr = LLVMBuildIndirectBr(c->builder, addr, case_count);
@@ -821,6 +823,13 @@ static void llvm_set_jump_table_values(ExprId from, ExprId to, Int *from_ref, In
 	}
 
 }
+static inline uint64_t llvm_jump_table_offset(Int value, Int min)
+{
+	Int offset = int_sub(value, min);
+	// The offset is unsigned, and for 'ichar' it might not fit the signed type.
+	return offset.type == TYPE_I8 ? (offset.i.low & 0xFF) : offset.i.low;
+}
+
 static void llvm_emit_switch_jump_table(GenContext *c,
 										Ast *switch_ast,
 										Ast **cases,
@@ -865,10 +874,9 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 	}
 	switch_ast->switch_stmt.codegen.jump.default_index = default_index;
 	switch_ast->switch_stmt.codegen.jump.min_index = min_index;
-	max = int_sub(max, min);
-	ASSERT(max.i.low <= 0xFFFF);
-	uint64_t count = switch_ast->switch_stmt.codegen.jump.count = max.i.low + 1;
-	ASSERT(!max.i.high && "Should never exceed 64 bytes");
+	uint64_t max_offset = llvm_jump_table_offset(max, min);
+	ASSERT(max_offset <= 0xFFFF);
+	uint64_t count = switch_ast->switch_stmt.codegen.jump.count = max_offset + 1;
 
 	Type *goto_array_type = type_get_array(type_voidptr, count);
 	LLVMTypeRef llvm_array_type = llvm_get_type(c, goto_array_type);
@@ -900,10 +908,8 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		{
 			Int value, to_value;
 			llvm_set_jump_table_values(case_stmt->case_stmt.expr, case_stmt->case_stmt.to_expr, &value, &to_value);
-			value = int_sub(value, min);
-			to_value = int_sub(to_value, min);
-			uint64_t from_val = value.i.low;
-			uint64_t to_val = to_value.i.low;
+			uint64_t from_val = llvm_jump_table_offset(value, min);
+			uint64_t to_val = llvm_jump_table_offset(to_value, min);
 			for (uint64_t j = from_val; j <= to_val; j++)
 			{
 				refs[j] = LLVMBlockAddress(c->cur_func.ref, block);
diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index b3d9ef5..81e0609 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2431,7 +2431,8 @@ static bool sema_analyse_switch_body(SemaContext *context, Ast *statement, Sourc
 		{
 			Int range = int_sub(high, low);
 			Int max = { .i.low = compiler.build.switchjump_max_size, .type = range.type };
-			if (int_comp(range, max, BINARYOP_GE))
+			// A negative range is one that overflowed a signed type, only for 'ichar' it is still small enough.
+			if (int_is_neg(range) ? range.type != TYPE_I8 : int_comp(range, max, BINARYOP_GE))
 			{
 				RETURN_SEMA_ERROR(statement, "The switch cannot use a jump table size of the table would exceed "
 				                             "the maximum allowed (%u), please remove '@jump'.", compiler.build.switchjump_max_size);
-- 
2.43.0


From e89fefa106ac7c9571e9683a6e25ab9cf82d8b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 06/64] fix: empty default and trailing empty cases in switches

---
 src/compiler/llvm_codegen_stmt.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 3f5e5e3..d184aa9 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -744,7 +744,12 @@ static void llvm_emit_switch_body_if_chain(GenContext *c,
 		}
 		llvm_emit_block(c, next);
 	}
-	if (default_case && default_case->case_stmt.body)
+	if (default_case && !default_case->case_stmt.body)
+	{
+		// An empty default falls through to the next case with a body.
+		llvm_emit_br(c, default_case->case_stmt.backend_block);
+	}
+	else if (default_case)
 	{
 		llvm_emit_br(c, default_case->case_stmt.backend_block);
 		llvm_emit_block(c, default_case->case_stmt.backend_block);
@@ -849,7 +854,7 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		Ast *case_ast = cases[i];
 		if (case_ast->ast_kind == AST_DEFAULT_STMT)
 		{
-			if (!case_ast->case_stmt.body) continue;
+			// An empty default falls through to the next case with a body.
 			default_block = case_ast->case_stmt.backend_block;
 			default_index = i;
 			continue;
@@ -900,6 +905,7 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 	LLVMValueRef default_block_address = LLVMBlockAddress(c->cur_func.ref, default_block);
 	ASSERT(count < DEFAULT_SWITCH_JUMP_MAX_SIZE + 1);
 	memset(refs, 0, sizeof(LLVMValueRef) * count);
+	bool exit_added = false;
 	for (unsigned i = 0; i < case_count; i++)
 	{
 		Ast *case_stmt = cases[i];
@@ -915,7 +921,16 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 				refs[j] = LLVMBlockAddress(c->cur_func.ref, block);
 			}
 			// No fallthrough
-			if (!case_stmt->case_stmt.body) continue;
+			if (!case_stmt->case_stmt.body)
+			{
+				// Trailing empty cases leave the switch.
+				if (block == exit_block && !exit_added)
+				{
+					exit_added = true;
+					LLVMAddDestination(instr, exit_block);
+				}
+				continue;
+			}
 			LLVMAddDestination(instr, block);
 		}
 		if (!case_stmt->case_stmt.body) continue;
@@ -1151,12 +1166,17 @@ void gencontext_emit_next_stmt(GenContext *context, Ast *ast)
 														? exit_block
 		                                                : cases[default_index]->case_stmt.backend_block,
 		                                                &be_value);
+		bool may_exit = default_index < 0;
 		FOREACH(Ast *, case_ast, cases)
 		{
-			if (!case_ast->case_stmt.body) continue;
+			if (!case_ast->case_stmt.body)
+			{
+				if (case_ast->case_stmt.backend_block == exit_block) may_exit = true;
+				continue;
+			}
 			LLVMAddDestination(instr, case_ast->case_stmt.backend_block);
 		}
-		if (default_index < 0) LLVMAddDestination(instr, exit_block);
+		if (may_exit) LLVMAddDestination(instr, exit_block);
 
 		return;
 	}
-- 
2.43.0


From 2e052c32988ee0a906152841939bcd89cb67b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 07/64] fix: copy the defers of a rethrow inside of a defer

---
 src/compiler/copying.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/copying.c b/src/compiler/copying.c
index d0d2454..06c0fc9 100644
--- a/src/compiler/copying.c
+++ b/src/compiler/copying.c
@@ -528,6 +528,7 @@ Expr *copy_expr(CopyStruct *c, Expr *source_expr)
 			return source_expr;
 		case EXPR_RETHROW:
 			MACRO_COPY_EXPR(expr->rethrow_expr.inner);
+			MACRO_COPY_ASTID(expr->rethrow_expr.cleanup);
 			return expr;
 		case EXPR_CONST:
 			return copy_const_expr(c, expr);
-- 
2.43.0


From 0fd060c7e01db2bd51d3b9dce331cd2cdf64d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 08/64] fix: add the default as a jump destination of empty
 cases

---
 src/compiler/llvm_codegen_stmt.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index d184aa9..bb9d03d 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -906,6 +906,7 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 	ASSERT(count < DEFAULT_SWITCH_JUMP_MAX_SIZE + 1);
 	memset(refs, 0, sizeof(LLVMValueRef) * count);
 	bool exit_added = false;
+	bool found = false;
 	for (unsigned i = 0; i < case_count; i++)
 	{
 		Ast *case_stmt = cases[i];
@@ -923,11 +924,12 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 			// No fallthrough
 			if (!case_stmt->case_stmt.body)
 			{
-				// Trailing empty cases leave the switch.
-				if (block == exit_block && !exit_added)
+				// Empty cases may fall through to the default, and if trailing, leave the switch.
+				bool *added = block == default_block ? &found : (block == exit_block ? &exit_added : NULL);
+				if (added && !*added)
 				{
-					exit_added = true;
-					LLVMAddDestination(instr, exit_block);
+					*added = true;
+					LLVMAddDestination(instr, block);
 				}
 				continue;
 			}
@@ -939,7 +941,6 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		llvm_emit_br(c, exit_block);
 	}
 
-	bool found = false;
 	for (uint64_t i = 0; i < count; i++)
 	{
 		if (refs[i]) continue;
-- 
2.43.0


From 492e617256c42a02da857a77acafec47104a9548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 09/64] fix: AnyList operations that did not compile, leaked,
 freed the returned element or passed the wrong element to the test

---
 lib/std/collections/anylist.c3 | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/lib/std/collections/anylist.c3 b/lib/std/collections/anylist.c3
index e929e07..3751431 100644
--- a/lib/std/collections/anylist.c3
+++ b/lib/std/collections/anylist.c3
@@ -167,8 +167,10 @@ macro AnyList.pop_first(&self, $Type)
 fn any? AnyList.pop_first_retained(&self)
 {
 	if (!self.size) return NO_MORE_ELEMENT?;
-	defer self.remove_at(0);
-	return self.entries[0];
+	any element = self.entries[0];
+	self.size--;
+	self.entries[:self.size] = self.entries[1:self.size];
+	return element;
 }
 
 
@@ -182,7 +184,6 @@ fn any? AnyList.pop_first_retained(&self)
 fn any? AnyList.copy_pop_first(&self, Allocator allocator)
 {
 	if (!self.size) return NO_MORE_ELEMENT?;
-	defer self.free_element(self.entries[self.size]);
 	defer self.remove_at(0);
 	return allocator::clone_any(allocator, self.entries[0]);
 }
@@ -203,8 +204,8 @@ fn any? AnyList.tcopy_pop_first(&self) => self.copy_pop_first(tmem);
 *>
 fn void AnyList.remove_at(&self, usz index)
 {
-	if (!--self.size || index == self.size) return;
 	self.free_element(self.entries[index]);
+	if (!--self.size || index == self.size) return;
 	self.entries[index .. self.size - 1] = self.entries[index + 1 .. self.size];
 }
 
@@ -216,7 +217,7 @@ fn void AnyList.remove_at(&self, usz index)
 fn void AnyList.add_all(&self, AnyList* other_list)
 {
 	if (!other_list.size) return;
-	self.reserve(other_list.size);
+	self.reserve(self.size + other_list.size);
 	foreach (value : other_list)
 	{
 		self.entries[self.size++] = allocator::clone_any(self.allocator, value);
@@ -271,8 +272,8 @@ macro void AnyList.insert_at(&self, usz index, type)
 		self.push(type);
 		return;
 	}
-	any value = allocator::copy(self.allocator, type);
-	self._insert_at(self, index, value);
+	any value = allocator::clone(self.allocator, type);
+	self._insert_at(index, value);
 }
 
 <*
@@ -515,7 +516,7 @@ macro void AnyList.set(&self, usz index, value)
 		return;
 	}
 	self.free_element(self.entries[index]);
-	self.entries[index] = allocator::copy(self.allocator, value);
+	self.entries[index] = allocator::clone(self.allocator, value);
 }
 
 // -- private
@@ -558,9 +559,9 @@ macro usz AnyList._remove_using_test(&self, AnyTest filter, bool $invert, ctx) @
 	{
 		// Find last index of item to be deleted.
 		$if $invert:
-			while (i > 0 && !filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && !filter(self.entries[i - 1], ctx)) i--;
 		$else
-			while (i > 0 && filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && filter(self.entries[i - 1], ctx)) i--;
 		$endif
 		// Remove the items from this index up to the one not to be deleted.
 		usz n = self.size - k;
@@ -569,9 +570,9 @@ macro usz AnyList._remove_using_test(&self, AnyTest filter, bool $invert, ctx) @
 		self.size -= k - i;
 		// Find last index of item not to be deleted.
 		$if $invert:
-			while (i > 0 && filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && filter(self.entries[i - 1], ctx)) i--;
 		$else
-			while (i > 0 && !filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && !filter(self.entries[i - 1], ctx)) i--;
 		$endif
 	}
 	return size - self.size;
@@ -584,9 +585,9 @@ macro usz AnyList._remove_if(&self, AnyPredicate filter, bool $invert) @local
 	{
 		// Find last index of item to be deleted.
 		$if $invert:
-			while (i > 0 && !filter(&self.entries[i - 1])) i--;
+			while (i > 0 && !filter(self.entries[i - 1])) i--;
 		$else
-			while (i > 0 && filter(&self.entries[i - 1])) i--;
+			while (i > 0 && filter(self.entries[i - 1])) i--;
 		$endif
 		// Remove the items from this index up to the one not to be deleted.
 		usz n = self.size - k;
@@ -595,9 +596,9 @@ macro usz AnyList._remove_if(&self, AnyPredicate filter, bool $invert) @local
 		self.size -= k - i;
 		// Find last index of item not to be deleted.
 		$if $invert:
-			while (i > 0 && filter(&self.entries[i - 1])) i--;
+			while (i > 0 && filter(self.entries[i - 1])) i--;
 		$else
-			while (i > 0 && !filter(&self.entries[i - 1])) i--;
+			while (i > 0 && !filter(self.entries[i - 1])) i--;
 		$endif
 	}
 	return size - self.size;
-- 
2.43.0


From f9e69fe16d619e7d1fccee7f2a4960bbe792b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:28 +0000
Subject: [PATCH 10/64] fix: ElasticArray.push_front_try returns its fault when
 full

---
 lib/std/collections/elastic_array.c3 | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/std/collections/elastic_array.c3 b/lib/std/collections/elastic_array.c3
index 297dd04..6506ead 100644
--- a/lib/std/collections/elastic_array.c3
+++ b/lib/std/collections/elastic_array.c3
@@ -196,9 +196,6 @@ fn void ElasticArray.push_front(&self, Type type) @inline
 	self.insert_at(0, type);
 }
 
-<*
- @require self.size < MAX_SIZE : `List would exceed max size`
-*>
 fn void? ElasticArray.push_front_try(&self, Type type) @inline
 {
 	return self.insert_at_try(0, type);
-- 
2.43.0


From c5b6e13ff70b81fc72bc2f66bbfdbdacffd7549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:28 +0000
Subject: [PATCH 11/64] fix: RingBuffer pop and read when the buffer has
 wrapped around

---
 lib/std/collections/ringbuffer.c3 | 67 ++++++-------------------------
 1 file changed, 13 insertions(+), 54 deletions(-)

diff --git a/lib/std/collections/ringbuffer.c3 b/lib/std/collections/ringbuffer.c3
index 51c9bb5..9e72308 100644
--- a/lib/std/collections/ringbuffer.c3
+++ b/lib/std/collections/ringbuffer.c3
@@ -22,7 +22,7 @@ fn void RingBuffer.push(&self, Element c)
 {
 	if (self.written < self.buf.len)
 	{
-		self.buf[self.written] = c;
+		self.buf[(self.head + self.written) % self.buf.len] = c;
 		self.written++;
 	}
 	else
@@ -45,17 +45,9 @@ fn Element RingBuffer.get(&self, usz index) @operator([])
 
 fn Element? RingBuffer.pop(&self)
 {
-	switch
-	{
-		case self.written == 0:
-			return NO_MORE_ELEMENT?;
-		case self.written < self.buf.len:
-			self.written--;
-			return self.buf[self.written];
-		default:
-			self.head = (self.head - 1) % self.buf.len;
-			return self.buf[self.head];
-	}
+	if (self.written == 0) return NO_MORE_ELEMENT?;
+	self.written--;
+	return self.buf[(self.head + self.written) % self.buf.len];
 }
 
 fn usz? RingBuffer.to_format(&self, Formatter* format) @dynamic
@@ -67,49 +59,16 @@ fn usz? RingBuffer.to_format(&self, Formatter* format) @dynamic
 fn usz RingBuffer.read(&self, usz index, Element[] buffer)
 {
 	index %= self.buf.len;
-	if (self.written < self.buf.len)
-	{
-		if (index >= self.written) return 0;
-		usz end = self.written - index;
-		usz n = min(end, buffer.len);
-		buffer[:n] = self.buf[index:n];
-		return n;
-	}
-	usz end = self.buf.len - self.head;
-	if (index >= end)
-	{
-		index -= end;
-		if (index >= self.head) return 0;
-		usz n = min(self.head - index, buffer.len);
-		buffer[:n] = self.buf[index:n];
-		return n;
-	}
-	if (buffer.len <= self.buf.len - index)
-	{
-		usz n = buffer.len;
-		buffer[:n] = self.buf[self.head + index:n];
-		return n;
-	}
-	usz n1 = self.buf.len - index;
-	buffer[:n1] = self.buf[self.head + index:n1];
-	buffer = buffer[n1..];
-	index -= n1;
-	usz n2 = min(self.head - index, buffer.len);
-	buffer[:n2] = self.buf[index:n2];
-	return n1 + n2;
+	if (index >= self.written) return 0;
+	usz n = min(self.written - index, buffer.len);
+	usz start = (self.head + index) % self.buf.len;
+	usz n1 = min(n, self.buf.len - start);
+	buffer[:n1] = self.buf[start:n1];
+	buffer[n1:n - n1] = self.buf[:n - n1];
+	return n;
 }
 
 fn void RingBuffer.write(&self, Element[] buffer)
 {
-	usz i;
-	while (self.written < self.buf.len && i < buffer.len)
-	{
-		self.buf[self.written] = buffer[i++];
-		self.written++;
-	}
-	foreach (c : buffer[i..])
-	{
-		self.buf[self.head] = c;
-		self.head = (self.head + 1) % self.buf.len;
-	}
-}
\ No newline at end of file
+	foreach (c : buffer) self.push(c);
+}
-- 
2.43.0


From e67a5d83ba8e825b0dc85b9ff3c268bb502a84c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 12/64] fix: Object.set freed the new value instead of the
 replaced one

---
 lib/std/collections/object.c3 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/collections/object.c3 b/lib/std/collections/object.c3
index a3e610d..3169ad6 100644
--- a/lib/std/collections/object.c3
+++ b/lib/std/collections/object.c3
@@ -178,10 +178,10 @@ fn void Object.init_array_if_needed(&self) @private
 fn void Object.set_object(&self, String key, Object* new_object) @private
 {
 	self.init_map_if_needed();
-	ObjectInternalMapEntry*? entry = self.map.get_entry(key);
+	Object*? old_object = self.map.get(key);
 	defer
 	{
-		(void)entry.value.free();
+		(void)old_object.free();
 	}
 	self.map.set(key, new_object);
 }
-- 
2.43.0


From 729a930fa8c811d16f0dd7fbde1e0447f455b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 13/64] fix: HashMap.tinit_with_key_values called itself

---
 lib/std/collections/hashmap.c3 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/collections/hashmap.c3 b/lib/std/collections/hashmap.c3
index 4809e11..bb8b057 100644
--- a/lib/std/collections/hashmap.c3
+++ b/lib/std/collections/hashmap.c3
@@ -90,7 +90,7 @@ macro HashMap* HashMap.init_with_key_values(&self, Allocator allocator, ..., uin
 *>
 macro HashMap* HashMap.tinit_with_key_values(&self, ..., uint capacity = DEFAULT_INITIAL_CAPACITY, float load_factor = DEFAULT_LOAD_FACTOR)
 {
-	return self.tinit_with_key_values(tmem, capacity, load_factor);
+	return self.init_with_key_values(tmem, $vasplat, capacity: capacity, load_factor: load_factor);
 }
 
 <*
-- 
2.43.0


From db08d6bd423166735a2345ff488f38e64ea8251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 14/64] fix: PriorityQueue.remove_at keeps the heap order

---
 lib/std/collections/priorityqueue.c3 | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/std/collections/priorityqueue.c3 b/lib/std/collections/priorityqueue.c3
index 253a050..2d11367 100644
--- a/lib/std/collections/priorityqueue.c3
+++ b/lib/std/collections/priorityqueue.c3
@@ -72,12 +72,14 @@ fn void PrivatePriorityQueue.push(&self, Type element)
 *>
 fn void PrivatePriorityQueue.remove_at(&self, usz index)
 {
-	if (index == 0)
+	// Move the element to the top, its parents moving down keep the heap order.
+	while (index > 0)
 	{
-		self.pop()!!;
-		return;
+		usz parent = (index - 1) / 2;
+		self.heap.swap(index, parent);
+		index = parent;
 	}
-	self.heap.remove_at(index);
+	self.pop()!!;
 }
 <*
  @require self != null
-- 
2.43.0


From 70cd4a1135406ab345858a436e093add4517e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 15/64] fix: quickselect finds the element in single element
 and long ordered lists

---
 lib/std/sort/quicksort.c3 | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/std/sort/quicksort.c3 b/lib/std/sort/quicksort.c3
index dc558a1..293e288 100644
--- a/lib/std/sort/quicksort.c3
+++ b/lib/std/sort/quicksort.c3
@@ -87,14 +87,13 @@ fn void qsort(Type list, isz low, isz high, CmpFn cmp, Context context)
 *>
 fn ElementType? qselect(Type list, isz low, isz high, isz k, CmpFn cmp, Context context)
 {
-	if (low >= 0 && high >= 0 && low < high)
+	if (low >= 0 && high >= 0 && low <= high)
 	{
 		isz l = low;
 		isz h = high;
 		isz pivot;
 
-		usz max_retries = 64;
-		while (l <= h && max_retries--)
+		while (l <= h)
 		{
 			pivot = @partition(list, l, h, cmp, context);
 			if (k == pivot) return list[k];
-- 
2.43.0


From 134055bac1c509b215227317d9dd28cfdb5887e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 16/64] fix: countingsort of lists of types smaller than int

---
 lib/std/sort/countingsort.c3 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/sort/countingsort.c3 b/lib/std/sort/countingsort.c3
index e2d2309..d4ccd30 100644
--- a/lib/std/sort/countingsort.c3
+++ b/lib/std/sort/countingsort.c3
@@ -57,7 +57,7 @@ fn void csort(Type list, usz low, usz high, KeyFn key_fn, uint byte_idx)
 	Ranges ranges;
 	Indexs indexs;
 
-	KeyFnReturnType mn = ~(KeyFnReturnType)0;
+	KeyFnReturnType mn = KeyFnReturnType.max;
 	KeyFnReturnType mx = 0;
 
 	char last_key = 0;
-- 
2.43.0


From cae1698c2afc5284641e80cdb76948162dcf6b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 17/64] fix: is_sorted passes the context and does not overflow
 on comparison results

---
 lib/std/sort/sorted.c3 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/std/sort/sorted.c3 b/lib/std/sort/sorted.c3
index d1d2440..d0e6408 100644
--- a/lib/std/sort/sorted.c3
+++ b/lib/std/sort/sorted.c3
@@ -28,7 +28,8 @@ macro bool is_sorted(list, cmp = EMPTY_MACRO_SLOT, ctx = EMPTY_MACRO_SLOT) @buil
 		// compare adjacent elements to the sort order
 		for (; i < end; i++)
 		{
-			if (sort_order * @sort_cmp(list, i, cmp, ctx) < 0) return false;
+			int order = @sort_cmp(list, i, cmp, ctx);
+			if (sort_order > 0 ? order < 0 : order > 0) return false;
 		}
 		return true;
 	};
@@ -46,7 +47,7 @@ macro int @sort_cmp(list, pos, cmp, ctx) @local
 
 	$switch:
 		$case $cmp_by_value && $has_context:
-			return cmp(a, b);
+			return cmp(a, b, ctx);
 		$case $cmp_by_value:
 			return cmp(a, b);
 		$case $has_cmp && $has_context:
-- 
2.43.0


From 56905034e5ae455d1979b0bca81206a5bbf6399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 18/64] fix: GrowableBitSet of words other than uint

---
 lib/std/collections/bitset.c3 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/std/collections/bitset.c3 b/lib/std/collections/bitset.c3
index 4d91721..eb4e105 100644
--- a/lib/std/collections/bitset.c3
+++ b/lib/std/collections/bitset.c3
@@ -203,7 +203,7 @@ fn usz GrowableBitSet.cardinality(&self)
 	usz n;
 	foreach (x : self.data)
 	{
-		n += x.popcount();
+		n += (usz)x.popcount();
 	}
 	return n;
 }
@@ -218,7 +218,7 @@ fn void GrowableBitSet.set(&self, usz i)
 		self.data.push(0);
 		current_len++;
 	}
-	self.data.set(q, self.data[q] | (1 << r));
+	self.data.set(q, (Type)(self.data[q] | (Type)1 << r));
 }
 
 fn void GrowableBitSet.unset(&self, usz i)
@@ -226,7 +226,7 @@ fn void GrowableBitSet.unset(&self, usz i)
 	usz q = i / BITS;
 	usz r = i % BITS;
 	if (q >= self.data.len()) return;
-	self.data.set(q, self.data[q] &~ (1 << r));
+	self.data.set(q, (Type)(self.data[q] & ~((Type)1 << r)));
 }
 
 fn bool GrowableBitSet.get(&self, usz i) @operator([]) @inline
@@ -234,7 +234,7 @@ fn bool GrowableBitSet.get(&self, usz i) @operator([]) @inline
 	usz q = i / BITS;
 	usz r = i % BITS;
 	if (q >= self.data.len()) return false;
-	return self.data[q] & (1 << r) != 0;
+	return self.data[q] & ((Type)1 << r) != 0;
 }
 
 fn usz GrowableBitSet.len(&self) @operator(len)
-- 
2.43.0


From 0a401e971159688ff9c6495a2bc9ae3302d9e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 19/64] fix: EnumSet of more than 32 elements

---
 lib/std/collections/enumset.c3 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/std/collections/enumset.c3 b/lib/std/collections/enumset.c3
index 416927e..b85444a 100644
--- a/lib/std/collections/enumset.c3
+++ b/lib/std/collections/enumset.c3
@@ -18,7 +18,7 @@ fn void EnumSet.add(&self, Enum v)
 	$if IS_CHAR_ARRAY:
 		(*self)[(usz)v.ordinal / 8] |= (char)(1u << ((usz)v.ordinal % 8));
 	$else
-		*self = (EnumSet)((EnumSetType)*self | 1u << (EnumSetType)v.ordinal);
+		*self = (EnumSet)((EnumSetType)*self | (EnumSetType)1 << (EnumSetType)v.ordinal);
 	$endif
 }
 
@@ -39,7 +39,7 @@ fn bool EnumSet.remove(&self, Enum v)
 		return true;
 	$else
 		EnumSetType old = (EnumSetType)*self;
-		EnumSetType new = old & ~(1u << (EnumSetType)v.ordinal);
+		EnumSetType new = old & ~((EnumSetType)1 << (EnumSetType)v.ordinal);
 		*self = (EnumSet)new;
 		return old != new;
 	$endif
@@ -48,9 +48,9 @@ fn bool EnumSet.remove(&self, Enum v)
 fn bool EnumSet.has(&self, Enum v)
 {
 	$if IS_CHAR_ARRAY:
-		return (bool)(((*self)[(usz)v.ordinal / 8] << ((usz)v.ordinal % 8)) & 0x01);
+		return (bool)(((*self)[(usz)v.ordinal / 8] >> ((usz)v.ordinal % 8)) & 0x01);
 	$else
-		return ((EnumSetType)*self & (1u << (EnumSetType)v.ordinal)) != 0;
+		return ((EnumSetType)*self & ((EnumSetType)1 << (EnumSetType)v.ordinal)) != 0;
 	$endif
 }
 
-- 
2.43.0


From 8032d8682fa30e4a9b09e3a080e8e39bcbbfea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 20/64] fix: UnbufferedChannel with several senders or readers,
 spurious wakeups and uninitialized memory

---
 lib/std/threads/unbuffered_channel.c3 | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/std/threads/unbuffered_channel.c3 b/lib/std/threads/unbuffered_channel.c3
index f7b4ffd..75583cf 100644
--- a/lib/std/threads/unbuffered_channel.c3
+++ b/lib/std/threads/unbuffered_channel.c3
@@ -20,7 +20,7 @@ struct UnbufferedChannelImpl @private
 
 fn void? UnbufferedChannel.init(&self, Allocator allocator)
 {
-	UnbufferedChannelImpl* channel = allocator::alloc(allocator, UnbufferedChannelImpl);
+	UnbufferedChannelImpl* channel = allocator::new(allocator, UnbufferedChannelImpl);
 	defer catch (void)allocator::free(allocator, channel);
 
 	channel.allocator = allocator;
@@ -60,10 +60,11 @@ fn void? UnbufferedChannel.push(self, Type val)
 {
 	UnbufferedChannelImpl* channel = (UnbufferedChannelImpl*)self;
 
-	channel.mu.lock()!;
-	defer catch (void)channel.mu.unlock();
+	// one sender at a time
 	channel.send_mu.lock()!;
 	defer catch (void)channel.send_mu.unlock();
+	channel.mu.lock()!;
+	defer catch (void)channel.mu.unlock();
 
 	if (channel.closed)
 	{
@@ -82,9 +83,17 @@ fn void? UnbufferedChannel.push(self, Type val)
 	}
 
 	// wait until reader takes value from buffer
-	channel.send_cond.wait(&channel.mu)!;
+	while (channel.send_waiting > 0 && !channel.closed)
+	{
+		channel.send_cond.wait(&channel.mu)!;
+	}
 
-	if (channel.closed) return thread::CHANNEL_CLOSED?;
+	// closed before any reader took the value
+	if (channel.send_waiting > 0)
+	{
+		channel.send_waiting--;
+		return thread::CHANNEL_CLOSED?;
+	}
 
 	channel.mu.unlock()!;
 	channel.send_mu.unlock()!;
@@ -94,10 +103,11 @@ fn Type? UnbufferedChannel.pop(self)
 {
 	UnbufferedChannelImpl* channel = (UnbufferedChannelImpl*)self;
 
-	channel.mu.lock()!;
-	defer catch (void)channel.mu.unlock();
+	// one reader at a time
 	channel.read_mu.lock()!;
 	defer catch (void)channel.read_mu.unlock();
+	channel.mu.lock()!;
+	defer catch (void)channel.mu.unlock();
 
 	// if no one is waiting, then there is nothing in the buffer
 	while (!channel.closed && channel.send_waiting == 0)
-- 
2.43.0


From 348be0b540df2cb25402bb0bae0982bd2c0de29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 21/64] fix: lock_timeout failed instead of waiting for the
 lock

---
 lib/std/threads/os/thread_posix.c3 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/threads/os/thread_posix.c3 b/lib/std/threads/os/thread_posix.c3
index 59cb838..3fd5e43 100644
--- a/lib/std/threads/os/thread_posix.c3
+++ b/lib/std/threads/os/thread_posix.c3
@@ -76,7 +76,7 @@ fn void? NativeMutex.lock_timeout(&self, ulong ms)
 	{
 		if (!ms) break;
 		ulong sleep = min(5, ms);
-		if (!libc::nanosleep(&&time::ms(ms).to_timespec(), null)) return thread::LOCK_FAILED?;
+		if (libc::nanosleep(&&time::ms(sleep).to_timespec(), null)) return thread::LOCK_FAILED?;
 		ms -= sleep;
 	}
 	switch (result)
-- 
2.43.0


From 9ec5e1d3d3f24feccfb52e91ea84d24824cf89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 22/64] fix: pools whose threads could not all be created hang,
 FixedThreadPool leaks, ThreadPool.destroy ran pending work

---
 lib/std/threads/fixed_pool.c3 |  4 +++-
 lib/std/threads/pool.c3       | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/std/threads/fixed_pool.c3 b/lib/std/threads/fixed_pool.c3
index 8eada68..4da61bc 100644
--- a/lib/std/threads/fixed_pool.c3
+++ b/lib/std/threads/fixed_pool.c3
@@ -40,7 +40,6 @@ fn void? FixedThreadPool.init(&self, usz threads, usz queue_size = 0)
 	defer catch @ok(self.destroy());
 	assert(queue_size > 0);
 	*self = {
-		.num_threads = threads,
 		.initialized = true,
 		.queue = mem::alloc_array(QueueItem, queue_size),
 		.pool = mem::new_array(Thread, threads)
@@ -50,6 +49,7 @@ fn void? FixedThreadPool.init(&self, usz threads, usz queue_size = 0)
 	foreach (&thread : self.pool)
 	{
 		thread.create(&process_work, self)!;
+		self.num_threads++;
 		// The thread resources will be cleaned up when the thread exits.
 		thread.detach()!;
 	}
@@ -100,6 +100,8 @@ macro void? FixedThreadPool.@shutdown(&self, #stop) @private
 		}
 		free(self.queue);
 		self.queue = {};
+		free(self.pool);
+		self.pool = {};
 	}
 }
 
diff --git a/lib/std/threads/pool.c3 b/lib/std/threads/pool.c3
index 0fc2a55..165b02a 100644
--- a/lib/std/threads/pool.c3
+++ b/lib/std/threads/pool.c3
@@ -29,12 +29,13 @@ struct QueueItem @private
 fn void? ThreadPool.init(&self)
 {
 	defer catch @ok(self.destroy());
-	*self = { .num_threads = SIZE, .initialized = true };
+	*self = { .initialized = true };
 	self.mu.init()!;
 	self.notify.init()!;
 	foreach (&thread : self.pool)
 	{
 		thread.create(&process_work, self)!;
+		self.num_threads++;
 		// The thread resources will be cleaned up when the thread exits.
 		thread.detach()!;
 	}
@@ -109,6 +110,13 @@ fn int process_work(void* arg) @private
 	while (true)
 	{
 		self.mu.lock()!!;
+		if (self.stop_now)
+		{
+			// Shutdown requested.
+			self.num_threads--;
+			self.mu.unlock()!!;
+			return 0;
+		}
 		// Wait for work.
 		while (self.qindex == 0)
 		{
-- 
2.43.0


From cf7b4b225ea027aaf22d2032af4518524f49d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 23/64] fix: ArenaAllocator: full arenas panicked in release
 and resize, and shrinking copied too much

---
 lib/std/core/allocators/arena_allocator.c3 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/std/core/allocators/arena_allocator.c3 b/lib/std/core/allocators/arena_allocator.c3
index 4168aea..66d3294 100644
--- a/lib/std/core/allocators/arena_allocator.c3
+++ b/lib/std/core/allocators/arena_allocator.c3
@@ -71,7 +71,7 @@ fn void ArenaAllocator.release(&self, void* ptr, bool) @dynamic
 	assert((uptr)ptr >= (uptr)self.data.ptr, "Pointer originates from a different allocator.");
 	ArenaAllocatorHeader* header = ptr - ArenaAllocatorHeader.sizeof;
 	// Reclaim memory if it's the last element.
-	if (ptr + header.size == &self.data[self.used])
+	if (ptr + header.size == self.data.ptr + self.used)
 	{
 		self.used -= header.size + ArenaAllocatorHeader.sizeof;
 	}
@@ -121,7 +121,7 @@ fn void*? ArenaAllocator.resize(&self, void *old_pointer, usz size, usz alignmen
 	ArenaAllocatorHeader* header = old_pointer - ArenaAllocatorHeader.sizeof;
 	usz old_size = header.size;
 	// Do last allocation and alignment match?
-	if (&self.data[self.used] == old_pointer + old_size && mem::ptr_is_aligned(old_pointer, alignment))
+	if (self.data.ptr + self.used == old_pointer + old_size && mem::ptr_is_aligned(old_pointer, alignment))
 	{
 		if (old_size >= size)
 		{
@@ -138,7 +138,7 @@ fn void*? ArenaAllocator.resize(&self, void *old_pointer, usz size, usz alignmen
 	}
 	// Otherwise just allocate new memory.
 	void* mem = self.acquire(size, NO_ZERO, alignment)!;
-	mem::copy(mem, old_pointer, old_size, mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
+	mem::copy(mem, old_pointer, math::min(old_size, size), mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
 	return mem;
 }
 
-- 
2.43.0


From ca88963a81f69964b6ac12bc3f49ced472870a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 24/64] fix: DynamicArenaAllocator: releasing or shrinking the
 last block freed memory of live blocks

---
 lib/std/core/allocators/dynamic_arena.c3 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/std/core/allocators/dynamic_arena.c3 b/lib/std/core/allocators/dynamic_arena.c3
index cd1520c..c4eb3fd 100644
--- a/lib/std/core/allocators/dynamic_arena.c3
+++ b/lib/std/core/allocators/dynamic_arena.c3
@@ -92,7 +92,7 @@ fn void*? DynamicArenaAllocator.resize(&self, void* old_pointer, usz size, usz a
 		*old_size_ptr = size;
 		if (current_page.current_stack_ptr == old_pointer)
 		{
-			current_page.used = (usz)((old_pointer - DEFAULT_SIZE_PREFIX) - current_page.memory);
+			current_page.used = (usz)(old_pointer + size - current_page.memory);
 		}
 		return old_pointer;
 	}
@@ -106,7 +106,7 @@ fn void*? DynamicArenaAllocator.resize(&self, void* old_pointer, usz size, usz a
 		return old_pointer;
 	}
 	void* new_mem = self.acquire(size, NO_ZERO, alignment)!;
-	mem::copy(new_mem, old_pointer, old_size, mem::DEFAULT_MEM_ALIGNMENT);
+	mem::copy(new_mem, old_pointer, math::min(old_size, size), mem::DEFAULT_MEM_ALIGNMENT);
 	return new_mem;
 }
 
@@ -203,6 +203,7 @@ fn void*? DynamicArenaAllocator.acquire(&self, usz size, AllocInitType init_type
 		page.used = new_used;
 		assert(start + size == page.memory + page.used);
 		ptr = start;
+		page.current_stack_ptr = ptr;
 		DynamicArenaChunk* chunk = (DynamicArenaChunk*)ptr - 1;
 		chunk.size = size;
 	};
-- 
2.43.0


From 1f23163254234d27015701f78e8ff3dfcf7c3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 25/64] fix: OnStackAllocator: zeroed memory was not zeroed and
 shrinking copied too much

---
 lib/std/core/allocators/on_stack_allocator.c3 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/std/core/allocators/on_stack_allocator.c3 b/lib/std/core/allocators/on_stack_allocator.c3
index 45a1ed8..d8731d1 100644
--- a/lib/std/core/allocators/on_stack_allocator.c3
+++ b/lib/std/core/allocators/on_stack_allocator.c3
@@ -1,4 +1,5 @@
 module std::core::mem::allocator;
+import std::math;
 
 struct OnStackAllocator (Allocator)
 {
@@ -116,7 +117,7 @@ fn void*? OnStackAllocator.resize(&self, void* old_pointer, usz size, usz alignm
 	OnStackAllocatorHeader* header = old_pointer - OnStackAllocatorHeader.sizeof;
 	usz old_size = header.size;
 	void* mem = self.acquire(size, NO_ZERO, alignment)!;
-	mem::copy(mem, old_pointer, old_size, mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
+	mem::copy(mem, old_pointer, math::min(old_size, size), mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
 	return mem;
 }
 
@@ -146,5 +147,6 @@ fn void*? OnStackAllocator.acquire(&self, usz size, AllocInitType init_type, usz
 	self.used = end;
 	OnStackAllocatorHeader* header = mem - OnStackAllocatorHeader.sizeof;
 	header.size = size;
+	if (init_type == ZERO) mem::clear(mem, size, mem::DEFAULT_MEM_ALIGNMENT);
 	return mem;
 }
-- 
2.43.0


From 45d2400ec72637a348718f6e19c564f3fa246979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 26/64] fix: BackedArenaAllocator: aligned pages were too
 small, shrinking and reset wrote out of bounds

---
 .../core/allocators/backed_arena_allocator.c3  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/std/core/allocators/backed_arena_allocator.c3 b/lib/std/core/allocators/backed_arena_allocator.c3
index 62366b1..8693b88 100644
--- a/lib/std/core/allocators/backed_arena_allocator.c3
+++ b/lib/std/core/allocators/backed_arena_allocator.c3
@@ -76,9 +76,11 @@ fn void BackedArenaAllocator.reset(&self, usz mark)
 	$if env::COMPILER_SAFE_MODE || env::ADDRESS_SANITIZER:
 		if (!last_page)
 		{
-			usz cleaned = self.used - mark;
-			if (cleaned > 0)
+			// Every page added one to the use, which may therefore be beyond the capacity.
+			usz end = math::min(self.used, self.capacity);
+			if (end > mark)
 			{
+				usz cleaned = end - mark;
 				$if env::COMPILER_SAFE_MODE && !env::ADDRESS_SANITIZER:
 					self.data[mark : cleaned] = 0xAA;
 				$endif
@@ -100,6 +102,9 @@ fn void*? BackedArenaAllocator._realloc_page(&self, ExtraPage* page, usz size, u
 	// Then the actual start pointer:
 	void* real_pointer = page.start;
 
+	usz page_size = page.pagesize();
+	// Clear on size > original size.
+	void* data = self.acquire(size, NO_ZERO, alignment)!;
 	// Walk backwards to find the pointer to this page.
 	ExtraPage **pointer_to_prev = &self.last_page;
 	// Remove the page from the list
@@ -108,10 +113,7 @@ fn void*? BackedArenaAllocator._realloc_page(&self, ExtraPage* page, usz size, u
 		pointer_to_prev = &((*pointer_to_prev).prev_page);
 	}
 	*pointer_to_prev = page.prev_page;
-	usz page_size = page.pagesize();
-	// Clear on size > original size.
-	void* data = self.acquire(size, NO_ZERO, alignment)!;
-	mem::copy(data, &page.data[0], page_size, mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
+	mem::copy(data, &page.data[0], math::min(page_size, size), mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
 	self.backing_allocator.release(real_pointer, page.is_aligned());
 	return data;
 }
@@ -128,7 +130,7 @@ fn void*? BackedArenaAllocator.resize(&self, void* pointer, usz size, usz alignm
 	}
 
 	AllocChunk* data = self.acquire(size, NO_ZERO, alignment)!;
-	mem::copy(data, pointer, chunk.size, mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
+	mem::copy(data, pointer, math::min(chunk.size, size), mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
 
 	return data;
 }
@@ -169,7 +171,7 @@ fn void*? BackedArenaAllocator.acquire(&self, usz size, AllocInitType init_type,
 	if (alignment > mem::DEFAULT_MEM_ALIGNMENT)
 	{
 		// This is actually simpler, since it will create the offset for us.
-		usz total_alloc_size = mem::aligned_offset(ExtraPage.sizeof + size, alignment);
+		usz total_alloc_size = mem::aligned_offset(ExtraPage.sizeof, alignment) + size;
 		if (init_type == ZERO)
 		{
 			mem = allocator::calloc_aligned(self.backing_allocator, total_alloc_size, alignment)!;
-- 
2.43.0


From 04972b464ff451b1e05c44cb7d6f03be8e7003ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 27/64] fix: TempAllocator: aligned pages were too small,
 failed resize lost its page, reset used freed children

---
 lib/std/core/allocators/temp_allocator.c3 | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/lib/std/core/allocators/temp_allocator.c3 b/lib/std/core/allocators/temp_allocator.c3
index 92500a5..016b8db 100644
--- a/lib/std/core/allocators/temp_allocator.c3
+++ b/lib/std/core/allocators/temp_allocator.c3
@@ -114,12 +114,9 @@ fn void TempAllocator.reset(&self)
 {
 	TempAllocator* child = self.derived;
 	if (!child) return;
-	while (child)
-	{
-		TempAllocator* old = child;
-		child = old.derived;
-		old.destroy();
-	}
+	// Destroy the innermost first, since it may be living in the memory of its parent.
+	child.reset();
+	child.destroy();
 	self.capacity = self.original_capacity;
 	$if env::ADDRESS_SANITIZER:
 		asan::poison_memory_region(&self.data[self.used], self.capacity - self.used);
@@ -181,6 +178,9 @@ fn void*? TempAllocator._realloc_page(&self, TempAllocatorPage* page, usz size,
 	// Then the actual start pointer:
 	void* real_pointer = page.start;
 
+	usz page_size = page.pagesize();
+	// Clear on size > original size.
+	void* data = self.acquire(size, NO_ZERO, alignment)!;
 	// Walk backwards to find the pointer to this page.
 	TempAllocatorPage **pointer_to_prev = &self.last_page;
 	// Remove the page from the list
@@ -189,9 +189,6 @@ fn void*? TempAllocator._realloc_page(&self, TempAllocatorPage* page, usz size,
 		pointer_to_prev = &((*pointer_to_prev).prev_page);
 	}
 	*pointer_to_prev = page.prev_page;
-	usz page_size = page.pagesize();
-	// Clear on size > original size.
-	void* data = self.acquire(size, NO_ZERO, alignment)!;
 	if (page_size > size) page_size = size;
 	mem::copy(data, &page.data[0], page_size, mem::DEFAULT_MEM_ALIGNMENT, mem::DEFAULT_MEM_ALIGNMENT);
 	self.backing_allocator.release(real_pointer, page.is_aligned());
@@ -279,7 +276,7 @@ fn void*? TempAllocator.acquire(&self, usz size, AllocInitType init_type, usz al
 	if (alignment > mem::DEFAULT_MEM_ALIGNMENT)
 	{
 		// This is actually simpler, since it will create the offset for us.
-		usz total_alloc_size = mem::aligned_offset(TempAllocatorPage.sizeof + size, alignment);
+		usz total_alloc_size = mem::aligned_offset(TempAllocatorPage.sizeof, alignment) + size;
 		if (init_type == ZERO)
 		{
 			mem = allocator::calloc_aligned(self.backing_allocator, total_alloc_size, alignment)!;
-- 
2.43.0


From 992decffdda855587fc1b4a535099fd77bbb9905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:25 +0000
Subject: [PATCH 28/64] fix: the folded signed remainder has the sign of the
 dividend

---
 src/compiler/bigint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index 82efb18..705ed43 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -544,7 +544,8 @@ Int128 i128_srem(Int128 op1, Int128 op2)
 	if (topbit1) op1 = i128_neg(op1);
 	if (topbit2) op2 = i128_neg(op2);
 	Int128 res = i128_urem(op1, op2);
-	if (topbit2 ^ topbit1)
+	// The remainder has the sign of the dividend
+	if (topbit1)
 	{
 		return i128_neg(res);
 	}
-- 
2.43.0


From c2c17eed23949d418540dcb21a974a16ee15fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 29/64] fix: $$bswap of a single byte, which crashed the code
 generation

---
 src/compiler/llvm_codegen_builtins.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/llvm_codegen_builtins.c b/src/compiler/llvm_codegen_builtins.c
index 6e78317..e31421d 100644
--- a/src/compiler/llvm_codegen_builtins.c
+++ b/src/compiler/llvm_codegen_builtins.c
@@ -896,6 +896,12 @@ void llvm_emit_builtin_call(GenContext *c, BEValue *result_value, Expr *expr)
 			llvm_emit_simple_builtin(c, result_value, expr, intrinsic_id.bitreverse);
 			return;
 		case BUILTIN_BSWAP:
+			if (type_size(type_vector_type(expr->type) ? type_vector_type(expr->type) : expr->type) == 1)
+			{
+				// The intrinsic isn't defined for a single byte, where there is nothing to swap.
+				llvm_emit_expr(c, result_value, expr->call_expr.arguments[0]);
+				return;
+			}
 			llvm_emit_simple_builtin(c, result_value, expr, intrinsic_id.bswap);
 			return;
 		case BUILTIN_CEIL:
-- 
2.43.0


From 0f608a480586a1d707ba2251c98ed9963af32dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:09 +0000
Subject: [PATCH 30/64] fix: a pointer to an array does not implement every
 interface

---
 src/compiler/sema_casts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index 76136ba..75ef574 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -2315,7 +2315,7 @@ CastRule cast_rules[CONV_LAST + 1][CONV_LAST + 1] = {
  {REXPL, _NO__, REXPL, RPTIN, _NO__, REXPL, _NO__, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NA__, _NO__, REXPL, REXPL, _NO__, _NO__}, // TYPEID
  {REXPL, _NO__, REXPL, RPTIN, _NO__, REXPL, _NO__, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NA__, REXPL, REXPL, _NO__, _NO__}, // ANYFAULT
  {REXPL, _NO__, REXPL, RPTIN, _NO__, ROKOK, _NO__, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, RVPAN, RVPAN, _NO__, ROKOK, _NO__, _NO__, _NA__, ROKOK, _NO__, _NO__}, // VOIDPTR
- {REXPL, _NO__, REXPL, RPTIN, _NO__, RPTPT, RAPSL, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, ROKOK, ROKOK, _NO__, _NO__, _NO__, _NO__, ROKOK, RPTPT, RPTFE, _NO__}, // ARRPTR
+ {REXPL, _NO__, REXPL, RPTIN, _NO__, RPTPT, RAPSL, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, ROKOK, RPTIF, _NO__, _NO__, _NO__, _NO__, ROKOK, RPTPT, RPTFE, _NO__}, // ARRPTR
  {_NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__}, // INFERRED
  {_NO__, _NO__, _NO__, _NO__, _NO__, _NO__, RULSL, RULAR, RULST, RXXDI, RULAR, RULST, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, RULFE, _NO__}, // UNTYPED_LIST
 };
-- 
2.43.0


From 763586750766e0216c41177dee78b89a1e5135e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 31/64] fix: check the length of s[start:length] in safe mode

A negative length, or one where start + length overflows, gave an invalid slice.
---
 src/compiler/llvm_codegen_expr.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 9a688ca..c0ba70e 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2696,28 +2696,42 @@ static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_r
 			end_index.value = llvm_emit_sub_int(c, end_index.type, len.value, end_index.value, slice->span);
 			llvm_value_rvalue(c, &end_index);
 		}
+		BEValue slice_len = end_index;
 		if (is_len_range)
 		{
-			end_index.value = llvm_emit_add_int(c, end_index.type, start_index.value, end_index.value, slice->span);
+			if (safe_mode_enabled() && range.range_type == RANGE_DYNAMIC)
+			{
+				llvm_emit_trap_negative(c, exprptr(range.end), slice_len.value, "Negative size (%d)", &slice_len);
+			}
+			end_index.value = LLVMBuildAdd(c->builder, start_index.value, slice_len.value, "add");
 		}
 
 		// This will trap any bad negative index, so we're fine.
 		if (safe_mode_enabled())
 		{
+			BEValue excess;
 			if (is_len_range)
 			{
 				if (len.value)
 				{
-					BEValue excess;
-					llvm_emit_int_comp(c, &excess, &len, &end_index, BINARYOP_LT);
+					if (range.range_type == RANGE_DYNAMIC)
+					{
+						// The sum may overflow, so compare with what is left after the start, which was already checked.
+						BEValue max_len = len;
+						max_len.value = LLVMBuildSub(c->builder, len.value, start_index.value, "");
+						llvm_emit_int_comp(c, &excess, &max_len, &slice_len, BINARYOP_LT);
+					}
+					else
+					{
+						llvm_emit_int_comp(c, &excess, &len, &end_index, BINARYOP_LT);
+					}
 					BEValue actual_end_index = end_index;
-					actual_end_index.value = llvm_emit_sub_int(c, end_index.type, end_index.value, llvm_const_int(c, type_isz, 1), slice->span);
+					actual_end_index.value = LLVMBuildSub(c->builder, end_index.value, llvm_const_int(c, end_index.type, 1), "sub");
 					llvm_emit_panic_if_true(c, &excess, "End index out of bounds", slice->span, "End index out of bounds (end index of %d exceeds size of %d)", &actual_end_index, &len);
 				}
 			}
 			else
 			{
-				BEValue excess;
 				llvm_emit_int_comp(c, &excess, &start_index, &end_index, BINARYOP_GT);
 				llvm_emit_panic_if_true(c, &excess, "Negative size", slice->span, "Negative size (start %d is less than end %d)", &start_index, &end_index);
 
-- 
2.43.0


From bf121942aef8e7b4e5792acf6c72c0ac91f806ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 32/64] fix: constant slices x[start:length] may not reach
 outside of x

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index b145923..5a0ab23 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3764,9 +3764,9 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 				}
 				break;
 			case RANGE_CONST_RANGE:
-				if (range->len_index > len)
+				if (range->start_index + range->len_index > len)
 				{
-					RETURN_SEMA_ERROR(end ? end : start, "End index out of bounds, was %d, exceeding max index %d.", range->len_index - 1, len - 1);
+					RETURN_SEMA_ERROR(end ? end : start, "End index out of bounds, was %d, exceeding max index %d.", range->start_index + range->len_index - 1, len - 1);
 				}
 				break;
 			default:
-- 
2.43.0


From 5ecdb30a1ea081f4d597ae4b45410407ebdd6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 33/64] fix: no false enum conversion panics for narrow integer
 types

---
 src/compiler/llvm_codegen_expr.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index c0ba70e..e25cc1b 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -6880,11 +6880,16 @@ void llvm_emit_enum_from_ord(GenContext *c, BEValue *value, Expr *expr)
 			llvm_emit_int_comp_zero(c, &check, value, BINARYOP_LT);
 			llvm_emit_panic_on_true(c, check.value, "Attempt to convert negative value to enum failed.", expr->span, scratch_buffer_copy(), value, NULL);
 		}
-		scratch_buffer_clear();
-		scratch_buffer_printf("Attempting to convert %%d to enum '%s' failed as the value exceeds the max ordinal (%u).", decl->name, max - 1);
-		LLVMValueRef val = llvm_const_int(c, value->type, max);
-		llvm_emit_int_comp_raw(c, &check, value->type, value->type, value->value, val, BINARYOP_GE);
-		llvm_emit_panic_on_true(c, check.value, "Failed integer to enum conversion", expr->span, scratch_buffer_copy(), value, NULL);
+		// A narrow type may not be able to hold anything larger than the max ordinal.
+		BitSize bits = type_bit_size(value->type) - (type_is_signed(value->type) ? 1 : 0);
+		if (bits >= 32 || max < (1u << bits))
+		{
+			scratch_buffer_clear();
+			scratch_buffer_printf("Attempting to convert %%d to enum '%s' failed as the value exceeds the max ordinal (%u).", decl->name, max - 1);
+			LLVMValueRef val = llvm_const_int(c, value->type, max);
+			llvm_emit_int_comp_raw(c, &check, value->type, value->type, value->value, val, BINARYOP_GE);
+			llvm_emit_panic_on_true(c, check.value, "Failed integer to enum conversion", expr->span, scratch_buffer_copy(), value, NULL);
+		}
 	}
 	// We might need to extend or truncate.
 	Type *to_type = type_lowering(expr->type);
-- 
2.43.0


From 7e95cdbe2261f09b408025e766edfebd2fb7c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 34/64] fix: unsigned division, remainder and right shift of
 vectors

---
 src/compiler/llvm_codegen_expr.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index e25cc1b..2525b19 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -4026,6 +4026,7 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 	Type *rhs_type = rhs.type;
 	Type *vector_type = lhs_type->type_kind == TYPE_VECTOR ? lhs_type->array.base : NULL;
 	bool is_float = type_is_float(lhs_type) || (vector_type && type_is_float(vector_type));
+	bool is_unsigned = type_is_unsigned(vector_type ? vector_type : lhs_type);
 	LLVMValueRef val = NULL;
 	LLVMValueRef lhs_value = lhs.value;
 	LLVMValueRef rhs_value = rhs.value;
@@ -4101,7 +4102,7 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				val = LLVMBuildFDiv(c->builder, lhs_value, rhs_value, "fdiv");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildUDiv(c->builder, lhs_value, rhs_value, "udiv")
 				  : LLVMBuildSDiv(c->builder, lhs_value, rhs_value, "sdiv");
 			break;
@@ -4112,14 +4113,13 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				val = LLVMBuildFRem(c->builder, lhs_value, rhs_value, "fmod");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildURem(c->builder, lhs_value, rhs_value, "umod")
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
-			val = type_is_unsigned(lhs_type)
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_type, expr->span);
+			val = is_unsigned
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
-- 
2.43.0


From 624d24655ec93a73dd5195d65157e601fe7233cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 35/64] fix: check shift amounts before truncating them

---
 src/compiler/llvm_codegen_expr.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 2525b19..8c91e72 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2563,6 +2563,28 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	}
 }
 
+/**
+ * Convert the right side of a shift to the type of the left side, checking it in safe mode.
+ */
+static LLVMValueRef llvm_emit_shift_amount(GenContext *c, LLVMValueRef value, Type *value_type, Type *type, SourceSpan loc)
+{
+	const char *error = "Shift amount out of range (was %s).";
+	LLVMTypeRef llvm_type = llvm_get_type(c, type);
+	if (safe_mode_enabled() && type_is_integer(value_type) && type_size(value_type) > type_size(type))
+	{
+		// Truncating first would lose the bits that make it invalid.
+		BEValue amount;
+		llvm_value_set(&amount, value, value_type);
+		LLVMValueRef max = llvm_const_int(c, value_type, type_bit_size(type));
+		LLVMValueRef exceeds = LLVMBuildICmp(c->builder, LLVMIntUGE, value, max, "shift_exceeds");
+		llvm_emit_panic_on_true(c, exceeds, "Invalid shift", loc, error, &amount, NULL);
+		return llvm_zext_trunc(c, value, llvm_type);
+	}
+	value = llvm_zext_trunc(c, value, llvm_type);
+	llvm_emit_trap_invalid_shift(c, value, type, error, loc);
+	return value;
+}
+
 static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_ref, BEValue *start_ref, BEValue *end_ref, bool *is_exclusive)
 {
 	ASSERT(slice->expr_kind == EXPR_SLICE);
@@ -4125,8 +4147,7 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
 		case BINARYOP_SHL:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_type, expr->span);
 			val = LLVMBuildShl(c->builder, lhs_value, rhs_value, "shl");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
-- 
2.43.0


From a7ebbc9a0f434c567a03629e4488b29c3a7e4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 36/64] fix: assigning a vector element keeps changes made by
 the right side

---
 src/compiler/llvm_codegen_expr.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 8c91e72..846e2e9 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -4375,6 +4375,21 @@ static inline void llvm_emit_force_unwrap_expr(GenContext *c, BEValue *be_value,
 }
 
 
+/**
+ * Evaluating the right side of an assignment to an element may change the other elements of the vector,
+ * which was loaded before it.
+ */
+static bool llvm_vector_may_have_changed(GenContext *c, LLVMValueRef loaded_value)
+{
+	if (LLVMGetVectorSize(LLVMTypeOf(loaded_value)) < 2) return false;
+	if (!LLVMIsALoadInst(loaded_value) || LLVMGetInstructionParent(loaded_value) != c->current_block) return true;
+	for (LLVMValueRef inst = LLVMGetNextInstruction(loaded_value); inst; inst = LLVMGetNextInstruction(inst))
+	{
+		if (LLVMIsAStoreInst(inst) || LLVMIsACallInst(inst)) return true;
+	}
+	return false;
+}
+
 static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr *expr)
 {
 	Expr *left = exprptr(expr->binary_expr.left);
@@ -4397,6 +4412,7 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 	llvm_value_addr(c, &addr);
 
 	LLVMValueRef vector_value = llvm_load_value_store(c, &addr);
+	LLVMValueRef loaded_value = vector_value;
 	if (is_swizzle)
 	{
 		if (addr.type->array.base == type_bool) vector_value = llvm_emit_trunc_bool(c, vector_value);
@@ -4414,6 +4430,11 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 			llvm_emit_expr(c, be_value, exprptr(expr->binary_expr.right));
 		}
 		llvm_value_rvalue(c, be_value);
+		if (llvm_vector_may_have_changed(c, loaded_value))
+		{
+			vector_value = llvm_load_value_store(c, &addr);
+			if (addr.type->array.base == type_bool) vector_value = llvm_emit_trunc_bool(c, vector_value);
+		}
 		const char *sw_ptr = left->swizzle_expr.swizzle;
 		unsigned vec_len = be_value->type->array.len;
 		LLVMValueRef result = be_value->value;
@@ -4445,8 +4466,9 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		llvm_emit_expr(c, be_value, exprptr(expr->binary_expr.right));
 	}
 
-	LLVMValueRef new_value = LLVMBuildInsertElement(c->builder, vector_value, llvm_load_value_store(c, be_value),
-	                                                index_val, "elemset");
+	LLVMValueRef element = llvm_load_value_store(c, be_value);
+	if (llvm_vector_may_have_changed(c, loaded_value)) vector_value = llvm_load_value_store(c, &addr);
+	LLVMValueRef new_value = LLVMBuildInsertElement(c->builder, vector_value, element, index_val, "elemset");
 	llvm_store_raw(c, &addr, new_value);
 
 }
-- 
2.43.0


From e92ba96eb7382a03f8442390ab3df0584b6d334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 37/64] fix: check vector indices in safe mode, and handle
 v[^i] = x

An index from the end was taken from the start when assigning. The subtraction
is no longer nuw when its result is checked, as the check may otherwise be removed.
---
 src/compiler/llvm_codegen_expr.c | 53 ++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 846e2e9..4790eef 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -670,6 +670,36 @@ static inline void llvm_emit_subscript_addr_with_base(GenContext *c, BEValue *re
 	}
 }
 
+/**
+ * Convert an index from the end. In safe mode the result is checked afterwards, so that it must not be poison.
+ */
+static LLVMValueRef llvm_emit_from_end_index(GenContext *c, LLVMValueRef len, LLVMValueRef index)
+{
+	return safe_mode_enabled() ? LLVMBuildSub(c->builder, len, index, "") : LLVMBuildNUWSub(c->builder, len, index, "");
+}
+
+/**
+ * Evaluate the index of a vector subscript, check it in safe mode.
+ */
+static LLVMValueRef llvm_emit_vector_index(GenContext *c, Expr *expr, Type *vec)
+{
+	ASSERT(vec->type_kind == TYPE_VECTOR);
+	Expr *index_expr = exprptr(expr->subscript_expr.index.expr);
+	BEValue index;
+	llvm_emit_expr(c, &index, index_expr);
+	llvm_value_rvalue(c, &index);
+	LLVMValueRef len = llvm_const_int(c, index.type, vec->array.len);
+	if (expr->subscript_expr.index.start_from_end)
+	{
+		index.value = llvm_emit_from_end_index(c, len, index.value);
+	}
+	if (safe_mode_enabled() && !llvm_is_global_eval(c) && !LLVMIsConstant(index.value))
+	{
+		llvm_emit_array_bounds_check(c, &index, len, index_expr->span);
+	}
+	return index.value;
+}
+
 static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Expr *expr)
 {
 	llvm_emit_exprid(c, value, expr->subscript_expr.expr);
@@ -678,13 +708,7 @@ static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Exp
 	ASSERT(vec->type_kind == TYPE_VECTOR);
 	Type *element = vec->array.base;
 	LLVMValueRef vector = value->value;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (expr->subscript_expr.index.start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	LLVMValueRef index = llvm_emit_vector_index(c, expr, vec);
 	llvm_value_set(value, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
 }
 
@@ -737,7 +761,7 @@ static inline void llvm_emit_subscript_addr(GenContext *c, BEValue *value, Expr
 	if (start_from_end)
 	{
 		ASSERT(needs_len);
-		index.value = LLVMBuildNUWSub(c->builder, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value, "");
+		index.value = llvm_emit_from_end_index(c, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value);
 	}
 	if (needs_len && safe_mode_enabled() && !llvm_is_global_eval(c))
 	{
@@ -2225,14 +2249,7 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	LLVMValueRef vector = value->value;
 
 	// Now let's get the subscript and store it in value
-	bool start_from_end = expr->subscript_expr.index.start_from_end;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	LLVMValueRef index = llvm_emit_vector_index(c, expr, vec);
 
 	// We're now done, we can extract the current value:
 	BEValue current_res;
@@ -4450,9 +4467,7 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		return;
 	}
 	// Emit the index
-	BEValue index;
-	llvm_emit_exprid(c, &index, left->subscript_expr.index.expr);
-	LLVMValueRef index_val = llvm_load_value_store(c, &index);
+	LLVMValueRef index_val = llvm_emit_vector_index(c, left, type_lowering(addr.type));
 	if (binary_op > BINARYOP_ASSIGN)
 	{
 		BinaryOp base_op = binaryop_assign_base_op(binary_op);
-- 
2.43.0


From 5cbb55afeb5fc29ce5f0e71e4dab17a3a212c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:38 +0000
Subject: [PATCH 38/64] fix: reject every decimal literal that does not fit 128
 bits

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index d8ce055..ca60ef2 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1508,7 +1508,7 @@ Expr *parse_integer(ParseContext *c, Expr *left)
 				uint64_t old_top = i.high;
 				i = i128_mult64(i, 10);
 				i = i128_add64(i, (uint64_t)(ch - '0'));
-				if (!wrapped && old_top > i.high) wrapped = true;
+				if (!wrapped && (old_top > UINT64_MAX / 10 || old_top > i.high)) wrapped = true;
 			}
 			break;
 	}
-- 
2.43.0


From 2aff23720c68e457c813c20ce291f3f7d1d8fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:38 +0000
Subject: [PATCH 39/64] fix: error messages for constant % and / by zero

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 5a0ab23..5a5e552 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -6521,10 +6521,10 @@ BITSTRUCT_OK:
 				switch (right->const_expr.const_kind)
 				{
 					case CONST_INTEGER:
-						if (int_is_zero(right->const_expr.ixx)) RETURN_SEMA_ERROR(right, operator == BINARYOP_MOD_ASSIGN ? "% by zero not allowed." : "Division by zero not allowed.");
+						if (int_is_zero(right->const_expr.ixx)) RETURN_SEMA_ERROR(right, operator == BINARYOP_MOD_ASSIGN ? "%% by zero not allowed." : "Division by zero not allowed.");
 						break;
 					case CONST_FLOAT:
-						if (right->const_expr.fxx.f == 0) RETURN_SEMA_ERROR(right, operator == BINARYOP_MOD_ASSIGN ? "% by zero not allowed." : "% by zero not allowed.");
+						if (right->const_expr.fxx.f == 0) RETURN_SEMA_ERROR(right, operator == BINARYOP_MOD_ASSIGN ? "%% by zero not allowed." : "Division by zero not allowed.");
 						break;
 					default:
 						break;
-- 
2.43.0


From 76fa83da03438d3defc0219bcb89366d5b18735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:04 +0000
Subject: [PATCH 40/64] fix: bitstruct members in char arrays are stored
 completely

---
 src/compiler/llvm_codegen_expr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 4790eef..a715ee6 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1103,7 +1103,7 @@ static inline void llvm_emit_update_bitstruct_array(GenContext *c,
 			if (i == end_byte && end_mod != 7)
 			{
 				res = llvm_emit_and_raw(c, res, llvm_const_low_bitmask(c, c->byte_type, 8, end_mod + 1));
-				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - (int)end_bit));
+				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - end_mod));
 			}
 			// Load the current value.
 			LLVMValueRef current = llvm_load(c, c->byte_type, byte_ptr, alignment, "");
@@ -1130,8 +1130,10 @@ static inline void llvm_emit_update_bitstruct_array(GenContext *c,
 			// Clear the lower bits.
 			current = llvm_emit_and_raw(c, current, LLVMBuildNot(c->builder, mask, ""));
 			// Use *or* with the bottom bits from "value":
-			llvm_emit_or_raw(c, current, value);
-			// And store it back.
+			LLVMValueRef combined = llvm_emit_or_raw(c, current, value);
+			// And store it back, first with the bits of the member cleared, then with its value.
+			llvm_store_to_ptr_raw_aligned(c, byte_ptr, current, alignment);
+			current = combined;
 			llvm_store_to_ptr_raw_aligned(c, byte_ptr, current, alignment);
 			continue;
 		}
-- 
2.43.0


From a234e7f5e4213b9776f28a5bcc63d6438f988b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:04 +0000
Subject: [PATCH 41/64] fix: anonymous bitstructs with an array or big endian
 type

---
 src/compiler/llvm_codegen_expr.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index a715ee6..fddd45f 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1203,10 +1203,9 @@ static inline void llvm_emit_bitassign_expr(GenContext *c, BEValue *be_value, Ex
 		llvm_emit_expr(c, be_value, exprptr(expr->binary_expr.right));
 	}
 
-	Type *parent_type = type_flatten(parent_expr->type);
-	if (type_lowering(parent_type)->type_kind == TYPE_ARRAY)
+	if (type_lowering(parent_decl->type)->type_kind == TYPE_ARRAY)
 	{
-		llvm_emit_bitassign_array(c, llvm_load_value_store(c, be_value), parent, parent_type->decl, member);
+		llvm_emit_bitassign_array(c, llvm_load_value_store(c, be_value), parent, parent_decl, member);
 		return;
 	}
 
@@ -1750,7 +1749,9 @@ static void llvm_emit_initialize_designated_element(GenContext *c, BEValue *ref,
 					break;
 				}
 				LLVMValueRef current_val = llvm_load_value(c, &value);
+				if (is_bitswap) current_val = llvm_emit_bswap(c, current_val);
 				current_val = llvm_emit_bitstruct_value_update(c, current_val, type_bit_size(underlying_type), bitstruct_type, member, val);
+				if (is_bitswap) current_val = llvm_emit_bswap(c, current_val);
 				llvm_store_raw(c, &value, current_val);
 				break;
 			}
-- 
2.43.0


From ccbff0ce2754597aa1e367e153a6966278f9581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:04 +0000
Subject: [PATCH 42/64] fix: decrementing an unsigned bitstruct member of more
 than 64 bits

---
 src/compiler/llvm_codegen_expr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index fddd45f..6ef5c8d 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2214,7 +2214,10 @@ static inline void llvm_emit_pre_post_inc_dec_bitstruct(GenContext *c, BEValue *
 	BEValue value = parent;
 	llvm_extract_bitvalue(c, &value, parent_decl, member);
 	LLVMValueRef value_start = llvm_load_value_store(c, &value);
-	LLVMValueRef result = llvm_emit_add_int(c, value.type, value_start, llvm_const_int(c, value.type, diff), lhs->span);
+	LLVMValueRef one = llvm_const_int(c, value.type, 1);
+	LLVMValueRef result = diff > 0
+			? llvm_emit_add_int(c, value.type, value_start, one, lhs->span)
+			: llvm_emit_sub_int(c, value.type, value_start, one, lhs->span);
 
 	llvm_value_set(be_value, pre ? result : value_start, value.type);
 
-- 
2.43.0


From 9bec71c7589573dc1e804e0be2cc1804324c2a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:04 +0000
Subject: [PATCH 43/64] fix: constant bitstruct operations on enum, signed and
 overlapping members

---
 src/compiler/sema_expr.c         | 14 +++++++++++---
 src/compiler/sema_initializers.c | 30 ++++++++++++++++++++----------
 src/compiler/sema_internal.h     |  1 +
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 5a5e552..1ae8ed5 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -7149,9 +7149,15 @@ static bool sema_expr_analyse_bit(SemaContext *context, Expr *expr, Expr *left,
 	}
 
 	// 3. Do constant folding if both sides are constant.
-	if (expr_both_const(left, right) && (sema_constant_fold_ops(left) || is_bitstruct))
+	if (expr_both_const(left, right) && (is_bitstruct ? sema_bitstruct_may_fold(left->type->canonical->decl) : sema_constant_fold_ops(left)))
 	{
 		BinaryOp op = expr->binary_expr.operator;
+		// The initializers may belong to other constants, and are changed by the operation.
+		if (is_bitstruct)
+		{
+			left = copy_expr_single(left);
+			right = copy_expr_single(right);
+		}
 		expr_replace(expr, left);
 		if (is_bool)
 		{
@@ -7883,9 +7889,9 @@ static inline bool sema_expr_analyse_bit_not(SemaContext *context, Expr *expr)
 	}
 
 VALID_VEC:
-	if (is_bitstruct && sema_cast_const(inner))
+	if (is_bitstruct && sema_bitstruct_may_fold(flat->decl) && sema_cast_const(inner))
 	{
-		expr_replace(expr, inner);
+		expr_replace(expr, copy_expr_single(inner));
 		sema_invert_bitstruct_const_initializer(expr->const_expr.initializer);
 		return true;
 	}
@@ -10729,6 +10735,8 @@ bool sema_cast_const(Expr *expr)
 				default:
 					return false;
 			}
+			// The value of a member may depend on the members it overlaps.
+			if (flat->type_kind == TYPE_BITSTRUCT && flat->decl->strukt.overlap) return false;
 			if (!sema_cast_const(expr->access_resolved_expr.parent)) return false;
 			if (!sema_expr_fold_to_member(expr, expr->access_resolved_expr.parent, expr->access_resolved_expr.ref)) return false;
 			return true;
diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index 6c9ea40..28b9651 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -638,6 +638,21 @@ static void sema_create_const_initializer_from_designated_init(ConstInitializer
 	}
 }
 
+/**
+ * Constants of a bitstruct are combined member by member, which requires that all
+ * members are integers or booleans and that no bit belongs to two of them.
+ */
+bool sema_bitstruct_may_fold(Decl *bitstruct)
+{
+	if (bitstruct->strukt.overlap) return false;
+	FOREACH(Decl *, member, bitstruct->strukt.members)
+	{
+		Type *type = type_flatten(member->type);
+		if (type != type_bool && !type_is_integer(type)) return false;
+	}
+	return true;
+}
+
 void sema_invert_bitstruct_const_initializer(ConstInitializer *initializer)
 {
 	Decl **members = initializer->type->decl->strukt.members;
@@ -669,20 +684,15 @@ void sema_invert_bitstruct_const_initializer(ConstInitializer *initializer)
 			continue;
 		}
 		Decl *member = members[i];
-		unsigned bits = member->var.end_bit - member->var.start_bit;
+		unsigned bits = member->var.end_bit - member->var.start_bit + 1;
 		if (init->kind == CONST_INIT_ZERO)
 		{
 			const_init_rewrite_to_value(init, expr_new_const_int(INVALID_SPAN, init->type, 0));
 		}
-		Int res = init->init_value->const_expr.ixx;
-		res = int_not(res);
-		Int neg = int_not((Int){ .type = res.type });
-		uint32_t bits_used = 128 - i128_clz(&neg.i);
-		if (bits_used > bits)
-		{
-			neg.i = i128_lshr64(neg.i, bits_used - bits);
-			res = int_and(res, neg);
-		}
+		// Only the bits of the member are inverted, and the result is a value of that width.
+		Int res = int_not(init->init_value->const_expr.ixx);
+		Int128 top = i128_shl64(res.i, 128 - bits);
+		res.i = type_kind_is_signed(res.type) ? i128_ashr64(top, 128 - bits) : i128_lshr64(top, 128 - bits);
 		init->init_value->const_expr.ixx = res;
 	}
 }
diff --git a/src/compiler/sema_internal.h b/src/compiler/sema_internal.h
index b9ad235..085a122 100644
--- a/src/compiler/sema_internal.h
+++ b/src/compiler/sema_internal.h
@@ -112,6 +112,7 @@ bool sema_analyse_function_signature(SemaContext *context, Decl *func_decl, Type
 Expr *sema_create_struct_from_expressions(Decl *struct_decl, SourceSpan span, Expr **exprs);
 ConstInitializer *sema_merge_bitstruct_const_initializers(ConstInitializer *lhs, ConstInitializer *rhs, BinaryOp op);
 void sema_invert_bitstruct_const_initializer(ConstInitializer *initializer);
+bool sema_bitstruct_may_fold(Decl *bitstruct);
 ArrayIndex sema_len_from_const(Expr *expr);
 void cast_promote_vararg(Expr *arg);
 Type *cast_numeric_arithmetic_promotion(Type *type);
-- 
2.43.0


From 2add4011070a3dafe9fa78ef7e4d39a3e276fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 44/64] fix: an empty designated element keeps the other
 members

---
 src/compiler/sema_initializers.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index 28b9651..c91bd2f 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -954,9 +954,8 @@ static inline void sema_update_const_initializer_with_designator_struct(ConstIni
 	bool is_last_path_element = next_element == end;
 
 	// Optimize in case this is a zero, e.g. [12].b = {}
-	if (is_last_path_element && sema_initializer_list_is_empty(value))
+	if (is_last_path_element && const_init->kind == CONST_INIT_ZERO && sema_initializer_list_is_empty(value))
 	{
-		const_init->kind = CONST_INIT_ZERO;
 		ASSERT(type_flatten(value->type)->type_kind != TYPE_SLICE);
 		return;
 	}
-- 
2.43.0


From bd2db83fbd2122c74e99b0b7e02a179c234f75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 45/64] fix: a designated range ending at the length is out of
 bounds

---
 src/compiler/sema_initializers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index c91bd2f..85fa8eb 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -1274,7 +1274,7 @@ static Type *sema_find_type_of_element(SemaContext *context, Type *type, Designa
 				*did_report_error = true;
 				return NULL;
 			}
-			if (end_index > (ArrayIndex)len)
+			if (end_index >= (ArrayIndex)len)
 			{
 				*did_report_error = true;
 				SEMA_ERROR(element->index_expr, "The index may must be less than the array length (which was %llu).", (unsigned long long)len);
-- 
2.43.0


From b9c04361afadd7b88d50b8c0e21febf8d19e1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 46/64] fix: ordinals of enums read from a bitstruct are not
 negative

---
 src/compiler/llvm_codegen_expr.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 6ef5c8d..80297e4 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -935,6 +935,12 @@ static inline LLVMValueRef llvm_bswap_non_integral(GenContext *c, LLVMValueRef v
 	return llvm_emit_bswap(c, shifted);
 }
 
+// The ordinals of an enum are never negative, whatever the type that holds them.
+static inline bool bitmember_is_signed(Decl *member)
+{
+	return type_flatten(member->type)->type_kind != TYPE_ENUM && type_is_signed(type_lowering(member->type));
+}
+
 static inline void llvm_extract_bitvalue_from_array(GenContext *c, BEValue *be_value, Decl *member, Decl *parent_decl)
 {
 	llvm_value_addr(c, be_value);
@@ -983,7 +989,7 @@ static inline void llvm_extract_bitvalue_from_array(GenContext *c, BEValue *be_v
 	{
 		res = llvm_bswap_non_integral(c, res, end - start + 1);
 	}
-	if (type_is_signed(member_type))
+	if (bitmember_is_signed(member))
 	{
 		TypeSize top_bits_to_clear = bitsize - end + start - 1;
 		if (top_bits_to_clear)
@@ -1015,7 +1021,7 @@ static inline void llvm_extract_bitvalue(GenContext *c, BEValue *be_value, Decl
 	unsigned start = (unsigned)member->var.start_bit;
 	unsigned end = (unsigned)member->var.end_bit;
 	Type *member_type = type_lowering(member->type);
-	if (type_is_signed(member_type))
+	if (bitmember_is_signed(member))
 	{
 		// Shift all the way left, so top bit is to the top.
 		uint64_t left_shift = container_bit_size - end - 1;
-- 
2.43.0


From 6ceb1ed3f22563139f2b21ab5ebbd19bb45c0d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:13 +0000
Subject: [PATCH 47/64] fix: big endian bitstructs on arrays take members of
 whole bytes

---
 src/compiler/llvm_codegen_expr.c | 2 +-
 src/compiler/sema_decls.c        | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 80297e4..8518051 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -930,7 +930,7 @@ static inline void llvm_extract_bool_bit_from_array(GenContext *c, BEValue *be_v
 static inline LLVMValueRef llvm_bswap_non_integral(GenContext *c, LLVMValueRef value, unsigned bitsize)
 {
 	if (bitsize <= 8) return value;
-	ASSERT(is_power_of_two(bitsize));
+	ASSERT(bitsize % 8 == 0);
 	LLVMValueRef shifted = llvm_emit_shl_fixed(c, value, (int)llvm_bitsize(c, LLVMTypeOf(value)) - (int)bitsize);
 	return llvm_emit_bswap(c, shifted);
 }
diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 24f7582..bc16fb8 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -875,6 +875,13 @@ static inline bool sema_analyse_bitstruct_member(SemaContext *context, Decl *par
 		return false;
 	}
 
+	// In an array, big endian is the order of the bytes in the member, so it must consist of bytes.
+	if (bits_available > 8 && bits_available % 8 && parent->strukt.big_endian
+	    && type_flatten(parent->strukt.container_type->type)->type_kind == TYPE_ARRAY)
+	{
+		RETURN_SEMA_ERROR(member, "Members of a big endian bitstruct with an array type that are larger than 8 bits must have a multiple of 8 bits.");
+	}
+
 	// Store the bits.
 	member->var.start_bit = start_bit;
 	member->var.end_bit = end_bit;
-- 
2.43.0


From b21db3f720cee99fa2adeaa9a641bdf066a43107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 48/64] fix: bitstructs on arrays of integers larger than a
 byte

---
 src/compiler/llvm_codegen_expr.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 8518051..054d092 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -916,7 +916,7 @@ static inline void llvm_extract_bool_bit_from_array(GenContext *c, BEValue *be_v
 	LLVMTypeRef array_type = llvm_get_type(c, type_char);
 	unsigned start_bit = member->var.start_bit;
 	// Grab the byte
-	LLVMValueRef byte_ptr = llvm_emit_array_gep_raw(c, array_ptr, llvm_get_type(c, be_value->type),
+	LLVMValueRef byte_ptr = llvm_emit_array_gep_raw(c, array_ptr, LLVMArrayType(c->byte_type, start_bit / 8 + 1),
 													start_bit / 8, be_value->alignment, &alignment);
 	LLVMValueRef element = llvm_load(c, array_type, byte_ptr, alignment, "");
 	// Shift the bit to the zero position.
@@ -964,7 +964,7 @@ static inline void llvm_extract_bitvalue_from_array(GenContext *c, BEValue *be_v
 	for (int i = start_byte; i <= end_byte; i++)
 	{
 		AlignSize alignment;
-		LLVMValueRef byte_ptr = llvm_emit_array_gep_raw(c, array_ptr, llvm_get_type(c, be_value->type),
+		LLVMValueRef byte_ptr = llvm_emit_array_gep_raw(c, array_ptr, LLVMArrayType(c->byte_type, end_byte + 1),
 														(unsigned)i, be_value->alignment, &alignment);
 		LLVMValueRef element = llvm_load(c, array_type, byte_ptr, alignment, "");
 		element = llvm_zext_trunc(c, element, llvm_member_type);
@@ -1061,6 +1061,8 @@ static inline void llvm_emit_update_bitstruct_array(GenContext *c,
 	unsigned start_bit = member->var.start_bit;
 	unsigned end_bit = member->var.end_bit;
 
+	// The storage is accessed as bytes, whatever the type of its elements.
+	array_type = LLVMArrayType(c->byte_type, end_bit / 8 + 1);
 	Type *member_type = type_flatten(member->type);
 	if (member_type == type_bool)
 	{
@@ -1874,7 +1876,7 @@ LLVMValueRef llvm_emit_const_bitstruct_array(GenContext *c, ConstInitializer *in
 {
 	Decl *decl = initializer->type->decl;
 	Type *base_type = decl->strukt.container_type->type;
-	unsigned elements = base_type->array.len;
+	unsigned elements = (unsigned)type_size(base_type);
 	LLVMValueRef stack_data[MAX_AGG];
 	LLVMValueRef* slots = elements > MAX_AGG ? MALLOC(elements * sizeof(LLVMValueRef)) : stack_data;
 	for (unsigned i = 0; i < elements; i++)
@@ -1943,7 +1945,25 @@ LLVMValueRef llvm_emit_const_bitstruct_array(GenContext *c, ConstInitializer *in
 			slots[(unsigned)j] = llvm_emit_or_raw(c, to_or, current_value);
 		}
 	}
-	return llvm_get_array(c->byte_type, slots, elements);
+	Type *element_type = type_lowering(base_type->array.base);
+	unsigned element_size = (unsigned)type_size(element_type);
+	if (element_size == 1) return llvm_get_array(c->byte_type, slots, elements);
+
+	// Build the elements from their bytes.
+	LLVMTypeRef llvm_element_type = llvm_get_type(c, element_type);
+	unsigned len = elements / element_size;
+	for (unsigned i = 0; i < len; i++)
+	{
+		LLVMValueRef value = llvm_get_zero_raw(llvm_element_type);
+		for (unsigned j = 0; j < element_size; j++)
+		{
+			LLVMValueRef byte = llvm_zext_trunc(c, slots[i * element_size + j], llvm_element_type);
+			unsigned position = compiler.platform.big_endian ? element_size - 1 - j : j;
+			value = llvm_emit_or_raw(c, value, llvm_emit_shl_fixed(c, byte, (int)position * 8));
+		}
+		slots[i] = value;
+	}
+	return llvm_get_array(llvm_element_type, slots, len);
 }
 
 LLVMValueRef llvm_emit_const_bitstruct(GenContext *c, ConstInitializer *initializer)
-- 
2.43.0


From 88d8112d78cabc89808f6101b9567387ed62e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:55 +0000
Subject: [PATCH 49/64] fix: elements after an anonymous member of a struct
 literal got the wrong values

---
 src/compiler/sema_initializers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index 85fa8eb..b3b4a94 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -259,6 +259,8 @@ static inline bool sema_expr_analyse_struct_plain_initializer(SemaContext *conte
 				vec_add(new_initializer->initializer_list, elements[j]);
 			}
 			int reduce_by = max_index_to_copy - i - 1;
+			// The elements after those of the anonymous member move up.
+			for (int j = max_index_to_copy; j < size; j++) elements[j - reduce_by] = elements[j];
 			size -= reduce_by;
 			elements_needed -= reduce_by;
 			max_loop = size > elements_needed ? size : elements_needed;
-- 
2.43.0


From 3d09527d4877bf03840587c773362cb97e7dcecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 50/64] fix: a vector inside of a vector literal was expanded
 with its second lane

---
 src/compiler/sema_initializers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index b3b4a94..da9dbe7 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -390,7 +390,7 @@ static inline bool sema_expr_analyse_array_plain_initializer(SemaContext *contex
 				{
 					sub = expr_new_expr(EXPR_SUBSCRIPT, element);
 					sub->subscript_expr.expr = exprid(expr_variable(decl));
-					sub->subscript_expr.index.expr = exprid(expr_new_const_int(element->span, type_usz, 1));
+					sub->subscript_expr.index.expr = exprid(expr_new_const_int(element->span, type_usz, j));
 					vec_insert_at(elements, i + j, sub);
 					if (!sema_analyse_expr_rhs(context, inner_type, sub, true, NULL, false)) return false;
 				}
-- 
2.43.0


From 79f350276c84167396a1278c0438ac1d30d188f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 51/64] fix: constant designators of elements set by a range or
 a full literal changed each other or crashed

---
 src/compiler/sema_initializers.c | 47 ++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index da9dbe7..3598595 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -875,8 +875,8 @@ void const_init_rewrite_to_value(ConstInitializer *const_init, Expr *value)
 	// overwrite what is inside, eg [1] = { .a = 1 }
 	if (expr_is_const_initializer(value))
 	{
-		*const_init = *value->const_expr.initializer;
-		value->const_expr.initializer = const_init;
+		// The parts are copied, since a later designator may change them, e.g. [0..1] = { .a = 1 }, [1].a = 2
+		*const_init = *copy_expr_single(value)->const_expr.initializer;
 		ASSERT(type_flatten(value->type)->type_kind != TYPE_SLICE);
 		return;
 	}
@@ -1129,6 +1129,41 @@ void const_init_rewrite_array_at(ConstInitializer *const_init, Expr *value, Arra
 	const_init_rewrite_to_value(inner_value, value);
 }
 
+/**
+ * Expand an array or vector which is a single value, e.g. { .x = "abc", .x[1] = 'z' }
+ */
+static inline void const_init_expand_array_value(ConstInitializer *const_init)
+{
+	Expr *value = const_init->init_value;
+	Type *element_type = const_init->type->array.base;
+	ArraySize len = const_init->type->array.len;
+	ConstInitializer **elements = NULL;
+	switch (value->expr_kind)
+	{
+		case EXPR_SCALAR_TO_VECTOR:
+			for (ArraySize i = 0; i < len; i++)
+			{
+				vec_add(elements, const_init_new_value(copy_expr_single(value->inner_expr)));
+			}
+			break;
+		case EXPR_CONST:
+			ASSERT(value->const_expr.const_kind == CONST_STRING || value->const_expr.const_kind == CONST_BYTES);
+			for (ArraySize i = 0; i < len; i++)
+			{
+				ArraySize bytes_len = value->const_expr.bytes.len;
+				unsigned char byte = i < bytes_len ? (unsigned char)value->const_expr.bytes.ptr[i] : 0;
+				Expr *element = expr_new_const_int(value->span, type_char, byte);
+				cast_no_check(element, element_type, false);
+				vec_add(elements, const_init_new_value(element));
+			}
+			break;
+		default:
+			UNREACHABLE
+	}
+	const_init->kind = CONST_INIT_ARRAY_FULL;
+	const_init->init_array_full = elements;
+}
+
 /**
  * Update an array { [2] = 1 }
  */
@@ -1149,6 +1184,8 @@ static inline void sema_update_const_initializer_with_designator_array(ConstInit
 		const_init->init_array.elements = NULL;
 	}
 
+	if (const_init->kind == CONST_INIT_VALUE) const_init_expand_array_value(const_init);
+
 	Type *element_type = type_flatten(const_init->type->array.base);
 	DesignatorElement **next_element = curr + 1;
 	bool is_last_path_element = next_element == end;
@@ -1159,7 +1196,9 @@ static inline void sema_update_const_initializer_with_designator_array(ConstInit
 
 	for (ArrayIndex index = low_index; index <= high_index; index++)
 	{
-		ConstInitializer *inner_value = sema_update_const_initializer_at_index(const_init, element_type, index, &insert_index);
+		ConstInitializer *inner_value = const_init->kind == CONST_INIT_ARRAY_FULL
+			? const_init->init_array_full[index]
+			: sema_update_const_initializer_at_index(const_init, element_type, index, &insert_index);
 
 		// Update
 		if (!is_last_path_element)
@@ -1215,6 +1254,8 @@ static Type *sema_expr_analyse_designator(SemaContext *context, Type *current, E
 		current = new_current;
 		*member_ptr = member_found;
 	}
+	// Elements for anonymous members may have been inserted.
+	expr->designator_expr.path = path;
 	return current;
 }
 
-- 
2.43.0


From 39a89135b3b387bff002869f9b99c82cbdecce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:15 +0000
Subject: [PATCH 52/64] fix: unions with a vector of more than 16 bytes hit an
 assertion in the x64 ABI

---
 src/compiler/abi/c_abi_x64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/abi/c_abi_x64.c b/src/compiler/abi/c_abi_x64.c
index 744c3d7..4432336 100644
--- a/src/compiler/abi/c_abi_x64.c
+++ b/src/compiler/abi/c_abi_x64.c
@@ -218,6 +218,8 @@ void x64_classify_post_merge(ByteSize size, X64Class *lo_class, X64Class *hi_cla
 
 	DEFAULT_TO_MEMORY:
 	*lo_class = CLASS_MEMORY;
+	// An SSEUP is always preceded by SSE.
+	if (*hi_class == CLASS_SSEUP) *hi_class = CLASS_SSE;
 }
 
 void x64_classify_struct_union(Type *type, ByteSize offset_base, X64Class *current, X64Class *lo_class, X64Class *hi_class, NamedArgument named_arg)
-- 
2.43.0


From 5e1b367dc1cfbfdd7c409bf1d12c5b669b95c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:15 +0000
Subject: [PATCH 53/64] fix: designated constant vectors were emitted as
 structs

---
 src/compiler/llvm_codegen.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/compiler/llvm_codegen.c b/src/compiler/llvm_codegen.c
index 0eb9458..7d22ccc 100644
--- a/src/compiler/llvm_codegen.c
+++ b/src/compiler/llvm_codegen.c
@@ -281,6 +281,16 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			unsigned alignment = 0;
 			LLVMValueRef *parts = NULL;
 			bool pack = false;
+			if (array_type->type_kind == TYPE_VECTOR)
+			{
+				// A vector always has all of its elements.
+				for (ArraySize i = 0; i < array_type->array.len; i++) vec_add(parts, llvm_get_zero(c, element_type));
+				FOREACH(ConstInitializer *, element, elements)
+				{
+					parts[element->init_array_value.index] = llvm_emit_const_initializer(c, element->init_array_value.element);
+				}
+				return LLVMConstVector(parts, vec_size(parts));
+			}
 			FOREACH(ConstInitializer *, element, elements)
 			{
 				ASSERT(element->kind == CONST_INIT_ARRAY_VALUE);
@@ -311,10 +321,6 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			{
 				return llvm_get_unnamed_struct(c, parts, pack);
 			}
-			if (type_flat_is_vector(array_type))
-			{
-				return LLVMConstVector(parts, vec_size(parts));
-			}
 			return llvm_get_array(element_type_llvm, parts, vec_size(parts));
 		}
 		case CONST_INIT_UNION:
-- 
2.43.0


From 656b76ef3b60f4c25071b63fb330486517d5780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:15 +0000
Subject: [PATCH 54/64] fix: bool vectors made from run-time values, and ! of
 bool vectors, gave invalid LLVM IR

---
 src/compiler/llvm_codegen_expr.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 054d092..97ec0b3 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1553,8 +1553,8 @@ static inline void llvm_emit_initialize_reference_vector(GenContext *c, BEValue
 	FOREACH_IDX(i, Expr *, element, elements)
 	{
 		llvm_emit_expr(c, &element_val, element);
-		llvm_value_rvalue(c, &element_val);
-		vector_val = LLVMBuildInsertElement(c->builder, vector_val, element_val.value, llvm_const_int(c, type_usz, i), "");
+		LLVMValueRef lane = llvm_load_value_store(c, &element_val);
+		vector_val = LLVMBuildInsertElement(c->builder, vector_val, lane, llvm_const_int(c, type_usz, i), "");
 	}
 	llvm_store_raw(c, ref, vector_val);
 }
@@ -2438,16 +2438,16 @@ static void llvm_emit_unary_expr(GenContext *c, BEValue *value, Expr *expr)
 			llvm_emit_expr(c, value, inner);
 			if (type_flat_is_vector(type))
 			{
-				llvm_value_rvalue(c, value);
+				LLVMValueRef vector = llvm_load_value_store(c, value);
 				Type *vec_type = type_vector_type(type);
 				LLVMValueRef llvm_value;
 				if (type_is_float(vec_type))
 				{
-					llvm_value = LLVMBuildFCmp(c->builder, LLVMRealUEQ, value->value, llvm_get_zero(c, type), "not");
+					llvm_value = LLVMBuildFCmp(c->builder, LLVMRealUEQ, vector, llvm_get_zero(c, type), "not");
 				}
 				else
 				{
-					llvm_value = LLVMBuildICmp(c->builder, LLVMIntEQ, value->value, llvm_get_zero(c, type), "not");
+					llvm_value = LLVMBuildICmp(c->builder, LLVMIntEQ, vector, llvm_get_zero(c, type), "not");
 				}
 				Type *res_type = type_get_vector_bool(type);
 				llvm_value = LLVMBuildSExt(c->builder, llvm_value, llvm_get_type(c, res_type), "");
@@ -6298,8 +6298,7 @@ static inline void llvm_emit_vector_initializer_list(GenContext *c, BEValue *val
 		FOREACH_IDX(i, Expr *, element, elements)
 		{
 			llvm_emit_expr(c, &val, element);
-			llvm_value_rvalue(c, &val);
-			vec_value = llvm_update_vector(c, vec_value, val.value, (ArrayIndex)i);
+			vec_value = llvm_update_vector(c, vec_value, llvm_load_value_store(c, &val), (ArrayIndex)i);
 		}
 	}
 	else
@@ -6312,18 +6311,18 @@ static inline void llvm_emit_vector_initializer_list(GenContext *c, BEValue *val
 			ASSERT(vec_size(designator->designator_expr.path) == 1);
 			DesignatorElement *element = designator->designator_expr.path[0];
 			llvm_emit_expr(c, &val, designator->designator_expr.value);
-			llvm_value_rvalue(c, &val);
+			LLVMValueRef lane = llvm_load_value_store(c, &val);
 			switch (element->kind)
 			{
 				case DESIGNATOR_ARRAY:
 				{
-					vec_value = llvm_update_vector(c, vec_value, val.value, element->index);
+					vec_value = llvm_update_vector(c, vec_value, lane, element->index);
 					break;
 				}
 				case DESIGNATOR_RANGE:
 					for (ArrayIndex idx = element->index; idx <= element->index_end; idx++)
 					{
-						vec_value = llvm_update_vector(c, vec_value, val.value, idx);
+						vec_value = llvm_update_vector(c, vec_value, lane, idx);
 					}
 					break;
 				case DESIGNATOR_FIELD:
@@ -7009,12 +7008,12 @@ void llvm_emit_scalar_to_vector(GenContext *c, BEValue *value, Expr *expr)
 static inline void llvm_emit_vector_to_array(GenContext *c, BEValue *value, Expr *expr)
 {
 	llvm_emit_expr(c, value, expr->inner_expr);
-	llvm_value_rvalue(c, value);
+	LLVMValueRef vector = llvm_load_value_store(c, value);
 	Type *to_type = type_lowering(expr->type);
 	LLVMValueRef array = llvm_get_undef(c, to_type);
 	for (unsigned i = 0; i < to_type->array.len; i++)
 	{
-		LLVMValueRef element = llvm_emit_extract_value(c, value->value, i);
+		LLVMValueRef element = llvm_emit_extract_value(c, vector, i);
 		array = llvm_emit_insert_value(c, array, element, i);
 	}
 	llvm_value_set(value, array, to_type);
-- 
2.43.0


From 3fb7f943aecda570cf2ccc364bf0bf863914c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 55/64] fix: designators of bitstruct members inside of arrays
 crashed the compiler

---
 src/compiler/llvm_codegen_expr.c | 78 +++++++++++++++++---------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 97ec0b3..32a7ddd 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -42,7 +42,7 @@ static void llvm_emit_any_pointer(GenContext *c, BEValue *any, BEValue *pointer)
 static void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs_loaded, BinaryOp binary_op);
 static void llvm_emit_call_expr(GenContext *c, BEValue *result_value, Expr *expr, BEValue *target);
 static void llvm_emit_const_expr(GenContext *c, BEValue *be_value, Expr *expr);
-static void llvm_emit_initialize_designated_element(GenContext *c, BEValue *ref, AlignSize offset, DesignatorElement** current, DesignatorElement **last, Expr *expr, BEValue *emitted_value);
+static void llvm_emit_initialize_designated_element(GenContext *c, BEValue *ref, Type *type, AlignSize offset, DesignatorElement** current, DesignatorElement **last, Expr *expr, BEValue *emitted_value);
 static void llvm_emit_macro_body_expansion(GenContext *c, BEValue *value, Expr *body_expr);
 static void llvm_emit_post_unary_expr(GenContext *context, BEValue *be_value, Expr *expr);
 static void llvm_emit_unary_expr(GenContext *c, BEValue *value, Expr *expr);
@@ -1669,7 +1669,7 @@ static inline void llvm_emit_initialize_reference_list(GenContext *c, BEValue *r
 	}
 }
 
-static void llvm_emit_initialize_designated_const_range(GenContext *c, BEValue *ref, AlignSize offset, DesignatorElement** current, DesignatorElement **last, Expr *expr, BEValue *emitted_value)
+static void llvm_emit_initialize_designated_const_range(GenContext *c, BEValue *ref, Type *type, AlignSize offset, DesignatorElement** current, DesignatorElement **last, Expr *expr, BEValue *emitted_value)
 {
 	DesignatorElement *curr = current[0];
 	llvm_value_addr(c, ref);
@@ -1689,11 +1689,12 @@ static void llvm_emit_initialize_designated_const_range(GenContext *c, BEValue *
 		AlignSize alignment;
 		LLVMValueRef ptr = llvm_emit_array_gep_raw(c, ref->value, ref_type, (unsigned)i, ref->alignment, &alignment);
 		llvm_value_set_address(&new_ref, ptr, type_get_indexed_type(ref->type), alignment);
-		llvm_emit_initialize_designated_element(c, &new_ref, offset, current + 1, last, expr, emitted_value);
+		llvm_emit_initialize_designated_element(c, &new_ref, type_flatten(type->array.base), offset, current + 1, last, expr, emitted_value);
 	}
 }
 
-static void llvm_emit_initialize_designated_element(GenContext *c, BEValue *ref, AlignSize offset, DesignatorElement** current,
+// The type is the flattened type of the ref, which unlike the type of the ref itself isn't lowered.
+static void llvm_emit_initialize_designated_element(GenContext *c, BEValue *ref, Type *type, AlignSize offset, DesignatorElement** current,
                                                     DesignatorElement **last, Expr *expr, BEValue *emitted_value)
 {
 	BEValue value;
@@ -1724,60 +1725,63 @@ static void llvm_emit_initialize_designated_element(GenContext *c, BEValue *ref,
 	{
 		case DESIGNATOR_FIELD:
 		{
-			Decl *decl = ref->type->canonical->decl->strukt.members[curr->index];
-			offset += decl->offset;
-			Type *type = type_flatten(decl->type);
-			unsigned decl_alignment = decl->alignment;
-			if (ref->type->type_kind == TYPE_UNION)
-			{
-				llvm_value_set_address(&value,
-									   ref->value,
-									   type,
-									   type_min_alignment(offset, decl_alignment));
-			}
-			else
+			Decl *decl = type->decl->strukt.members[curr->index];
+			if (type->type_kind == TYPE_BITSTRUCT)
 			{
-				llvm_value_struct_gep(c, &value, ref, (unsigned) curr->index);
-			}
-			if (type->type_kind == TYPE_BITSTRUCT && last == current + 1)
-			{
-				ASSERT(llvm_value_is_addr(&value));
-				Decl *member = type->decl->strukt.members[last[0]->index];
 				// Special handling of bitstructs.
-				Type *underlying_type = value.type;
-				ASSERT(!emitted_value);
+				ASSERT(current == last);
+				ASSERT(llvm_value_is_addr(ref));
+				Type *underlying_type = type_lowering(type);
 				BEValue exprval;
-				llvm_emit_expr(c, &exprval, expr);
-				LLVMValueRef val = llvm_load_value_store(c, &exprval);
+				if (!emitted_value)
+				{
+					llvm_emit_expr(c, &exprval, expr);
+					emitted_value = &exprval;
+				}
+				LLVMValueRef val = llvm_load_value_store(c, emitted_value);
 				LLVMTypeRef bitstruct_type = llvm_get_type(c, underlying_type);
 				bool is_bitswap = bitstruct_requires_bitswap(type->decl);
 				if (underlying_type->type_kind == TYPE_ARRAY)
 				{
-					llvm_emit_update_bitstruct_array(c, value.value, value.alignment, bitstruct_type, is_bitswap, member, val);
+					llvm_emit_update_bitstruct_array(c, ref->value, ref->alignment, bitstruct_type, is_bitswap, decl, val);
 					break;
 				}
-				LLVMValueRef current_val = llvm_load_value(c, &value);
+				ref->type = underlying_type;
+				LLVMValueRef current_val = llvm_load_value(c, ref);
 				if (is_bitswap) current_val = llvm_emit_bswap(c, current_val);
-				current_val = llvm_emit_bitstruct_value_update(c, current_val, type_bit_size(underlying_type), bitstruct_type, member, val);
+				current_val = llvm_emit_bitstruct_value_update(c, current_val, type_bit_size(underlying_type), bitstruct_type, decl, val);
 				if (is_bitswap) current_val = llvm_emit_bswap(c, current_val);
-				llvm_store_raw(c, &value, current_val);
+				llvm_store_raw(c, ref, current_val);
 				break;
 			}
-			llvm_emit_initialize_designated_element(c, &value, offset, current + 1, last, expr, emitted_value);
+			offset += decl->offset;
+			Type *member_type = type_flatten(decl->type);
+			if (type->type_kind == TYPE_UNION)
+			{
+				llvm_value_set_address(&value,
+									   ref->value,
+									   type_lowering(member_type),
+									   type_min_alignment(offset, decl->alignment));
+			}
+			else
+			{
+				llvm_value_struct_gep(c, &value, ref, (unsigned) curr->index);
+			}
+			llvm_emit_initialize_designated_element(c, &value, member_type, offset, current + 1, last, expr, emitted_value);
 			break;
 		}
 		case DESIGNATOR_ARRAY:
 		{
-			Type *type = ref->type->array.base;
-			offset += (unsigned)curr->index * type_size(type);
+			Type *element_type = ref->type->array.base;
+			offset += (unsigned)curr->index * type_size(element_type);
 			AlignSize alignment;
 			LLVMValueRef ptr = llvm_emit_array_gep_raw(c, ref->value, llvm_get_type(c, ref->type), (unsigned)curr->index, ref->alignment, &alignment);
-			llvm_value_set_address(&value, ptr, type, alignment);
-			llvm_emit_initialize_designated_element(c, &value, offset, current + 1, last, expr, emitted_value);
+			llvm_value_set_address(&value, ptr, element_type, alignment);
+			llvm_emit_initialize_designated_element(c, &value, type_flatten(type->array.base), offset, current + 1, last, expr, emitted_value);
 			break;
 		}
 		case DESIGNATOR_RANGE:
-			llvm_emit_initialize_designated_const_range(c, ref, offset, current, last, expr, emitted_value);
+			llvm_emit_initialize_designated_const_range(c, ref, type, offset, current, last, expr, emitted_value);
 			break;
 		default:
 			UNREACHABLE
@@ -1857,7 +1861,7 @@ static inline void llvm_emit_initialize_reference_designated(GenContext *c, BEVa
 	FOREACH(Expr *, designator, elements)
 	{
 		DesignatorElement **last_element = designator->designator_expr.path + vec_size(designator->designator_expr.path) - 1;
-		llvm_emit_initialize_designated_element(c, ref, 0, designator->designator_expr.path, last_element,
+		llvm_emit_initialize_designated_element(c, ref, type, 0, designator->designator_expr.path, last_element,
 		                                        designator->designator_expr.value, NULL);
 	}
 }
-- 
2.43.0


From c39f5c44277f39ff411000f36ad205da11bd75c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 56/64] fix: the start of a range with a constant start from
 the end and a run-time end was not reversed

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 1ae8ed5..0af0b9b 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3719,6 +3719,8 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 			}
 			if (start_index > MAX_ARRAYINDEX || start_index < -MAX_ARRAYINDEX) return true;
 			range->start_from_end = false;
+			// The start is still used when the end is not constant.
+			expr_rewrite_const_int(start, start->type, start_index);
 		}
 		if (start_index < 0 && env != RANGE_PTR)
 		{
-- 
2.43.0


From d52ae90bbd8902aeccb3b9b899406cb097e037d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 57/64] fix: indexing, slicing or iterating over a constant
 array made from a shorter string

---
 src/compiler/sema_expr.c  | 20 ++++++++++++++------
 src/compiler/sema_stmts.c |  8 ++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 0af0b9b..fb5febd 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3539,19 +3539,22 @@ static inline bool sema_expr_analyse_subscript(SemaContext *context, Expr *expr,
 				if (!is_const_initializer)
 				{
 					// Handle bytes / String
-					ArraySize len = current_expr->const_expr.bytes.len;
+					ArraySize bytes_len = current_expr->const_expr.bytes.len;
+					// The bytes may be shorter than the array, in which case the rest is zero.
+					ArraySize len = type_is_arraylike(current_type) ? current_type->array.len : bytes_len;
 					if (idx > len || (idx == len && !start_from_end) || (idx == 0 && start_from_end))
 					{
 						if (check_valid) goto VALID_FAIL_POISON;
 						RETURN_SEMA_ERROR(index, "The index (%s%llu) is out of range, the length is just %llu.",
 										  start_from_end ? "^" : "",
 										  (unsigned long long)idx,
-										  (unsigned long long)current_expr->const_expr.bytes.len);
+										  (unsigned long long)len);
 					}
 					if (start_from_end) idx = len - idx;
-					unsigned char c = current_expr->const_expr.bytes.ptr[idx];
+					unsigned char c = idx < bytes_len ? (unsigned char)current_expr->const_expr.bytes.ptr[idx] : 0;
 					expr_rewrite_const_int(expr, type_char, c);
 					expr->type = type_char;
+					if (type_flatten(subscript_type) != type_char) cast_no_check(expr, subscript_type, false);
 					return true;
 				}
 				if (sema_subscript_rewrite_index_const_list(current_expr, idx, start_from_end, expr)) return true;
@@ -3903,10 +3906,15 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 			}
 			case CONST_BYTES:
 			{
-				char *data = range->len_index ? malloc_arena(range->len_index) : NULL;
-				if (data)
+				// The bytes may be shorter than the array, in which case the rest is zero.
+				char *data = range->len_index ? calloc_arena(range->len_index) : NULL;
+				ArraySize bytes_len = subscripted->const_expr.bytes.len;
+				ArraySize start_index = (ArraySize)range->start_index;
+				if (data && start_index < bytes_len)
 				{
-					memcpy(data, subscripted->const_expr.bytes.ptr + range->start_index, range->len_index);
+					ArraySize to_copy = bytes_len - start_index;
+					if (to_copy > (ArraySize)range->len_index) to_copy = (ArraySize)range->len_index;
+					memcpy(data, subscripted->const_expr.bytes.ptr + start_index, to_copy);
 				}
 				subscripted->const_expr.bytes.ptr = data;
 				subscripted->const_expr.bytes.len = range->len_index;
diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 81e0609..c3305cd 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2626,6 +2626,7 @@ static inline bool sema_analyse_ct_foreach_stmt(SemaContext *context, Ast *state
 	Expr **expressions = NULL;
 	Type *const_list_type = NULL;
 	const char *bytes = NULL;
+	unsigned bytes_len = 0;
     Type *bytes_type = NULL;
     switch (collection->const_expr.const_kind)
 	{
@@ -2681,7 +2682,10 @@ static inline bool sema_analyse_ct_foreach_stmt(SemaContext *context, Ast *state
 		case CONST_BYTES:
 		case CONST_STRING:
 			bytes = collection->const_expr.bytes.ptr;
-			count = collection->const_expr.bytes.len;
+			bytes_len = count = collection->const_expr.bytes.len;
+			// The bytes may be shorter than the array, in which case the rest is zero.
+			const_list_type = type_flatten(collection->type);
+			if (type_is_arraylike(const_list_type)) count = const_list_type->array.len;
 			bytes_type = type_get_indexed_type(collection->type);
 			break;
 	}
@@ -2710,7 +2714,7 @@ static inline bool sema_analyse_ct_foreach_stmt(SemaContext *context, Ast *state
 		else if (bytes)
 		{
 			value->var.init_expr = expr_new(EXPR_CONST, collection->span);
-			expr_rewrite_const_int(value->var.init_expr, bytes_type, bytes[i]);
+			expr_rewrite_const_int(value->var.init_expr, bytes_type, i < bytes_len ? bytes[i] : 0);
 		}
 		else
 		{
-- 
2.43.0


From 2bd89a43b9918caf7ed33978fb90f25e0bc0b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 58/64] fix: slicing a designated constant gave the wrong
 elements and changed the constant

---
 src/compiler/sema_expr.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index fb5febd..e37d71d 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3813,6 +3813,12 @@ static inline bool sema_expr_analyse_range(SemaContext *context, Range *range, A
 static inline void sema_slice_initializer(Expr *expr, Expr *subscripted, Range *range)
 {
 	ConstInitializer *initializer = subscripted->const_expr.initializer;
+	if (initializer->kind != CONST_INIT_ARRAY_FULL)
+	{
+		// The initializer may be that of a constant, so work on a copy.
+		subscripted = copy_expr_single(subscripted);
+		initializer = subscripted->const_expr.initializer;
+	}
 	ASSERT(type_is_arraylike(initializer->type));
 	Type *new_type = type_get_slice(type_get_indexed_type(subscripted->type));
 	// Turn zero length into an untyped list.
@@ -3846,7 +3852,9 @@ static inline void sema_slice_initializer(Expr *expr, Expr *subscripted, Range *
 					vec_erase_at(initializer->init_array.elements, i);
 					elements--;
 					i--;
+					continue;
 				}
+				element->init_array_value.index = index - range->start_index;
 			}
 			if (vec_size(initializer->init_array.elements) == 0)
 			{
@@ -3899,11 +3907,14 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 		switch (subscripted->const_expr.const_kind)
 		{
 			case CONST_STRING:
-			{
-				const char *data = str_copy(subscripted->const_expr.bytes.ptr + range->start_index, range->len_index);
-				expr_rewrite_const_string(expr, data);
-				return true;
-			}
+				if (type->type_kind == TYPE_SLICE || range->start_index + range->len_index <= (ArrayIndex)subscripted->const_expr.bytes.len)
+				{
+					const char *data = str_copy(subscripted->const_expr.bytes.ptr + range->start_index, range->len_index);
+					expr_rewrite_const_string(expr, data);
+					return true;
+				}
+				subscripted->const_expr.const_kind = CONST_BYTES;
+				FALLTHROUGH;
 			case CONST_BYTES:
 			{
 				// The bytes may be shorter than the array, in which case the rest is zero.
@@ -4863,6 +4874,20 @@ static inline bool sema_expr_fold_to_index(Expr *expr, Expr *parent, SubscriptIn
 	return true;
 }
 
+/**
+ * Find the position of the member, or of the anonymous member it is inside of.
+ */
+static int sema_find_member_index(Decl *decl, Decl *member)
+{
+	FOREACH_IDX(i, Decl *, other_member, decl->strukt.members)
+	{
+		if (other_member == member) return (int)i;
+		if (other_member->name || other_member->decl_kind == DECL_VAR) continue;
+		if (sema_find_member_index(other_member, member) >= 0) return (int)i;
+	}
+	return -1;
+}
+
 static inline bool sema_expr_fold_to_member(Expr *expr, Expr *parent, Decl *member)
 {
 	ConstInitializer *init = parent->const_expr.initializer;
-- 
2.43.0


From 5fe72ad1f9f133c1ed515d8d439c19d78f2b80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:25 +0000
Subject: [PATCH 59/64] fix: reading a member inside of an anonymous member of
 a constant crashed the compiler

---
 src/compiler/sema_expr.c | 57 ++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index e37d71d..9ca80c8 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -4864,6 +4864,8 @@ static inline bool sema_expr_fold_to_index(Expr *expr, Expr *parent, SubscriptIn
 			expr->const_expr.const_kind = CONST_INITIALIZER;
 			expr->const_expr.initializer = result;
 			expr->type = type_get_indexed_type(parent->type);
+			// The part must not be shared with the parent, as it may be changed later.
+			expr_replace(expr, copy_expr_single(expr));
 			break;
 		case CONST_INIT_ARRAY_VALUE:
 			UNREACHABLE
@@ -4891,35 +4893,38 @@ static int sema_find_member_index(Decl *decl, Decl *member)
 static inline bool sema_expr_fold_to_member(Expr *expr, Expr *parent, Decl *member)
 {
 	ConstInitializer *init = parent->const_expr.initializer;
-	ConstInitializer *result;
-	switch (init->kind)
+	ConstInitializer *result = init;
+	Decl *decl = type_flatten(parent->type)->decl;
+	while (true)
 	{
-		case CONST_INIT_ZERO:
-			result = init;
-			goto EVAL;
-		case CONST_INIT_STRUCT:
+		int index = sema_find_member_index(decl, member);
+		ASSERT_SPAN(expr, index >= 0);
+		Decl *found = decl->strukt.members[index];
+		switch (init->kind)
 		{
-			FOREACH_IDX(i, Decl *, other_member, type_flatten(parent->type)->decl->strukt.members)
-			{
-				if (other_member == member)
-				{
-					result = init->init_struct[i];
-					goto EVAL;
-				}
-			}
-			UNREACHABLE
+			case CONST_INIT_ZERO:
+				result = init;
+				goto EVAL;
+			case CONST_INIT_STRUCT:
+				result = init->init_struct[index];
+				break;
+			case CONST_INIT_UNION:
+				if (init->init_union.index != index) return false;
+				result = init->init_union.element;
+				break;
+			case CONST_INIT_VALUE:
+			case CONST_INIT_ARRAY:
+			case CONST_INIT_ARRAY_FULL:
+			case CONST_INIT_ARRAY_VALUE:
+				UNREACHABLE;
 		}
-		case CONST_INIT_UNION:
-			if (type_flatten(parent->type)->decl->strukt.members[init->init_union.index] != member) return false;
-			result = init->init_union.element;
-			goto EVAL;
-		case CONST_INIT_VALUE:
-		case CONST_INIT_ARRAY:
-		case CONST_INIT_ARRAY_FULL:
-		case CONST_INIT_ARRAY_VALUE:
-			UNREACHABLE;
+		if (found == member) break;
+		// The member is inside of an anonymous member.
+		decl = found;
+		init = result;
+		// The value of a member may depend on the members it overlaps.
+		if (decl->decl_kind == DECL_BITSTRUCT && decl->strukt.overlap) return false;
 	}
-	UNREACHABLE
 EVAL:
 	switch (result->kind)
 	{
@@ -4934,6 +4939,8 @@ EVAL:
 			expr->const_expr.const_kind = CONST_INITIALIZER;
 			expr->const_expr.initializer = result;
 			expr->type = member->type;
+			// The part must not be shared with the parent, as it may be changed later.
+			expr_replace(expr, copy_expr_single(expr));
 			break;
 		case CONST_INIT_ARRAY_VALUE:
 			UNREACHABLE
-- 
2.43.0


From e481dd5789d94ba331f0adfa8e18e7e0ac2fb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:50 +0000
Subject: [PATCH 60/64] fix: clearing a small packed struct with padding left
 members uncleared

---
 src/compiler/llvm_codegen_storeload.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_storeload.c b/src/compiler/llvm_codegen_storeload.c
index 3576787..79fa864 100644
--- a/src/compiler/llvm_codegen_storeload.c
+++ b/src/compiler/llvm_codegen_storeload.c
@@ -142,7 +142,7 @@ LLVMValueRef llvm_store_zero(GenContext *c, BEValue *ref)
 			{
 				if (!type_size(member->type)) continue;
 				BEValue member_ref;
-				llvm_emit_struct_member_ref(c, ref, &member_ref, i);
+				llvm_value_struct_gep(c, &member_ref, ref, i);
 				llvm_store_zero(c, &member_ref);
 			}
 			return NULL;
-- 
2.43.0


From 02a1748d6ba514974f6978a4040a2add76fd870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:50 +0000
Subject: [PATCH 61/64] fix: reading an inactive union member of a constant in
 a static initializer crashed the compiler

---
 src/compiler/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/expr.c b/src/compiler/expr.c
index 6a6212d..f50150f 100644
--- a/src/compiler/expr.c
+++ b/src/compiler/expr.c
@@ -360,6 +360,8 @@ bool expr_is_runtime_const(Expr *expr)
 			goto RETRY;
 		case EXPR_ACCESS_RESOLVED:
 			expr = expr->access_resolved_expr.parent;
+			// Reading another member than the one that was set isn't folded, so it is never a constant.
+			if (type_flatten(expr->type)->type_kind == TYPE_UNION) return false;
 			goto RETRY;
 		case EXPR_BUILTIN_ACCESS:
 			switch (expr->builtin_access_expr.kind)
-- 
2.43.0


From 8257db51a859ad49afbc9de4617b6f1206e41552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:30 +0000
Subject: [PATCH 62/64] fix: a switch with more than 256 cases falling through
 crashed the compiler

---
 src/compiler/sema_stmts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index c3305cd..93c4b73 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2414,8 +2414,8 @@ static bool sema_analyse_switch_body(SemaContext *context, Ast *statement, Sourc
 			success = success && (!body || sema_analyse_compound_statement_no_scope(context, body));
 			POP_BREAK();
 			POP_NEXT();
-			if (!body && i < case_count - 1) continue;
-			all_jump_end &= context->active_scope.jump_end;
+			// A case without a body falls through to the next one.
+			if (body || i == case_count - 1) all_jump_end &= context->active_scope.jump_end;
 		SCOPE_END;
 	}
 	if (is_enum_switch && !exhaustive && success)
-- 
2.43.0


From 7aa8da59e0211a54a69eef64a80a9d1f74a45153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:30 +0000
Subject: [PATCH 63/64] fix: a dead block made the end of a function count as
 reachable

---
 src/compiler/sema_stmts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 93c4b73..1cf67d3 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -227,7 +227,7 @@ static inline bool sema_analyse_compound_stmt(SemaContext *context, Ast *stateme
 		ends_with_jump = context->active_scope.jump_end;
 	SCOPE_END;
 	// If this ends with a jump, then we know we don't need to certain analysis.
-	context->active_scope.jump_end = ends_with_jump;
+	if (ends_with_jump) context->active_scope.jump_end = true;
 	return success;
 }
 
-- 
2.43.0


From 1c4c17d34f278a04c467a31d6485da0991a9a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:30 +0000
Subject: [PATCH 64/64] fix: the label of the first statement inside of $if
 referred to another statement

---
 src/compiler/sema_stmts.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 1cf67d3..b1e42f6 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2094,6 +2094,18 @@ static inline bool sema_analyse_then_overwrite(SemaContext *context, Ast *statem
 	Ast *last = NULL;
 	AstId next = statement->next;
 	*statement = *astptr(replacement);
+	switch (statement->ast_kind)
+	{
+		case AST_FOR_STMT:
+		case AST_FOREACH_STMT:
+		case AST_IF_STMT:
+		case AST_SWITCH_STMT:
+			// The label must follow the statement to its new place.
+			if (statement->flow.label) declptr(statement->flow.label)->label.parent = astid(statement);
+			break;
+		default:
+			break;
+	}
 	AstId current = astid(statement);
 	ASSERT(current);
 	while (current)
-- 
2.43.0

