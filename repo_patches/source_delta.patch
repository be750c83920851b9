From 1b7b63648193c7edabc87348600367a79e38004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:56 +0000
Subject: [PATCH 01/52] fix: respect operator precedence across more than two
 levels

The tree rotation only looked at the last two operators, so 1 + 2 * 3 ^ 2 was
parsed as 1 + (2 * 3) ^ 2, 1 is 1 + 2 * 0 as (1 is 1 + 2) * 0 and a
parenthesised left operand could be split open. Parse binary operators by
precedence climbing instead, and report a unary operator without operand
instead of leaving a NULL operand for later phases to dereference.
---
 skull/parse/ast_node.c | 121 +++++++++++++++++++++++------------------
 1 file changed, 67 insertions(+), 54 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ad4c617..65ef6a6 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <stdbool.h>
 #include <string.h>
 
@@ -34,7 +35,7 @@ static void parse_ast_sub_tree_(ParserCtx *);
 static bool parse_ast_node(ParserCtx *);
 static void next_token(ParserCtx *);
 static AstNodeExpr *parse_single_expr(ParserCtx *);
-static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *);
+static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *, unsigned);
 static unsigned oper_to_precedence(ExprType);
 static AstNodeExpr *parse_root_expr(ParserCtx *);
 static bool is_unary_oper(ExprType);
@@ -661,35 +662,10 @@ Returns node if one was added, NULL otherwise.
 static AstNodeExpr *parse_expression(ParserCtx *ctx) {
 	if (!ctx->token) return NULL;
 
-	AstNodeExpr *head = parse_single_expr(ctx);
-	if (ctx->err) return NULL;
-
-	AstNodeExpr *current = head;
-	AstNodeExpr *last = NULL;
-
-	while (last != current) {
-		last = current;
-
-		current = parse_expr_rhs(ctx, current);
-		if (ctx->err) {
-			free_expr_node(head);
-			return NULL;
-		}
+	AstNodeExpr *expr = parse_single_expr(ctx);
+	if (!expr || ctx->err) return NULL;
 
-		const unsigned last_precedence = oper_to_precedence(last->oper);
-		const unsigned current_precedence = oper_to_precedence(current->oper);
-
-		if (last_precedence > current_precedence) {
-			current->lhs.expr = last->rhs;
-			last->rhs = current;
-
-			AstNodeExpr *tmp = last;
-			last = current;
-			current = tmp;
-		}
-	}
-
-	return last ? last : current;
+	return parse_expr_rhs(ctx, expr, UINT_MAX);
 }
 
 static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
@@ -717,10 +693,23 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	AstNodeExpr *rhs = parse_root_expr(ctx);
+
+	if (!rhs) {
+		if (!ctx->err) FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = last });
+
+		ctx->err = true;
+		return NULL;
+	}
+
+	// operators that bind tighter then the unary operator belong to its operand
+	rhs = parse_expr_rhs(ctx, rhs, oper_to_precedence(unary_oper));
+	if (ctx->err) return NULL;
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_root_expr(ctx)
+		.rhs = rhs
 	};
 
 	return expr;
@@ -765,37 +754,61 @@ static AstNodeExpr *parse_root_expr(ParserCtx *ctx) {
 	return NULL;
 }
 
-static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
-	if (!ctx->token) return expr;
+/*
+Parse all binary operators following `expr` which bind tighter then
+`max_precedence`, using `expr` as the left-most operand.
+*/
+static AstNodeExpr *parse_expr_rhs(
+	ParserCtx *ctx,
+	AstNodeExpr *expr,
+	unsigned max_precedence
+) {
+	while (ctx->token) {
+		const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
 
-	const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
+		if (oper == EXPR_UNKNOWN) break;
+		if (is_unary_oper(oper)) {
+			FMT_ERROR(ERR_UNEXPECTED_UNARY_EXPR, {
+				.loc = &ctx->token->location
+			});
 
-	if (oper == EXPR_UNKNOWN) return expr;
-	if (is_unary_oper(oper)) {
-		FMT_ERROR(ERR_UNEXPECTED_UNARY_EXPR, { .loc = &ctx->token->location });
-		ctx->err = true;
-		return NULL;
-	}
+			free_expr_node(expr);
+			ctx->err = true;
+			return NULL;
+		}
 
-	Token *oper_token = ctx->token;
-	next_token(ctx);
+		const unsigned precedence = oper_to_precedence(oper);
+		if (precedence >= max_precedence) break;
 
-	AstNodeExpr *rhs = parse_single_expr(ctx);
-	if (!rhs) {
-		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
+		Token *oper_token = ctx->token;
+		next_token(ctx);
 
-		ctx->err = true;
-		return expr;
-	}
+		AstNodeExpr *rhs = parse_single_expr(ctx);
+		if (!rhs) {
+			FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
 
-	AstNodeExpr *new_expr = Malloc(sizeof(AstNodeExpr));
-	*new_expr = (AstNodeExpr){
-		.lhs = { .expr = expr },
-		.oper = oper,
-		.rhs = rhs
-	};
+			free_expr_node(expr);
+			ctx->err = true;
+			return NULL;
+		}
 
-	return new_expr;
+		rhs = parse_expr_rhs(ctx, rhs, precedence);
+		if (ctx->err) {
+			free_expr_node(expr);
+			return NULL;
+		}
+
+		AstNodeExpr *new_expr = Malloc(sizeof(AstNodeExpr));
+		*new_expr = (AstNodeExpr){
+			.lhs = { .expr = expr },
+			.oper = oper,
+			.rhs = rhs
+		};
+
+		expr = new_expr;
+	}
+
+	return expr;
 }
 
 static unsigned oper_to_precedence(ExprType oper) {
-- 
2.43.0


From b5553c13e3706d500ad6ff2253ec77869481f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:11 +0000
Subject: [PATCH 02/52] fix: report errors at the end of the token list instead
 of crashing or failing silently

'export', 'x :=', 'x = ' and similar as the last thing in a file dereferenced a
NULL token; 'if' and 'namespace' at the end of a file failed without any
message, and 'namespace' took any token (even a newline) as its name.
---
 skull/parse/ast_node.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 65ef6a6..cdc276e 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -132,6 +132,7 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 		return RESULT_IGNORE;
 	}
 
+	const Token *assign_token = ctx->token;
 	AstNode *var_def_node = push_ast_node(ctx, first, AST_NODE_VAR_DEF);
 	next_token(ctx);
 
@@ -139,7 +140,11 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (ctx->err) return RESULT_ERROR;
 
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ?
+				&ctx->token->location :
+				&assign_token->location
+		});
 		return RESULT_ERROR;
 	}
 
@@ -211,12 +216,17 @@ static ParserResult parse_var_assign(ParserCtx *ctx) {
 	Token *last = ctx->token;
 	next_token(ctx);
 
+	const Token *assign_token = ctx->token;
 	AstNode *var_assign_node = push_ast_node(ctx, last, AST_NODE_VAR_ASSIGN);
 	next_token(ctx);
 
 	AstNodeExpr *expr = parse_expression(ctx);
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ?
+				&ctx->token->location :
+				&assign_token->location
+		});
 
 		return RESULT_ERROR;
 	}
@@ -273,7 +283,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 
 	if (is_external || is_export) next_token(ctx);
 
-	if (!AST_TOKEN_CMP2(ctx->token,
+	if (!ctx->token || !AST_TOKEN_CMP2(ctx->token,
 		TOKEN_IDENTIFIER,
 		TOKEN_PAREN_OPEN)
 	) {
@@ -411,7 +421,10 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 }
 
 static void parse_condition(ParserCtx *ctx, NodeType node_type) {
-	if (!ctx->token || !ctx->token->next) {
+	const Token *keyword = ctx->token;
+
+	if (!keyword->next) {
+		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = keyword });
 		ctx->err = true;
 		return;
 	}
@@ -422,7 +435,9 @@ static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	AstNodeExpr *expr = parse_expression(ctx);
 
 	if (!expr || ctx->err) {
-		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token });
+		FMT_ERROR(ERR_INVALID_EXPR, {
+			.tok = ctx->token ? ctx->token : keyword
+		});
 		ctx->err = true;
 
 		return;
@@ -449,12 +464,15 @@ static void parse_while(ParserCtx *ctx) {
 }
 
 static void parse_namespace(ParserCtx *ctx) {
-	if (!ctx->token || !ctx->token->next) {
+	Token *namespace_tok = ctx->token;
+	const Token *name = namespace_tok->next;
+
+	if (!name || name->type != TOKEN_IDENTIFIER) {
+		FMT_ERROR(ERR_UNEXPECTED_TOKEN, { .tok = name ? name : namespace_tok });
 		ctx->err = true;
 		return;
 	}
 
-	Token *namespace_tok = ctx->token;
 	ctx->token = ctx->token->next->next;
 	push_ast_node(ctx, namespace_tok, AST_NODE_NAMESPACE);
 }
-- 
2.43.0


From 66c27d4bfda92e162e2a4ec103dce7dd9734260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:35 +0000
Subject: [PATCH 03/52] fix: require an assignment after the type of a variable
 definition

---
 skull/parse/ast_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index cdc276e..a401599 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -116,7 +116,7 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (is_explicit_type(ctx)) {
 		is_implicit = false;
 
-		if (!ctx->token) {
+		if (!ctx->token || ctx->token->type != TOKEN_OPER_EQUAL) {
 			FMT_ERROR(ERR_MISSING_ASSIGNMENT, { .loc = &name_token->location });
 			return RESULT_ERROR;
 		}
-- 
2.43.0


From df3179479ef7cb68dc19a5510ccac9c93e5cb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:22 +0000
Subject: [PATCH 04/52] fix: do not assume that integer division is exact

---
 skull/codegen/llvm/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index cd1908c..12ba4bb 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -237,7 +237,7 @@ static Expr gen_expr_div(
 	const SkullStateLLVM *state
 ) {
 	return gen_expr_math_oper(
-		lhs, rhs, LLVMBuildExactSDiv, LLVMBuildFDiv, state
+		lhs, rhs, LLVMBuildSDiv, LLVMBuildFDiv, state
 	);
 }
 
-- 
2.43.0


From 96859dfc90870816bf0c2a46f688aa4f9ef8d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:27 +0000
Subject: [PATCH 05/52] fix: make the float power helper a function

---
 skull/shim.ll | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/shim.ll b/skull/shim.ll
index 250f2a9..489c06f 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -1,4 +1,7 @@
-@_float_pow = dso_local global double (double, double)* @pow, align 8
+define dso_local double @_float_pow(double %0, double %1) {
+  %3 = call double @pow(double %0, double %1)
+  ret double %3
+}
 
 define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   %3 = alloca i1, align 1
-- 
2.43.0


From 9a5157e215b236656a857e212f81d84ecb8d73e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:08 +0000
Subject: [PATCH 06/52] fix: only suppress warnings, not errors, when -q is
 used

---
 skull/common/errors.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/skull/common/errors.c b/skull/common/errors.c
index 908f795..12c17d8 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -16,6 +16,7 @@
 static char *fmt_message_internal(ErrorType, ErrorCode, Message []);
 static void message_stringify(Message *const);
 static void write_error_msg(char *);
+static bool is_warning(const char *);
 static char *get_location_str(const Message *);
 static char *get_error_msg(const Message[], size_t, ErrorCode);
 
@@ -260,6 +261,21 @@ void free_errors(void) {
 }
 
 static void write_error_msg(char *msg) {
-	if (!BUILD_DATA.quiet) fprintf(stderr, "%s", msg);
+	if (!BUILD_DATA.quiet || !is_warning(msg)) fprintf(stderr, "%s", msg);
 	free(msg);
 }
+
+/*
+Return whether the formatted message `msg` is a warning.
+*/
+static bool is_warning(const char *msg) {
+	char *prefix = uvsnprintf(
+		BUILD_DATA.color ? color_warning_msg : warning_msg,
+		BUILD_DATA.filename
+	);
+
+	const bool ret = strncmp(msg, prefix, strlen(prefix)) == 0;
+	free(prefix);
+
+	return ret;
+}
-- 
2.43.0


From ba03da2de28c8b9ffd2f6267550bdccbfe30a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:35 +0000
Subject: [PATCH 07/52] fix: restore the enclosing function after a function
 declaration

---
 skull/semantic/func.c   | 6 +++---
 skull/semantic/shared.c | 1 -
 skull/semantic/shared.h | 1 -
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1a8f63d..0881980 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -28,6 +28,8 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	const unsigned while_loop_depth = state->while_loop_depth;
 	state->while_loop_depth = 0;
 
+	Symbol *const current_func = state->current_func;
+
 	const bool is_valid = (
 		validate_stmt_func_decl_(state, node) &&
 		setup_and_validate_ast_sub_tree(state, node->child) &&
@@ -35,6 +37,7 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	);
 
 	state->while_loop_depth = while_loop_depth;
+	state->current_func = current_func;
 
 	return is_valid;
 }
@@ -79,7 +82,6 @@ static bool validate_stmt_func_decl_(
 		mangle_name(symbol->name) :
 		symbol->name;
 
-	state->last_func = state->current_func;
 	state->current_func = symbol;
 
 	if (!scope_add_symbol(state, symbol)) {
@@ -127,8 +129,6 @@ static bool post_validate_stmt_func_decl(
 		return false;
 	}
 
-	state->current_func = state->last_func;
-
 	return true;
 }
 
diff --git a/skull/semantic/shared.c b/skull/semantic/shared.c
index 4981c8f..5fbc9b1 100644
--- a/skull/semantic/shared.c
+++ b/skull/semantic/shared.c
@@ -28,7 +28,6 @@ SemanticState *setup_semantic_state(void) {
 
 	state->main_func = symbol;
 	state->current_func = state->main_func;
-	state->last_func = NULL;
 
 	return state;
 }
diff --git a/skull/semantic/shared.h b/skull/semantic/shared.h
index b51269a..07de7e4 100644
--- a/skull/semantic/shared.h
+++ b/skull/semantic/shared.h
@@ -13,7 +13,6 @@ typedef struct {
 	Scope *scope;
 	Symbol *main_func;
 	Symbol *current_func;
-	Symbol *last_func;
 	unsigned while_loop_depth;
 	HashTable *dynamic_refs;
 } SemanticState;
-- 
2.43.0


From 17628236e9d5d3e634257b0cbc4f920b77109161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:56 +0000
Subject: [PATCH 08/52] fix: reject returning a value anywhere in a void
 function

---
 skull/semantic/flow.c | 11 ++++++++++-
 skull/semantic/func.c |  5 -----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 9c9220a..a312809 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -1,5 +1,6 @@
 #include <stdbool.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
@@ -55,7 +56,15 @@ static bool is_valid_return_expr(SemanticState *state, const AstNode *node) {
 
 	const Type *return_type = state->current_func->func->return_type;
 
-	if (return_type != &TYPE_VOID && expr->type != return_type) {
+	if (return_type == &TYPE_VOID) {
+		FMT_ERROR(ERR_NO_VOID_RETURN, {
+			.real = strdup(state->current_func->name)
+		});
+
+		return false;
+	}
+
+	if (expr->type != return_type) {
 		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,
 			{ .loc = &expr_token->location, .type = return_type },
 			{ .type = expr->type }
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 0881980..1033fa3 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -123,11 +123,6 @@ static bool post_validate_stmt_func_decl(
 
 		return false;
 	}
-	if (returned_value && func->return_type == &TYPE_VOID) {
-		FMT_ERROR(ERR_NO_VOID_RETURN, { .real = strdup(symbol->name) });
-
-		return false;
-	}
 
 	return true;
 }
-- 
2.43.0


From e7f351143eb2cce27f00202f47918848de2dfb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 09/52] fix: keep break and continue working after a nested
 while loop

---
 skull/codegen/llvm/flow.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 0e3e352..f363008 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -105,6 +105,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 		"while_end"
 	);
 
+	LLVMBasicBlockRef old_while_cond = state->current_while_cond;
+	LLVMBasicBlockRef old_while_end = state->current_while_end;
+
 	state->current_while_cond = while_cond;
 	state->current_while_end = while_end;
 
@@ -125,10 +128,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	gen_control_code_block(node, while_cond, state);
 	LLVMPositionBuilderAtEnd(state->builder, while_end);
 
-	// shouldn't be needed since semantic layer checks that all break/continue
-	// statements are in a while loop, but it doesn't hurt to leave it in.
-	state->current_while_cond = NULL;
-	state->current_while_end = NULL;
+	// the rest of an enclosing while loop (if any) still needs its blocks
+	state->current_while_cond = old_while_cond;
+	state->current_while_end = old_while_end;
 }
 
 /*
-- 
2.43.0


From 4a540d504103cf7630a5df0a432f38800096b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:49 +0000
Subject: [PATCH 10/52] fix: reset variables declared in top level loops on
 every iteration

---
 skull/codegen/llvm/assign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 1e31009..88d454c 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -80,7 +80,10 @@ static void setup_var_llvm(
 				LLVMConstNull(type_to_llvm_type(var->type, state))
 		);
 
-		if (is_const_literal) return;
+		// a variable in a loop has to be set again on every iteration
+		if (is_const_literal && (var->is_const || !state->current_while_end)) {
+			return;
+		}
 	}
 	else if (requires_alloca_decl(var)) {
 		var->ref = LLVMBuildAlloca(
-- 
2.43.0


From be242c98bd1d132526f6a786d889e1d787c29eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:03 +0000
Subject: [PATCH 11/52] fix: do not grow the stack on every iteration of a loop

---
 skull/codegen/llvm/assign.c | 40 ++++++++++++++++++++++++++++++++++---
 skull/codegen/llvm/assign.h |  6 ++++++
 skull/codegen/llvm/flow.c   |  7 ++++---
 3 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 88d454c..08aa1e1 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -86,16 +86,50 @@ static void setup_var_llvm(
 		}
 	}
 	else if (requires_alloca_decl(var)) {
-		var->ref = LLVMBuildAlloca(
-			state->builder,
+		var->ref = gen_local_storage(
 			type_to_llvm_type(var->type, state),
-			var->linkage_name
+			var->linkage_name,
+			state
 		);
 	}
 
 	assign_value_to_var(value, symbol, state);
 }
 
+/*
+Allocate stack space for a local variable of type `type`.
+
+Space for variables in a loop is allocated once, when entering the function,
+since the stack would grow on every iteration otherwise.
+*/
+LLVMValueRef gen_local_storage(
+	LLVMTypeRef type,
+	const char *name,
+	const SkullStateLLVM *state
+) {
+	if (!state->current_while_end) {
+		return LLVMBuildAlloca(state->builder, type, name);
+	}
+
+	LLVMBasicBlockRef block = LLVMGetInsertBlock(state->builder);
+	LLVMMetadataRef location = LLVMGetCurrentDebugLocation2(state->builder);
+
+	LLVMBasicBlockRef entry = LLVMGetEntryBasicBlock(
+		state->current_func->func->ref
+	);
+	LLVMValueRef first = LLVMGetFirstInstruction(entry);
+
+	if (first) LLVMPositionBuilderBefore(state->builder, first);
+	else LLVMPositionBuilderAtEnd(state->builder, entry);
+
+	LLVMValueRef storage = LLVMBuildAlloca(state->builder, type, name);
+
+	LLVMPositionBuilderAtEnd(state->builder, block);
+	LLVMSetCurrentDebugLocation2(state->builder, location);
+
+	return storage;
+}
+
 /*
 Assign `value` to `symbol`.
 */
diff --git a/skull/codegen/llvm/assign.h b/skull/codegen/llvm/assign.h
index 34079af..34b0b0e 100644
--- a/skull/codegen/llvm/assign.h
+++ b/skull/codegen/llvm/assign.h
@@ -7,3 +7,9 @@ typedef struct AstNodeVarDef AstNodeVarDef;
 
 void gen_stmt_var_def(const AstNodeVarDef *, SkullStateLLVM *);
 void gen_stmt_var_assign(const AstNodeVarAssign *, SkullStateLLVM *);
+
+LLVMValueRef gen_local_storage(
+	LLVMTypeRef,
+	const char *,
+	const SkullStateLLVM *
+);
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index f363008..5a8fa4c 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -3,6 +3,7 @@
 
 #include "skull/build_data.h"
 #include "skull/codegen/llvm/aliases.h"
+#include "skull/codegen/llvm/assign.h"
 #include "skull/codegen/llvm/core.h"
 #include "skull/codegen/llvm/debug.h"
 #include "skull/codegen/llvm/shared.h"
@@ -54,10 +55,10 @@ void gen_stmt_noop(const Location *location, const SkullStateLLVM *state) {
 	LLVMValueRef noop = LLVMBuildStore(
 		state->builder,
 		LLVM_INT(0),
-		LLVMBuildAlloca(
-			state->builder,
+		gen_local_storage(
 			type_to_llvm_type(&TYPE_INT, state),
-			"noop"
+			"noop",
+			state
 		)
 	);
 
-- 
2.43.0


From 54ca07fb598c415a5f597177c027223683894f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:31 +0000
Subject: [PATCH 12/52] fix: generate valid code for references to constant
 locals and parameters

---
 skull/codegen/llvm/assign.c | 12 +++++++-----
 skull/codegen/llvm/assign.h |  3 +++
 skull/codegen/llvm/debug.c  |  3 +++
 skull/codegen/llvm/expr.c   | 16 ++++++----------
 skull/codegen/llvm/func.c   | 32 ++++++++++++++++++++++----------
 skull/semantic/expr.c       |  2 ++
 skull/semantic/variable.h   |  3 +++
 7 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 08aa1e1..9217deb 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -22,7 +22,6 @@ static void assign_value_to_var(
 );
 static void setup_var_llvm(LLVMValueRef, Symbol *, const SkullStateLLVM *);
 static bool is_top_level(const SkullStateLLVM *);
-static bool requires_alloca_decl(const Variable *);
 
 /*
 Builds a variable definition from `var_def`.
@@ -85,7 +84,7 @@ static void setup_var_llvm(
 			return;
 		}
 	}
-	else if (requires_alloca_decl(var)) {
+	else if (is_stored_in_memory(var)) {
 		var->ref = gen_local_storage(
 			type_to_llvm_type(var->type, state),
 			var->linkage_name,
@@ -140,7 +139,7 @@ static void assign_value_to_var(
 ) {
 	Variable *var = symbol->var;
 
-	if (var->is_const && (!var->is_global || LLVMIsConstant(value))) {
+	if (!is_stored_in_memory(var)) {
 		var->ref = value;
 	}
 	else {
@@ -159,6 +158,9 @@ static bool is_top_level(const SkullStateLLVM *state) {
 	return state->current_func == state->main_func;
 }
 
-static bool requires_alloca_decl(const Variable *var) {
-	return !var->is_global && !var->is_const;
+/*
+Return whether `var->ref` is the address of `var`, and not the value itself.
+*/
+bool is_stored_in_memory(const Variable *var) {
+	return var->is_global || !var->is_const || var->is_referenced;
 }
diff --git a/skull/codegen/llvm/assign.h b/skull/codegen/llvm/assign.h
index 34b0b0e..77c1c39 100644
--- a/skull/codegen/llvm/assign.h
+++ b/skull/codegen/llvm/assign.h
@@ -2,12 +2,15 @@
 
 typedef struct AstNodeVarAssign AstNodeVarAssign;
 typedef struct AstNodeVarDef AstNodeVarDef;
+typedef struct Variable Variable;
 
 #include "skull/codegen/llvm/shared.h"
 
 void gen_stmt_var_def(const AstNodeVarDef *, SkullStateLLVM *);
 void gen_stmt_var_assign(const AstNodeVarAssign *, SkullStateLLVM *);
 
+_Bool is_stored_in_memory(const Variable *);
+
 LLVMValueRef gen_local_storage(
 	LLVMTypeRef,
 	const char *,
diff --git a/skull/codegen/llvm/debug.c b/skull/codegen/llvm/debug.c
index b8c1f2b..0fe7da4 100644
--- a/skull/codegen/llvm/debug.c
+++ b/skull/codegen/llvm/debug.c
@@ -12,6 +12,7 @@
 #include "skull/build_data.h"
 #include "skull/codegen/abi.h"
 #include "skull/codegen/llvm/aliases.h"
+#include "skull/codegen/llvm/assign.h"
 #include "skull/codegen/llvm/shared.h"
 #include "skull/codegen/llvm/types.h"
 #include "skull/common/malloc.h"
@@ -390,6 +391,8 @@ static void alloc_debug_function_param(
 	Variable *var,
 	const SkullStateLLVM *state
 ) {
+	if (is_stored_in_memory(var)) return;
+
 	LLVMValueRef old_ref = var->ref;
 	Variable *func_var = var;
 
diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 12ba4bb..570efe4 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -4,6 +4,7 @@
 #include <llvm-c/Core.h>
 
 #include "skull/codegen/llvm/aliases.h"
+#include "skull/codegen/llvm/assign.h"
 #include "skull/codegen/llvm/func.h"
 #include "skull/codegen/llvm/shared.h"
 #include "skull/codegen/llvm/types.h"
@@ -87,7 +88,7 @@ static Expr gen_expr_identifier(
 ) {
 	const Variable *var = expr->symbol->var;
 
-	if (var->is_global || !var->is_const) {
+	if (is_stored_in_memory(var)) {
 		return (Expr) {
 			.value = LLVMBuildLoad2(
 				state->builder,
@@ -109,21 +110,16 @@ static Expr gen_expr_deref(
 	const AstNodeExpr *expr,
 	const SkullStateLLVM *state
 ) {
-	const Variable *var = expr->rhs->symbol->var;
+	const Expr ref = gen_expr_identifier(expr->rhs, state);
 
 	return (Expr) {
 		.value = LLVMBuildLoad2(
 			state->builder,
-			type_to_llvm_type(var->type->inner, state),
-			LLVMBuildLoad2(
-				state->builder,
-				type_to_llvm_type(var->type, state),
-				var->ref,
-				""
-			),
+			type_to_llvm_type(ref.type->inner, state),
+			ref.value,
 			""
 		),
-		.type = var->type->inner
+		.type = ref.type->inner
 	};
 }
 
diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 14b4702..3e27d35 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -8,6 +8,7 @@
 
 #include "skull/build_data.h"
 #include "skull/codegen/llvm/aliases.h"
+#include "skull/codegen/llvm/assign.h"
 #include "skull/codegen/llvm/core.h"
 #include "skull/codegen/llvm/debug.h"
 #include "skull/codegen/llvm/shared.h"
@@ -145,6 +146,16 @@ static void gen_function_def(
 ) {
 	FunctionDeclaration *func = symbol->func;
 
+	LLVMBasicBlockRef old_block = LLVMGetInsertBlock(state->builder);
+
+	LLVMBasicBlockRef entry = LLVMAppendBasicBlockInContext(
+		state->ctx,
+		func->ref,
+		"entry"
+	);
+
+	LLVMPositionBuilderAtEnd(state->builder, entry);
+
 	if (func->param_types) {
 		LLVMValueRef next_param = LLVMGetFirstParam(func->ref);
 
@@ -153,18 +164,19 @@ static void gen_function_def(
 
 			param_var->ref = next_param;
 			next_param = LLVMGetNextParam(next_param);
-		}
-	}
 
-	LLVMBasicBlockRef old_block = LLVMGetInsertBlock(state->builder);
+			if (is_stored_in_memory(param_var)) {
+				LLVMValueRef value = param_var->ref;
 
-	LLVMBasicBlockRef entry = LLVMAppendBasicBlockInContext(
-		state->ctx,
-		func->ref,
-		"entry"
-	);
-
-	LLVMPositionBuilderAtEnd(state->builder, entry);
+				param_var->ref = LLVMBuildAlloca(
+					state->builder,
+					type_to_llvm_type(param_var->type, state),
+					param_var->name
+				);
+				LLVMBuildStore(state->builder, value, param_var->ref);
+			}
+		}
+	}
 
 	Symbol *old_symbol = state->current_func;
 	state->current_func = symbol;
diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index d4f33e8..65cdaf8 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -10,6 +10,7 @@
 #include "skull/semantic/shared.h"
 #include "skull/semantic/symbol.h"
 #include "skull/semantic/types.h"
+#include "skull/semantic/variable.h"
 
 #include "skull/semantic/expr.h"
 
@@ -274,6 +275,7 @@ static bool validate_ref_expr(const AstNodeExpr *expr) {
 		return false;
 	}
 
+	expr->rhs->symbol->var->is_referenced = true;
 	return true;
 }
 
diff --git a/skull/semantic/variable.h b/skull/semantic/variable.h
index c08f7f7..100960a 100644
--- a/skull/semantic/variable.h
+++ b/skull/semantic/variable.h
@@ -30,6 +30,8 @@ module.
 `is_defined` is set once a variable is done being assigned (used to detect
 self-referencing the variable currently being assignment to).
 
+`is_referenced` is true when a reference to the variable is taken.
+
 `ref` stores arbitrary data, for use in the backend.
 */
 typedef struct Variable {
@@ -44,6 +46,7 @@ typedef struct Variable {
 	_Bool implicitly_typed : 1;
 	_Bool is_exported : 1;
 	_Bool is_defined : 1;
+	_Bool is_referenced : 1;
 
 	void *ref;
 	AstNodeExpr *expr;
-- 
2.43.0


From 159d1c1352a0f268c99a226aeaaffd03f7811768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:12 +0000
Subject: [PATCH 13/52] fix: do not abort when comparing references or void
 values

---
 skull/codegen/llvm/expr.c |  8 ++++++--
 skull/semantic/expr.c     | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 570efe4..4d8a9be 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -322,7 +322,7 @@ Return reference to an expression `expr`.
 static Expr gen_expr_ref(const AstNodeExpr *expr) {
 	return (Expr){
 		.value = expr->rhs->symbol->var->ref,
-		.type = expr->rhs->symbol->var->type->inner
+		.type = expr->type
 	};
 }
 
@@ -374,7 +374,11 @@ static Expr gen_expr_is(
 ) {
 	const Type *type = lhs->type;
 
-	if (type == &TYPE_INT || type == &TYPE_RUNE || type == &TYPE_BOOL)
+	if (type == &TYPE_INT ||
+		type == &TYPE_RUNE ||
+		type == &TYPE_BOOL ||
+		is_reference(type)
+	)
 		return (Expr){
 			.value = LLVMBuildICmp(
 				state->builder,
diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 65cdaf8..7aca383 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -21,6 +21,7 @@ static bool is_div_by_zero(const AstNodeExpr *);
 static bool validate_const_expr(AstNodeExpr *);
 static bool validate_pow_expr(const AstNodeExpr *);
 static bool validate_bool_expr(const AstNodeExpr *);
+static bool validate_is_expr(const AstNodeExpr *);
 static bool validate_ref_expr(const AstNodeExpr *);
 static bool is_numeric(const AstNodeExpr *);
 static bool validate_shift_expr(const AstNodeExpr *);
@@ -112,6 +113,9 @@ static bool validate_expr_restrictions(AstNodeExpr *expr) {
 		case EXPR_OR:
 		case EXPR_XOR:
 			return validate_bool_expr(expr);
+		case EXPR_IS:
+		case EXPR_ISNT:
+			return validate_is_expr(expr);
 		case EXPR_REF:
 			return validate_ref_expr(expr);
 		case EXPR_DEREF:
@@ -266,6 +270,16 @@ static bool validate_bool_expr(const AstNodeExpr *expr) {
 	return true;
 }
 
+static bool validate_is_expr(const AstNodeExpr *expr) {
+	if (expr->rhs->type == &TYPE_VOID) {
+		FMT_ERROR(ERR_INVALID_EXPR, { .tok = find_expr_node_token(expr) });
+
+		return false;
+	}
+
+	return true;
+}
+
 static bool validate_ref_expr(const AstNodeExpr *expr) {
 	if (expr->rhs->oper != EXPR_IDENTIFIER) {
 		FMT_ERROR(ERR_REF_IDENT_ONLY, {
-- 
2.43.0


From 1eb8654028c665fb1b3fad85767e55fe901b4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 14/52] fix: reject void parameters and dereferencing void
 references

---
 skull/semantic/expr.c | 5 ++++-
 skull/semantic/func.c | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 7aca383..b99eaba 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -294,7 +294,10 @@ static bool validate_ref_expr(const AstNodeExpr *expr) {
 }
 
 static bool validate_deref_expr(const AstNodeExpr *expr) {
-	if (expr->rhs->oper != EXPR_IDENTIFIER || !is_reference(expr->rhs->type)) {
+	if (expr->rhs->oper != EXPR_IDENTIFIER ||
+		!is_reference(expr->rhs->type) ||
+		expr->rhs->type->inner == &TYPE_VOID
+	) {
 		FMT_ERROR(ERR_CANNOT_DEREF, { .loc = find_expr_node_location(expr) });
 
 		return false;
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1033fa3..92486cd 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -143,7 +143,9 @@ static bool validate_func_params(
 	for (unsigned i = 0; i < function->num_params; i++) {
 		function->param_types[i] = token_to_type(state, params[i]->type_name);
 
-		if (!function->param_types[i]) {
+		if (!function->param_types[i] ||
+			function->param_types[i] == &TYPE_VOID
+		) {
 			FMT_ERROR(ERR_TYPE_NOT_FOUND, { .tok = params[i]->type_name });
 
 			restore_parent_scope(state);
-- 
2.43.0


From 4801c0e13ca14374f765d712b7c5a7671dafc76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:41 +0000
Subject: [PATCH 15/52] fix: do not merge comments with the tokens next to them

---
 skull/parse/token.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 99416f1..ab04a31 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -29,6 +29,7 @@ static bool iter_comment(TokenizeCtx *);
 static bool iter_quote(TokenizeCtx *);
 static bool tokenize_inner_loop(TokenizeCtx *);
 static bool is_delimeter(char32_t);
+static void end_token(TokenizeCtx *);
 static void token_add_info(TokenizeCtx *);
 static void chomp(TokenizeCtx *);
 static void next_line(TokenizeCtx *);
@@ -108,9 +109,7 @@ static bool tokenize_inner_loop(TokenizeCtx *ctx) {
 		if (!is_whitespace(*ctx->code)) token_add_info(ctx);
 	}
 	else if (!ctx->token->len && is_whitespace(*ctx->code)) {
-		ctx->token->len = (unsigned)(ctx->code - ctx->token->begin);
-		ctx->last = ctx->token;
-		ctx->token = setup_next(ctx->token);
+		end_token(ctx);
 	}
 
 	if (*ctx->code == '\n') next_line(ctx);
@@ -141,7 +140,8 @@ Return `true` if errors occurred.
 static bool iter_comment(TokenizeCtx *ctx) {
 	if (!is_valid_comment_start(ctx)) return true;
 
-	if (!ctx->token->begin) token_add_info(ctx);
+	if (ctx->token->begin) end_token(ctx);
+	token_add_info(ctx);
 	chomp(ctx);
 
 	do {
@@ -177,9 +177,25 @@ static bool iter_comment(TokenizeCtx *ctx) {
 	}
 
 	ctx->token->type = TOKEN_COMMENT;
+
+	if (ctx->comment == BLOCK_COMMENT) {
+		ctx->code++;
+		end_token(ctx);
+		ctx->code--;
+	}
+
 	return false;
 }
 
+/*
+End the current token right before the current character.
+*/
+static void end_token(TokenizeCtx *ctx) {
+	ctx->token->len = (unsigned)(ctx->code - ctx->token->begin);
+	ctx->last = ctx->token;
+	ctx->token = setup_next(ctx->token);
+}
+
 static bool is_valid_comment_start(TokenizeCtx *ctx) {
 	ctx->comment = NO_COMMENT;
 
-- 
2.43.0


From 3658741f38e97c03b6d493e59c751ec3fbe487d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:57 +0000
Subject: [PATCH 16/52] fix: end block comments which have multiple hashes
 before the bracket

---
 skull/parse/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index ab04a31..f1b5b57 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -152,7 +152,7 @@ static bool iter_comment(TokenizeCtx *ctx) {
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
-			chomp(ctx);
+			while (*ctx->code == '#') chomp(ctx);
 
 			if (*ctx->code == '}') break;
 
-- 
2.43.0


From 2d1e8612ff54925687b811173d8697a1d3ec8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:03 +0000
Subject: [PATCH 17/52] fix: keep columns correct after quotes and line
 comments

---
 skull/parse/token.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index f1b5b57..3f621a0 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -149,6 +149,7 @@ static bool iter_comment(TokenizeCtx *ctx) {
 
 		if (ctx->comment == LINE_COMMENT && *ctx->code == '\n') {
 			ctx->code--;
+			ctx->column--;
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
@@ -229,7 +230,7 @@ static bool iter_quote(TokenizeCtx *ctx) {
 	if (!ctx->token->begin) token_add_info(ctx);
 
 	do {
-		ctx->code++;
+		chomp(ctx);
 
 		if (*ctx->code == '\n') {
 			next_line(ctx);
-- 
2.43.0


From f752757f3cb50948ff689a2673d1497e8233fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 18/52] fix: allow a comment after a variable definition

---
 skull/parse/ast_node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index a401599..3adda3c 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -157,7 +157,10 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 		.expr = expr
 	};
 
-	if (ctx->token && ctx->token->type != TOKEN_NEWLINE) {
+	if (ctx->token &&
+		ctx->token->type != TOKEN_NEWLINE &&
+		ctx->token->type != TOKEN_COMMENT
+	) {
 		FMT_ERROR(ERR_EXPECTED_NEWLINE, {
 			.loc = &ctx->token->location
 		});
-- 
2.43.0


From f43ac30f366fdeac0fa3572f9de68efd49b591dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:56 +0000
Subject: [PATCH 19/52] fix: do not rename external functions which share a
 name with a private one

---
 skull/codegen/llvm/func.c  | 15 +++++++++++++++
 skull/codegen/llvm/func.h  |  1 +
 skull/codegen/llvm/write.c | 12 +++++++-----
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 3e27d35..882bb08 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -64,6 +64,8 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 	);
 	free(params);
 
+	if (func->is_external) release_private_name(symbol->linkage_name, state);
+
 	func->ref = LLVMAddFunction(
 		state->module,
 		symbol->linkage_name,
@@ -78,6 +80,19 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 	);
 }
 
+/*
+Make `name` available for an external function by removing it from the private
+function or variable that is using it (if any).
+*/
+void release_private_name(const char *name, const SkullStateLLVM *state) {
+	LLVMValueRef value = LLVMGetNamedFunction(state->module, name);
+	if (!value) value = LLVMGetNamedGlobal(state->module, name);
+
+	if (value && LLVMGetLinkage(value) == LLVMPrivateLinkage) {
+		LLVMSetValueName2(value, "", 0);
+	}
+}
+
 /*
 Setup function params of `func`.
 */
diff --git a/skull/codegen/llvm/func.h b/skull/codegen/llvm/func.h
index 9c9e203..510bc59 100644
--- a/skull/codegen/llvm/func.h
+++ b/skull/codegen/llvm/func.h
@@ -15,3 +15,4 @@ Expr gen_expr_func_call(
 	const AstNodeFunctionCall *const,
 	const SkullStateLLVM *
 );
+void release_private_name(const char *, const SkullStateLLVM *);
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3d5367f..403e188 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -17,6 +17,7 @@
 #include "skull/build_data.h"
 #include "skull/codegen/abi.h"
 #include "skull/codegen/llvm/debug.h"
+#include "skull/codegen/llvm/func.h"
 #include "skull/codegen/llvm/shared.h"
 #include "skull/codegen/llvm/types.h"
 #include "skull/codegen/llvm/write.h"
@@ -365,11 +366,12 @@ static bool add_start_shim(SkullStateLLVM *state) {
 		state
 	);
 
-	LLVMValueRef exit_func = LLVMAddFunction(
-		state->module,
-		"exit",
-		exit_func_type
-	);
+	release_private_name("exit", state);
+	LLVMValueRef exit_func = LLVMGetNamedFunction(state->module, "exit");
+
+	if (!exit_func) {
+		exit_func = LLVMAddFunction(state->module, "exit", exit_func_type);
+	}
 
 	LLVMBasicBlockRef entry = LLVMAppendBasicBlockInContext(
 		state->ctx,
-- 
2.43.0


From 3f21cb544355e02f13af7a78d0e46a7f54019262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:50 +0000
Subject: [PATCH 20/52] fix: use the right tokens when a type alias is exported
 or has an explicit type

---
 skull/semantic/types.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 79a3343..853af1d 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -262,21 +262,26 @@ static void strip_underscore_num(char *str, char c) {
 }
 
 bool validate_stmt_type_alias(SemanticState *state, const AstNode *node) {
-	const Token *token = node->token;
+	const Token *token = node->var_def->name_tok;
+	const Token *type_token = node->token_end->next;
 
 	if (!node->var_def->is_const) {
-		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, { .loc = &token->next->location });
+		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, {
+			.loc = &node->token->next->location
+		});
 		return false;
 	}
 
 	const ExprType oper = node->var_def->expr->oper;
 
-	if (oper != EXPR_IDENTIFIER && oper != EXPR_REF) {
-		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &token->next->next->location });
+	if (!node->var_def->is_implicit ||
+		(oper != EXPR_IDENTIFIER && oper != EXPR_REF)
+	) {
+		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &type_token->location });
 		return false;
 	}
 
-	const Type *type = token_to_type(state, token->next->next);
+	const Type *type = token_to_type(state, type_token);
 	char *alias = token_to_mbs_str(token);
 
 	Symbol *symbol;
-- 
2.43.0


From fbf9e9444077fc5c6113eca0d434a58d981dbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:55 +0000
Subject: [PATCH 21/52] fix: require a code block after namespace

---
 skull/semantic/flow.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index a312809..03035f6 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -164,6 +164,8 @@ bool validate_control_continue(SemanticState *state, const AstNode *node) {
 }
 
 bool validate_control_namespace(SemanticState *state, AstNode *node) {
+	if (is_missing_block(node, "namespace")) return false;
+
 	Symbol *symbol = Calloc(1, sizeof(Symbol));
 	*symbol = (Symbol){
 		.name = token_to_mbs_str(node->token->next),
-- 
2.43.0


From 62117e3b10166c0022dc09e3136515b2a555e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:02 +0000
Subject: [PATCH 22/52] fix: do not ignore unused symbol errors in nested
 blocks when using --werror

---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index 4caa413..1d94f7b 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -47,7 +47,7 @@ bool check_unused_symbols(const AstNode *node) {
 		}
 
 		else if (head->child) {
-			err &= check_unused_symbols(head->child);
+			err |= !check_unused_symbols(head->child);
 		}
 
 		head = head->next;
-- 
2.43.0


From a4a76acaeea7288fa4efc612c18ad82e9b2630b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:08 +0000
Subject: [PATCH 23/52] fix: report an error when the C output file cannot be
 written

---
 skull/codegen/c/write.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 9ebfc4a..f4a9170 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -34,6 +34,8 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 
 	free(out_filename);
 
+	if (!f) return true;
+
 	print_headers(f);
 	print_builtins(f, state);
 	print_globals(f, state);
@@ -42,7 +44,7 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	return false;
+	return f == stdout ? false : fclose(f) != 0;
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From ece91d6db98f36056bba2c051c69cda9a55dfb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:07 +0000
Subject: [PATCH 24/52] fix: do not print null pointers for blocks without any
 C statements

---
 skull/codegen/c/core.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/core.c b/skull/codegen/c/core.c
index c31c1c2..77463c1 100644
--- a/skull/codegen/c/core.c
+++ b/skull/codegen/c/core.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/codegen/c/assign.h"
 #include "skull/codegen/c/debug.h"
@@ -42,7 +43,7 @@ CTree gen_tree_c(const AstNode *node, SkullStateC *state) {
 
 	state->indent_lvl--;
 
-	return generated;
+	return generated ? generated : strdup("");
 }
 
 static CStmt gen_node_c(const AstNode *node, SkullStateC *state) {
-- 
2.43.0


From 917ff6a183ea9ac7f11c39a0650fea25704af355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:14 +0000
Subject: [PATCH 25/52] fix: do not turn the locals of functions into globals
 in the C backend

---
 skull/codegen/c/assign.c | 2 +-
 skull/codegen/c/func.c   | 4 ++++
 skull/codegen/c/shared.h | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index fa78c32..b8311ea 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -39,7 +39,7 @@ CStmt gen_stmt_var_def_c(const AstNode *node, SkullStateC *state) {
 
 	char *type = skull_type_to_c_type(var->type);
 
-	if (state->indent_lvl == 1) {
+	if (state->indent_lvl == 1 && !state->inside_func) {
 		CStmt stmt = gen_stmt_global_var(node, type, state);
 
 		free(type);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 4d2bb27..8892e85 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -1,3 +1,4 @@
+#include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -88,9 +89,12 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	}
 	else {
 		unsigned indent_lvl = state->indent_lvl;
+		const bool inside_func = state->inside_func;
 		state->indent_lvl = 0;
+		state->inside_func = true;
 		char *tree = gen_tree_c(node->child, state);
 		state->indent_lvl = indent_lvl;
+		state->inside_func = inside_func;
 
 		out = uvsnprintf(
 			func->is_export ?
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index e09d2ce..19e9ae6 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -8,6 +8,7 @@ typedef struct {
 	_Bool called_int_pow;
 	_Bool called_float_pow;
 	_Bool called_strcmp;
+	_Bool inside_func;
 	unsigned indent_lvl;
 } SkullStateC;
 
-- 
2.43.0


From ca815c8a32f4eae9f1e1b8c59f537846374e169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:20 +0000
Subject: [PATCH 26/52] fix: escape special characters in C string literals

---
 skull/codegen/c/expr.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index d7532ac..b54b06e 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -1,10 +1,12 @@
 #include <assert.h>
 #include <limits.h>
 #include <stdbool.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -14,6 +16,7 @@
 #include "skull/codegen/c/expr.h"
 
 static CExpr gen_expr_const_c(const AstNodeExpr *);
+static CExpr gen_expr_const_str_c(const char *);
 static CExpr gen_expr_binary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_unary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_func_call_c(const AstNodeFunctionCall *, SkullStateC *);
@@ -80,12 +83,38 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("0x%X", expr->value.rune);
 	}
 	if (expr->type == &TYPE_STR) {
-		return uvsnprintf("\"%s\"", expr->value.str);
+		return gen_expr_const_str_c(expr->value.str);
 	}
 
 	assert(false);
 }
 
+/*
+Create C string literal from `str`, escaping all characters which cannot appear
+verbatim in a literal. Octal escapes always have 3 digits, so the characters
+after them are never made part of the escape.
+*/
+static CExpr gen_expr_const_str_c(const char *str) {
+	CExpr out = Malloc((strlen(str) * 4) + 3);
+	char *at = out;
+
+	*at++ = '"';
+
+	for (; *str; str++) {
+		const unsigned char c = (unsigned char)*str;
+
+		if (c < ' ' || c > '~' || c == '"' || c == '\\' || c == '?') {
+			at += sprintf(at, "\\%03o", c);
+		}
+		else *at++ = *str;
+	}
+
+	*at++ = '"';
+	*at = '\0';
+
+	return out;
+}
+
 static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	const char *fmt = NULL;
 
-- 
2.43.0


From 09e72eb22db5bb1e66e910e6269cad09fc99390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:27 +0000
Subject: [PATCH 27/52] fix: emit valid C for float remainders, infinity and
 NaN

---
 skull/codegen/c/expr.c   | 16 +++++++++++++++-
 skull/codegen/c/shared.h |  1 +
 skull/codegen/c/write.c  | 12 +++++++++---
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index b54b06e..246c363 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -71,6 +72,12 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 	}
 	if (expr->type == &TYPE_FLOAT) {
 		if (!expr->value._int) return strdup("0.0");
+		if (isnan(expr->value._float)) return strdup("(0.0 / 0.0)");
+		if (isinf(expr->value._float)) {
+			return strdup(
+				expr->value._float < 0 ? "(-1.0 / 0.0)" : "(1.0 / 0.0)"
+			);
+		}
 
 		// here we are using the hex representation of the float to guarantee
 		// that there is no loss in percision when stringifying.
@@ -123,7 +130,14 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_SUB: fmt = "(%s - %s)"; break;
 		case EXPR_MULT: fmt = "(%s * %s)"; break;
 		case EXPR_DIV: fmt = "(%s / %s)"; break;
-		case EXPR_MOD: fmt = "(%s %% %s)"; break;
+		case EXPR_MOD: {
+			if (expr->type == &TYPE_FLOAT) {
+				fmt = "_float_mod(%s, %s)";
+				state->called_float_mod = true;
+			}
+			else fmt = "(%s %% %s)";
+			break;
+		}
 		case EXPR_LSHIFT: fmt = "(%s << %s)"; break;
 		case EXPR_RSHIFT: fmt = "(%s >> %s)"; break;
 		case EXPR_IS: {
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index 19e9ae6..dc4ed1f 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -7,6 +7,7 @@ typedef struct {
 	char *globals;
 	_Bool called_int_pow;
 	_Bool called_float_pow;
+	_Bool called_float_mod;
 	_Bool called_strcmp;
 	_Bool inside_func;
 	unsigned indent_lvl;
diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index f4a9170..4dd610e 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -14,6 +14,7 @@
 
 static const char *_strcmp; // NOLINT
 static const char *_float_pow; // NOLINT
+static const char *_float_mod; // NOLINT
 static const char *_int_pow; // NOLINT
 static const char *headers;
 
@@ -59,6 +60,7 @@ static void print_builtins(FILE *f, const SkullStateC *state) {
 	if (state->called_strcmp) fprintf(f, "%s\n", _strcmp);
 	if (state->called_int_pow) fprintf(f, "%s\n", _int_pow);
 	if (state->called_float_pow) fprintf(f, "%s\n", _float_pow);
+	if (state->called_float_mod) fprintf(f, "%s\n", _float_mod);
 }
 
 static void print_main_shim(
@@ -98,7 +100,7 @@ static const char *headers = \
 "#include <uchar.h>\n";
 
 static const char *_strcmp = \
-"_Bool _strcmp(const char *a, const char *b) {\n"
+"static _Bool _strcmp(const char *a, const char *b) {\n"
 "	while (*a && *b) {\n"
 "		if (*a != *b) {\n"
 "			return 0;\n"
@@ -113,10 +115,14 @@ static const char *_strcmp = \
 
 static const char *_float_pow = \
 "#include <math.h>\n"
-"double (*_float_pow)(double, double) = pow;\n";
+"static double _float_pow(double a, double b) { return pow(a, b); }\n";
+
+static const char *_float_mod = \
+"#include <math.h>\n"
+"static double _float_mod(double a, double b) { return fmod(a, b); }\n";
 
 static const char *_int_pow = \
-"int64_t _int_pow(int64_t base, int64_t exp) {\n"
+"static int64_t _int_pow(int64_t base, int64_t exp) {\n"
 "	int64_t result = base;\n"
 "	for (int64_t i = 1; i < exp; i++) result *= base;\n"
 "	return result;\n"
-- 
2.43.0


From a9473dcd34e18802c815f8fe5f029e27a5e4b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:45 +0000
Subject: [PATCH 28/52] fix: do not treat mutable variables as constant
 expressions

---
 skull/semantic/expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index b99eaba..7c9a038 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -65,7 +65,9 @@ static bool validate_ident_expr(SemanticState *state, AstNodeExpr *expr) {
 
 	expr->symbol = symbol;
 	expr->type = var->type;
-	if (var->expr) expr->is_const_expr = var->expr->is_const_expr;
+	if (var->expr) {
+		expr->is_const_expr = var->is_const && var->expr->is_const_expr;
+	}
 
 	return true;
 }
-- 
2.43.0


From f05406dde666328bcd8bb4fba74e90c607d18c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:28 +0000
Subject: [PATCH 29/52] fix: do not call builtins from the initializers of C
 globals

---
 skull/codegen/c/assign.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index b8311ea..e73c46c 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <stdbool.h>
 #include <stddef.h>
 #include <stdlib.h>
 
@@ -18,6 +19,7 @@ static CStmt gen_stmt_var_assign_c_(
 );
 static CStmt gen_stmt_global_var(const AstNode *, CType type, SkullStateC *);
 static CStmt gen_stmt_stack_var(const AstNode *, CType type, SkullStateC *);
+static bool calls_builtin(const AstNodeExpr *);
 static void gen_stmt_constexpt_global_var(
 	const Variable *,
 	CType,
@@ -71,7 +73,7 @@ static CStmt gen_stmt_global_var(
 ) {
 	const Variable *var = node->var_def->symbol->var;
 
-	if (var->expr->is_const_expr) {
+	if (var->expr->is_const_expr && !calls_builtin(var->expr)) {
 		gen_stmt_constexpt_global_var(var, type, state);
 
 		return NULL;
@@ -102,6 +104,33 @@ static CStmt gen_stmt_global_var(
 	return gen_stmt_var_assign_c_(var->name, node->var_def->expr, state);
 }
 
+/*
+Return true if `expr` is turned into a call to a builtin function, and thus
+cannot be used as the initializer of a C global.
+*/
+static bool calls_builtin(const AstNodeExpr *expr) {
+	switch (expr->oper) {
+		case EXPR_CONST: return false;
+		case EXPR_IDENTIFIER: return calls_builtin(expr->symbol->var->expr);
+		case EXPR_POW: return true;
+		case EXPR_MOD:
+			if (expr->type == &TYPE_FLOAT) return true;
+			break;
+		case EXPR_IS:
+		case EXPR_ISNT:
+			if (expr->rhs->type == &TYPE_STR) return true;
+			break;
+		case EXPR_NOT:
+		case EXPR_UNARY_NEG:
+		case EXPR_REF:
+		case EXPR_DEREF:
+			return calls_builtin(expr->rhs);
+		default: break;
+	}
+
+	return calls_builtin(expr->lhs.expr) || calls_builtin(expr->rhs);
+}
+
 static CStmt gen_stmt_stack_var(
 	const AstNode *node,
 	CType type,
-- 
2.43.0


From 70278c99803e020023494df36ee46e6f47dcfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 30/52] fix: reject code blocks after function calls instead of
 dropping them

---
 skull/semantic/flow.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 03035f6..c261482 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -259,8 +259,7 @@ bool assert_sane_child(const AstNode *node) {
 		node_type == AST_NODE_ELSE ||
 		node_type == AST_NODE_WHILE ||
 		node_type == AST_NODE_FUNCTION_PROTO ||
-		node_type == AST_NODE_NAMESPACE ||
-		(node_type == AST_NODE_EXPR && node->expr->oper == EXPR_FUNC)
+		node_type == AST_NODE_NAMESPACE
 	)) {
 		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
 			.loc = &node->child->token->location
-- 
2.43.0


From 937a64672d967326060ecd911caa5d82b7214035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:13 +0000
Subject: [PATCH 31/52] fix: remove the object file when the binary cannot be
 created

---
 skull/codegen/llvm/write.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 403e188..92a44ff 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -185,7 +185,10 @@ static PhaseResult emit_native_binary(void) {
 	char *binary_name = get_binary_name();
 	bool err = check_directory(binary_name);
 
-	if (err) return PHASE_ERR;
+	if (err) {
+		remove(BUILD_DATA.out_file);
+		return PHASE_ERR;
+	}
 
 	char *shim = uvsnprintf(
 		"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-- 
2.43.0


From ae136c3647994c288b6cdd1038d69ef35ad4a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:19 +0000
Subject: [PATCH 32/52] fix: treat a killed or missing linker as a failure

---
 skull/codegen/llvm/write.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 92a44ff..a817a61 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -219,18 +219,15 @@ static int sh(char *argv[]) {
 	}
 
 	if (pid == 0) {
-		errno = 0;
 		execvp(argv[0], argv);
-		if (errno) {
-			perror("execvp");
-			return 1;
-		}
+		perror("execvp");
+		_exit(1);
 	}
 
 	int status = 0;
 	wait(&status);
 
-	return WEXITSTATUS(status);
+	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
 }
 
 static int shell(char *cmd) {
-- 
2.43.0


From 2803382642b9b8c51205514f84e72ee42990afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:53 +0000
Subject: [PATCH 33/52] fix: only accept .sk at the end of a filename

---
 skull/cli.c       | 4 +++-
 skull/real_main.c | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index f39794f..3a0215d 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -42,7 +42,9 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	if (!strrstr(BUILD_DATA.filename, ".sk")) {
+	const char *extension = strrstr(BUILD_DATA.filename, ".sk");
+
+	if (!extension || extension[3]) {
 		fprintf(
 			stderr, "skull: missing required \".sk\" extension, exiting\n"
 		);
diff --git a/skull/real_main.c b/skull/real_main.c
index 0ff9345..b93b492 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -39,11 +39,13 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
-	if (!strrstr(filename, ".sk")) {
+	const char *extension = strrstr(filename, ".sk");
+
+	if (!extension || extension[3]) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-	if (strrstr(filename, ".sk") == filename || strrstr(filename, "/.sk")) {
+	if (extension == filename || extension[-1] == '/') {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
-- 
2.43.0


From 3fdadd15a329e8f25a4927b1fdfd7e962df53608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:57 +0000
Subject: [PATCH 34/52] fix: report files with only whitespace as being empty
 instead of crashing

---
 skull/pipeline.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skull/pipeline.c b/skull/pipeline.c
index 8f1e2d4..f76dcb4 100644
--- a/skull/pipeline.c
+++ b/skull/pipeline.c
@@ -35,6 +35,14 @@ int run_pipeline(const char *filename, char *file_contents) {
 		return true;
 	}
 
+	if (!token->begin) {
+		FMT_ERROR(WARN_FILE_EMPTY, {0});
+		free_tokens(token);
+		free(_file_contents);
+		free(file_contents);
+		return true;
+	}
+
 	classify_tokens(token);
 
 	AstNode *node = parse_ast_tree(token);
-- 
2.43.0


From 8144f0b37eb9c05d9f8d6c3a2fd80d9d48c515ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 35/52] fix: do not use a leading code block as the body of the
 next statement

---
 skull/parse/ast_node.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 3adda3c..7411ef9 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -14,6 +14,7 @@ typedef struct {
 	AstNode *node;
 	AstNode *head;
 	Token *token;
+	const Location *leading_block;
 	unsigned indent_lvl;
 	bool err;
 } ParserCtx;
@@ -508,6 +509,14 @@ static AstNode *parse_ast_tree_(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	if (ctx->leading_block) {
+		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, { .loc = ctx->leading_block });
+
+		free_ast_tree(ctx->head);
+		ctx->err = true;
+		return NULL;
+	}
+
 	if (ctx->node->last && ctx->head != ctx->node) {
 		ctx->node->last->next = NULL;
 		ctx->node->last = NULL;
@@ -664,8 +673,9 @@ static void parse_ast_sub_tree_(ParserCtx *ctx) {
 		return;
 	}
 	if (!ctx->node->last) {
-		ctx->head->child = child;
-		child->parent = ctx->head;
+		// there is nothing this block could belong to
+		ctx->leading_block = &child->token->location;
+		free_ast_tree(child);
 	}
 	else {
 		ctx->node->last->child = child;
-- 
2.43.0


From 934ccbd43011f6e9947c8a0b23053b1165b64e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:21 +0000
Subject: [PATCH 36/52] fix: use the name given with -o for binaries

---
 skull/codegen/llvm/write.c | 50 ++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index a817a61..fd9303b 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -39,7 +39,7 @@ static PhaseResult output_llvm_ir(const char *, const SkullStateLLVM *);
 static PhaseResult verify_llvm(const SkullStateLLVM *);
 static PhaseResult optimize_llvm(SkullStateLLVM *);
 static PhaseResult emit_stage_1(const char *, SkullStateLLVM *);
-static PhaseResult emit_native_binary(void);
+static PhaseResult emit_native_binary(const char *);
 static bool add_start_shim(SkullStateLLVM *);
 static bool llvm_insert_builtins(SkullStateLLVM *);
 static bool will_build_binary(void);
@@ -65,10 +65,7 @@ bool write_llvm(const char *filename, SkullStateLLVM *state) {
 	result = optimize_llvm(state);
 	if (result != PHASE_NEXT) return result;
 
-	result = emit_stage_1(filename, state);
-	if (result != PHASE_NEXT) return result;
-
-	return emit_native_binary();
+	return emit_stage_1(filename, state);
 }
 
 static PhaseResult verify_llvm(const SkullStateLLVM *state) {
@@ -150,6 +147,8 @@ static PhaseResult output_llvm_ir(
 }
 
 static char *get_binary_name(void) {
+	if (BUILD_DATA.out_file) return strdup(BUILD_DATA.out_file);
+
 	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
 	char *last_dot = strrchr(binary_name, '.');
 	binary_name[last_dot - binary_name] = '\0';
@@ -181,18 +180,18 @@ an executable binary.
 Eventually this will use JIT compilation to compile the shim into the existing
 LLVM module, but that is for later.
 */
-static PhaseResult emit_native_binary(void) {
+static PhaseResult emit_native_binary(const char *object_name) {
 	char *binary_name = get_binary_name();
 	bool err = check_directory(binary_name);
 
 	if (err) {
-		remove(BUILD_DATA.out_file);
+		remove(object_name);
 		return PHASE_ERR;
 	}
 
 	char *shim = uvsnprintf(
 		"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-		BUILD_DATA.out_file,
+		object_name,
 		binary_name,
 		BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
 	);
@@ -201,7 +200,7 @@ static PhaseResult emit_native_binary(void) {
 	const bool exit_code = shell(shim);
 
 	errno = 0;
-	remove(BUILD_DATA.out_file);
+	remove(object_name);
 	if (errno) perror("remove");
 
 	free(shim);
@@ -292,6 +291,7 @@ Based on BUILD_DATA (cli flags), emit either:
 * LLVM IR (to stdout or file)
 * Object file
 * Assembly file (to stdout or file)
+* Native binary
 */
 static PhaseResult emit_stage_1(const char *filename, SkullStateLLVM *state) {
 	if (BUILD_DATA.preprocess) {
@@ -300,36 +300,44 @@ static PhaseResult emit_stage_1(const char *filename, SkullStateLLVM *state) {
 
 	if (setup_llvm_target_machine(state)) return PHASE_ERR;
 
-	if (!BUILD_DATA.out_file) {
-		BUILD_DATA.out_file = gen_filename(
-			BUILD_DATA.filename,
-			BUILD_DATA.asm_backend ? "s" : "o"
-		);
-	}
-
-	if (!BUILD_DATA.asm_backend && strcmp(BUILD_DATA.out_file, "-") == 0) {
+	if (!BUILD_DATA.asm_backend &&
+		BUILD_DATA.out_file &&
+		strcmp(BUILD_DATA.out_file, "-") == 0
+	) {
 		fprintf(stderr, "skull: cannot print binary file to stdout\n");
 		return PHASE_ERR;
 	}
 
+	// -o is the name of the binary if there is one, not of its object file
+	char *out_file = BUILD_DATA.out_file && !will_build_binary() ?
+		strdup(BUILD_DATA.out_file) :
+		gen_filename(
+			BUILD_DATA.filename,
+			BUILD_DATA.asm_backend ? "s" : "o"
+		);
+
 	char *err_msg = NULL;
 
 	const bool err = LLVMTargetMachineEmitToFile(
 		state->target_machine,
 		state->module,
-		BUILD_DATA.out_file,
+		out_file,
 		BUILD_DATA.asm_backend ? LLVMAssemblyFile : LLVMObjectFile,
 		&err_msg
 	);
 
 	if (err || err_msg) {
 		fprintf(stderr, "skull: \"%s\"\n", err_msg);
+		free(out_file);
 		return PHASE_ERR;
 	}
 
-	return (BUILD_DATA.compile_only || BUILD_DATA.asm_backend) ?
-		PHASE_DONE :
-		PHASE_NEXT;
+	const PhaseResult result = will_build_binary() ?
+		emit_native_binary(out_file) :
+		PHASE_DONE;
+
+	free(out_file);
+	return result;
 }
 
 static bool will_build_binary(void) {
-- 
2.43.0


From e629f3d8b3910ec6b3369b471ffcffb168f01ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 37/52] fix: do not treat functions and namespaces as variables

---
 skull/semantic/scope.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index c0fb55f..57fffc0 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -89,7 +89,7 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	Symbol *const symbol = scope_find_name(state->scope, var_name);
 
 	if (!symbol ||
-		!symbol->var ||
+		symbol->type != SYMBOL_VAR ||
 		!symbol->var->is_defined
 	) {
 		FMT_ERROR(ERR_VAR_NOT_FOUND, {
-- 
2.43.0


From 50e4a0661d025bcb543d2e2813080809edf6a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:57 +0000
Subject: [PATCH 38/52] fix: read runes up to their closing quote, and allow
 any non-control rune

---
 skull/semantic/types.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 853af1d..3391999 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -97,7 +97,8 @@ Return "rune" converted from `token`.
 char32_t eval_rune(const Token *const token, bool *err) {
 	const char32_t *start = token->begin + 1;
 
-	if (iscntrl((int)*start)) {
+	// `iscntrl` is only defined for values of an unsigned char
+	if (*start < 0x80 && iscntrl((int)*start)) {
 		FMT_ERROR(ERR_NO_CONTROL_CHAR, { .loc = &token->location });
 
 		*err = true;
@@ -114,7 +115,8 @@ char32_t eval_rune(const Token *const token, bool *err) {
 		return '\0';
 	}
 
-	if (start[1] != '\'') {
+	// the closing quote must be the last character of the rune
+	if (start + 2 != token->begin + token->len) {
 		*err = true;
 		FMT_ERROR(ERR_RUNE_TOO_LONG, { .loc = &token->location });
 		return '\0';
-- 
2.43.0


From 57acf226e020c2ee1f8cfc79e605527944519776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 39/52] fix: report redeclared namespaces

---
 skull/semantic/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/symbol.c b/skull/semantic/symbol.c
index b6c1a80..c23f3e7 100644
--- a/skull/semantic/symbol.c
+++ b/skull/semantic/symbol.c
@@ -20,7 +20,7 @@ static bool symbol_already_exists(SemanticState *state, Symbol *new_symbol) {
 	const Location *location = &new_symbol->location;
 	char *name = new_symbol->name;
 
-	if (type != new_symbol->type) {
+	if (type != new_symbol->type || type == SYMBOL_NAMESPACE) {
 		FMT_ERROR(
 			ERR_NO_REDEFINE_X_AS_Y,
 			{ .loc = location, .str = symbol_type_to_str(type) },
-- 
2.43.0


From f80fe090ca723afa30c6d37b922a4cfe3236fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:22 +0000
Subject: [PATCH 40/52] fix: only find members of a namespace through its name

---
 skull/semantic/scope.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index 57fffc0..6fe8807 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -14,6 +14,7 @@
 static void free_ht_symbol(HashItem *);
 static void free_symbol(Symbol *);
 static Scope *find_scope_head(SemanticState *);
+static Symbol *scope_find_member(const Scope *, char *);
 
 /*
 Add `symbol` (as variable) to current scope.
@@ -52,7 +53,7 @@ Symbol *scope_find_name(const Scope *const scope, char *name) {
 			Symbol *symbol = NULL;
 
 			if (namespace && namespace->type == SYMBOL_NAMESPACE) {
-				symbol = scope_find_name(namespace->scope, dot_position + 1);
+				symbol = scope_find_member(namespace->scope, dot_position + 1);
 			}
 
 			*dot_position = '.';
@@ -70,6 +71,29 @@ Symbol *scope_find_name(const Scope *const scope, char *name) {
 	return NULL;
 }
 
+/*
+Same as `scope_find_name`, but only look at names which were added to `scope`
+itself (and the scopes adjacent to it), not to the scopes it is nested in.
+*/
+static Symbol *scope_find_member(const Scope *scope, char *name) {
+	char *dot_position = strchr(name, '.');
+	if (dot_position) *dot_position = '\0';
+
+	Symbol *symbol = NULL;
+
+	while (scope && !symbol) {
+		if (scope->symbols) symbol = ht_get(scope->symbols, name);
+		scope = scope->last;
+	}
+
+	if (!dot_position) return symbol;
+
+	*dot_position = '.';
+
+	if (!symbol || symbol->type != SYMBOL_NAMESPACE) return NULL;
+	return scope_find_member(symbol->scope, dot_position + 1);
+}
+
 /*
 Returns a new variable scope.
 */
-- 
2.43.0


From 381b22668b3f6c9c5da9a76e8dcf116d9128c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:12 +0000
Subject: [PATCH 41/52] fix: do not initialize C globals from pointer variables

---
 skull/codegen/c/assign.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index e73c46c..d288d85 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -19,7 +19,7 @@ static CStmt gen_stmt_var_assign_c_(
 );
 static CStmt gen_stmt_global_var(const AstNode *, CType type, SkullStateC *);
 static CStmt gen_stmt_stack_var(const AstNode *, CType type, SkullStateC *);
-static bool calls_builtin(const AstNodeExpr *);
+static bool needs_runtime_init(const AstNodeExpr *);
 static void gen_stmt_constexpt_global_var(
 	const Variable *,
 	CType,
@@ -73,7 +73,7 @@ static CStmt gen_stmt_global_var(
 ) {
 	const Variable *var = node->var_def->symbol->var;
 
-	if (var->expr->is_const_expr && !calls_builtin(var->expr)) {
+	if (var->expr->is_const_expr && !needs_runtime_init(var->expr)) {
 		gen_stmt_constexpt_global_var(var, type, state);
 
 		return NULL;
@@ -105,13 +105,15 @@ static CStmt gen_stmt_global_var(
 }
 
 /*
-Return true if `expr` is turned into a call to a builtin function, and thus
-cannot be used as the initializer of a C global.
+Return true if `expr` is not a constant expression in C (it calls a builtin
+function, or reads a pointer), and thus cannot initialize a C global.
 */
-static bool calls_builtin(const AstNodeExpr *expr) {
+static bool needs_runtime_init(const AstNodeExpr *expr) {
 	switch (expr->oper) {
 		case EXPR_CONST: return false;
-		case EXPR_IDENTIFIER: return calls_builtin(expr->symbol->var->expr);
+		case EXPR_IDENTIFIER:
+			if (expr->type == &TYPE_STR || is_reference(expr->type)) return true;
+			return needs_runtime_init(expr->symbol->var->expr);
 		case EXPR_POW: return true;
 		case EXPR_MOD:
 			if (expr->type == &TYPE_FLOAT) return true;
@@ -122,13 +124,13 @@ static bool calls_builtin(const AstNodeExpr *expr) {
 			break;
 		case EXPR_NOT:
 		case EXPR_UNARY_NEG:
-		case EXPR_REF:
-		case EXPR_DEREF:
-			return calls_builtin(expr->rhs);
+			return needs_runtime_init(expr->rhs);
+		case EXPR_REF: return false;
+		case EXPR_DEREF: return false;
 		default: break;
 	}
 
-	return calls_builtin(expr->lhs.expr) || calls_builtin(expr->rhs);
+	return needs_runtime_init(expr->lhs.expr) || needs_runtime_init(expr->rhs);
 }
 
 static CStmt gen_stmt_stack_var(
-- 
2.43.0


From 02974ed11755848e3947b75f38eb618d3027ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:33 +0000
Subject: [PATCH 42/52] fix: zero extend bools passed to and returned from C
 functions

---
 skull/codegen/llvm/func.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 882bb08..da0ea65 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -26,6 +26,7 @@
 
 static void gen_function_def(const AstNode *const, Symbol *, SkullStateLLVM *);
 static void add_func(Symbol *, const SkullStateLLVM *);
+static void zero_extend_bools(const FunctionDeclaration *);
 static LLVMTypeRef *parse_func_param(
 	const FunctionDeclaration *,
 	const SkullStateLLVM *state
@@ -78,6 +79,28 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 			LLVMExternalLinkage :
 			LLVMPrivateLinkage
 	);
+
+	if (func->is_external || func->is_export) zero_extend_bools(func);
+}
+
+/*
+The C ABI requires that the bools which are passed to (or returned from) a
+function be zero extended.
+*/
+static void zero_extend_bools(const FunctionDeclaration *func) {
+	const LLVMAttributeRef zeroext = LLVMCreateEnumAttribute(
+		LLVMGetModuleContext(LLVMGetGlobalParent(func->ref)),
+		LLVMGetEnumAttributeKindForName("zeroext", 7),
+		0
+	);
+
+	for (unsigned i = 0; i < func->num_params; i++) {
+		if (func->param_types[i] == &TYPE_BOOL)
+			LLVMAddAttributeAtIndex(func->ref, i + 1, zeroext);
+	}
+
+	if (func->return_type == &TYPE_BOOL)
+		LLVMAddAttributeAtIndex(func->ref, LLVMAttributeReturnIndex, zeroext);
 }
 
 /*
-- 
2.43.0


From 6ac197de6b8154de98b012969fdba824730c92db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:54 +0000
Subject: [PATCH 43/52] fix: negating a float zero changes its sign

---
 skull/codegen/llvm/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 4d8a9be..89d846b 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -355,7 +355,7 @@ static Expr gen_expr_unary_neg(
 			.type = lhs->type,
 			.value = lhs->type == &TYPE_INT ?
 				LLVM_INT(0) :
-				LLVM_FLOAT(0)
+				LLVM_FLOAT(-0.0)
 		},
 		rhs,
 		LLVMBuildNSWSub,
-- 
2.43.0


From eef8252fb031087758e6061f9c328d9d7915e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:37 +0000
Subject: [PATCH 44/52] fix: an integer to the power of zero is one

---
 skull/codegen/c/write.c |  4 ++--
 skull/shim.ll           | 51 ++++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 4dd610e..aaffc3a 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -123,7 +123,7 @@ static const char *_float_mod = \
 
 static const char *_int_pow = \
 "static int64_t _int_pow(int64_t base, int64_t exp) {\n"
-"	int64_t result = base;\n"
-"	for (int64_t i = 1; i < exp; i++) result *= base;\n"
+"	int64_t result = 1;\n"
+"	for (int64_t i = 0; i < exp; i++) result *= base;\n"
 "	return result;\n"
 "}\n";
diff --git a/skull/shim.ll b/skull/shim.ll
index 489c06f..bed70da 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -84,33 +84,32 @@ define dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %6 = alloca i64, align 8
   store i64 %0, i64* %3, align 8
   store i64 %1, i64* %4, align 8
-  %7 = load i64, i64* %3, align 8
-  store i64 %7, i64* %5, align 8
-  store i64 1, i64* %6, align 8
-  br label %8
-
-8:
-  %9 = load i64, i64* %6, align 8
-  %10 = load i64, i64* %4, align 8
-  %11 = icmp slt i64 %9, %10
-  br i1 %11, label %12, label %19
-
-12:
-  %13 = load i64, i64* %3, align 8
-  %14 = load i64, i64* %5, align 8
-  %15 = mul nsw i64 %14, %13
-  store i64 %15, i64* %5, align 8
-  br label %16
+  store i64 1, i64* %5, align 8
+  store i64 0, i64* %6, align 8
+  br label %7
 
-16:
-  %17 = load i64, i64* %6, align 8
-  %18 = add nsw i64 %17, 1
-  store i64 %18, i64* %6, align 8
-  br label %8, !llvm.loop !3
-
-19:
-  %20 = load i64, i64* %5, align 8
-  ret i64 %20
+7:
+  %8 = load i64, i64* %6, align 8
+  %9 = load i64, i64* %4, align 8
+  %10 = icmp slt i64 %8, %9
+  br i1 %10, label %11, label %18
+
+11:
+  %12 = load i64, i64* %3, align 8
+  %13 = load i64, i64* %5, align 8
+  %14 = mul nsw i64 %13, %12
+  store i64 %14, i64* %5, align 8
+  br label %15
+
+15:
+  %16 = load i64, i64* %6, align 8
+  %17 = add nsw i64 %16, 1
+  store i64 %17, i64* %6, align 8
+  br label %7, !llvm.loop !3
+
+18:
+  %19 = load i64, i64* %5, align 8
+  ret i64 %19
 }
 
 !1 = distinct !{!1, !2}
-- 
2.43.0


From fd09d14e59886f3f8127012c7cfe60557a005c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:57 +0000
Subject: [PATCH 45/52] fix: generate position independent code

---
 skull/codegen/llvm/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index fd9303b..d2a01dd 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -269,7 +269,7 @@ static bool setup_llvm_target_machine(SkullStateLLVM *state) {
 		cpu,
 		features,
 		LLVMCodeGenLevelDefault,
-		LLVMRelocDefault,
+		LLVMRelocPIC,
 		LLVMCodeModelDefault
 	);
 
-- 
2.43.0


From 64947fa9db82c637b18f2d2c171cd64ceb16b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:57 +0000
Subject: [PATCH 46/52] fix: statements after a namespace that returns or jumps
 are unreachable

---
 skull/codegen/llvm/core.c |  2 +-
 skull/codegen/llvm/flow.c | 12 +++++++-----
 skull/codegen/llvm/flow.h |  2 +-
 skull/semantic/flow.c     | 29 ++++++++++++++++++++++++++++-
 4 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index 5c92e05..b914d5a 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -53,7 +53,7 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 			gen_stmt_noop(&(*node)->token->location, state); break;
 		case AST_NODE_BREAK: return gen_stmt_break(state);
 		case AST_NODE_CONTINUE: return gen_stmt_continue(state);
-		case AST_NODE_NAMESPACE: gen_control_namespace(*node, state); break;
+		case AST_NODE_NAMESPACE: return gen_control_namespace(*node, state);
 		case AST_NODE_IMPORT:
 		case AST_NODE_COMMENT:
 			break;
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 5a8fa4c..7365808 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -23,7 +23,7 @@ static void gen_control_if_(
 	SkullStateLLVM *
 );
 
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *,
 	LLVMBasicBlockRef,
 	SkullStateLLVM *
@@ -151,10 +151,10 @@ void gen_control_if(const AstNode **node, SkullStateLLVM *state) {
 }
 
 /*
-Builds a namespace from `node`.
+Builds a namespace from `node`, returning an expr if one is returned.
 */
-void gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
-	gen_control_code_block(node, NULL, state);
+Expr gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
+	return gen_control_code_block(node, NULL, state);
 }
 
 /*
@@ -264,7 +264,7 @@ Expr gen_stmt_continue(const SkullStateLLVM *state) {
 Parse `node` while in a new scope. Branch to `block` if no return occurred (and
 is not `NULL`).
 */
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *node,
 	LLVMBasicBlockRef block,
 	SkullStateLLVM *state
@@ -286,4 +286,6 @@ static void gen_control_code_block(
 	}
 
 	if (!returned.value && block) LLVMBuildBr(state->builder, block);
+
+	return returned;
 }
diff --git a/skull/codegen/llvm/flow.h b/skull/codegen/llvm/flow.h
index 134b8ff..b05889a 100644
--- a/skull/codegen/llvm/flow.h
+++ b/skull/codegen/llvm/flow.h
@@ -14,4 +14,4 @@ void gen_stmt_implicit_main_return(const Location *, const SkullStateLLVM *);
 void gen_stmt_noop(const Location *, const SkullStateLLVM *);
 void gen_control_while(const AstNode *, SkullStateLLVM *);
 void gen_control_if(const AstNode **, SkullStateLLVM *);
-void gen_control_namespace(const AstNode *, SkullStateLLVM *);
+Expr gen_control_namespace(const AstNode *, SkullStateLLVM *);
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index c261482..9461acb 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -19,6 +19,7 @@ static bool validate_control_not_missing_if(const AstNode *);
 static bool is_missing_block(const AstNode *, const char *);
 static bool validate_bool_expr(const AstNodeExpr *);
 static bool no_dead_code_below(const AstNode *);
+static bool has_jump(const AstNode *);
 static bool is_valid_return_expr(SemanticState *, const AstNode *);
 
 bool validate_stmt_return(SemanticState *state, const AstNode *node) {
@@ -102,6 +103,29 @@ static bool no_dead_code_below(const AstNode *node) {
 	return true;
 }
 
+/*
+Return `true` if control never gets past the statements starting at `node`.
+*/
+static bool has_jump(const AstNode *node) {
+	while (node) {
+		switch (node->type) {
+			case AST_NODE_RETURN:
+			case AST_NODE_UNREACHABLE:
+			case AST_NODE_BREAK:
+			case AST_NODE_CONTINUE:
+				return true;
+			case AST_NODE_NAMESPACE:
+				if (has_jump(node->child)) return true;
+				break;
+			default: break;
+		}
+
+		node = node->next;
+	}
+
+	return false;
+}
+
 bool validate_control_else(SemanticState *state, const AstNode *node) {
 	return (
 		validate_control_not_missing_if(node) &&
@@ -180,7 +204,10 @@ bool validate_control_namespace(SemanticState *state, AstNode *node) {
 
 	node->symbol = symbol;
 
-	const bool ok = setup_and_validate_ast_sub_tree(state, node->child);
+	const bool ok = (
+		setup_and_validate_ast_sub_tree(state, node->child) &&
+		(!has_jump(node->child) || no_dead_code_below(node->next))
+	);
 
 	if (ok) symbol->scope = get_last_adjacent_scope(state->scope->last->child);
 
-- 
2.43.0


From c20972e4083940209f15d7a9f93bbaf2cecd02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:17 +0000
Subject: [PATCH 47/52] fix: report when the C backend cannot write its output

---
 skull/codegen/c/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index aaffc3a..7d105a1 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -45,7 +45,12 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	return f == stdout ? false : fclose(f) != 0;
+	bool failed = fflush(f) != 0 || ferror(f);
+	if (f != stdout && fclose(f) != 0) failed = true;
+
+	if (failed) fprintf(stderr, "skull: failed to write output\n");
+
+	return failed;
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From 1f95ab43387d2037f676654281f59835aba02b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 48/52] fix: quote file names given to the shell when linking

---
 skull/codegen/llvm/write.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index d2a01dd..8b5043d 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -23,6 +23,7 @@
 #include "skull/codegen/llvm/write.h"
 #include "skull/codegen/shared.h"
 #include "skull/common/io.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -47,6 +48,7 @@ static int sh(char *[]);
 static int shell(char *);
 static char *get_binary_name(void);
 static bool check_directory(char *);
+static char *quote_for_shell(const char *);
 
 /*
 Writer for LLVM backend. Can emit LLVM, native binary, or assembler based
@@ -189,12 +191,17 @@ static PhaseResult emit_native_binary(const char *object_name) {
 		return PHASE_ERR;
 	}
 
+	char *quoted_object = quote_for_shell(object_name);
+	char *quoted_binary = quote_for_shell(binary_name);
+
 	char *shim = uvsnprintf(
-		"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-		object_name,
-		binary_name,
+		"cc -nostartfiles %s -o %s %s -I/usr/include/skull -lm",
+		quoted_object,
+		quoted_binary,
 		BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
 	);
+	free(quoted_object);
+	free(quoted_binary);
 	free(binary_name);
 
 	const bool exit_code = shell(shim);
@@ -209,6 +216,29 @@ static PhaseResult emit_native_binary(const char *object_name) {
 	return exit_code ? PHASE_ERR : PHASE_DONE;
 }
 
+/*
+Return `str` as a single word for the shell, no matter what it contains.
+*/
+static char *quote_for_shell(const char *str) {
+	char *quoted = Malloc((strlen(str) * 4) + 3);
+	char *pos = quoted;
+
+	*pos++ = '\'';
+
+	for (; *str; str++) {
+		if (*str == '\'') {
+			memcpy(pos, "'\\''", 4);
+			pos += 4;
+		}
+		else *pos++ = *str;
+	}
+
+	*pos++ = '\'';
+	*pos = '\0';
+
+	return quoted;
+}
+
 static int sh(char *argv[]) {
 	errno = 0;
 	const pid_t pid = fork();
-- 
2.43.0


From ff0156863b61b1428646399f212a29680e47ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:42 +0000
Subject: [PATCH 49/52] fix: a source that cannot be read is an error, not an
 empty file

---
 skull/real_main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skull/real_main.c b/skull/real_main.c
index b93b492..ca84f8f 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 
@@ -49,10 +50,21 @@ static int compile_file(char *filename) {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
+	if (is_directory(filename)) {
+		fprintf(stderr, "skull: \"%s\" is a directory not a file\n", filename);
+		return 1;
+	}
+
 	FILE *f = open_file(filename, true);
 	if (!f) return 1;
 
+	errno = 0;
 	char *file_contents = file_to_string(f);
+	if (!file_contents && (errno || ferror(f))) {
+		fprintf(stderr, "skull: failed to read \"%s\"\n", filename);
+		fclose(f);
+		return 1;
+	}
 	if (!file_contents) {
 		bool err = false;
 		FMT_WARN(err, WARN_FILE_EMPTY, {0});
-- 
2.43.0


From 81cdc15d4febb728b33b203fbaa871cd9c83a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:52 +0000
Subject: [PATCH 50/52] fix: refuse sources with NUL bytes instead of ignoring
 what follows them

---
 skull/common/io.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index d1af053..efa1446 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -39,7 +39,15 @@ char *file_to_string(FILE *fd) {
 		return NULL;
 	}
 
-	str[len] = '\0';
+	// everything after a NUL byte would be ignored silently
+	if (memchr(str, '\0', read)) {
+		free(str);
+		errno = EILSEQ;
+		perror("fread");
+		return NULL;
+	}
+
+	str[read] = '\0';
 	return str;
 }
 
-- 
2.43.0


From 55d18e28ab552e5354f9801f7130084f117b4ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:28 +0000
Subject: [PATCH 51/52] fix: pass each argument after -- to the linker
 unchanged

---
 skull/cli.c                | 32 +++++++++++++-------------------
 skull/codegen/llvm/write.c | 24 ------------------------
 skull/common/str.c         | 25 +++++++++++++++++++++++++
 skull/common/str.h         |  2 ++
 4 files changed, 40 insertions(+), 43 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 3a0215d..14e6307 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -260,30 +260,24 @@ static bool parse_long_option(const char *arg) {
 	return false;
 }
 
-static char *squash_argv(char *argv[]) {
-	size_t len = 0;
-	char **argv_copy = argv;
-
-	while (*argv) {
-		len += strlen(*argv) + 1;
-		argv++;
-	}
+/*
+Return the arguments in `argv` as a single string, where each argument is
+quoted such that the shell passes it on unchanged.
 
-	argv = argv_copy;
+The result of this function must be freed.
+*/
+static char *squash_argv(char *argv[]) {
+	char *out = quote_for_shell(*argv);
 
-	char *out = Malloc(len);
-	size_t wrote = 0;
+	while (*++argv) {
+		char *quoted = quote_for_shell(*argv);
+		char *joined = uvsnprintf("%s %s", out, quoted);
 
-	while (*argv) {
-		const size_t current_len = strlen(*argv) + 1;
-		memcpy(out + wrote, *argv, current_len);
-		wrote += current_len;
-		out[wrote - 1] = ' ';
-		argv++;
+		free(quoted);
+		free(out);
+		out = joined;
 	}
 
-	out[wrote - 1] = '\0';
-
 	return out;
 }
 
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 8b5043d..0e580cc 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -48,7 +48,6 @@ static int sh(char *[]);
 static int shell(char *);
 static char *get_binary_name(void);
 static bool check_directory(char *);
-static char *quote_for_shell(const char *);
 
 /*
 Writer for LLVM backend. Can emit LLVM, native binary, or assembler based
@@ -216,29 +215,6 @@ static PhaseResult emit_native_binary(const char *object_name) {
 	return exit_code ? PHASE_ERR : PHASE_DONE;
 }
 
-/*
-Return `str` as a single word for the shell, no matter what it contains.
-*/
-static char *quote_for_shell(const char *str) {
-	char *quoted = Malloc((strlen(str) * 4) + 3);
-	char *pos = quoted;
-
-	*pos++ = '\'';
-
-	for (; *str; str++) {
-		if (*str == '\'') {
-			memcpy(pos, "'\\''", 4);
-			pos += 4;
-		}
-		else *pos++ = *str;
-	}
-
-	*pos++ = '\'';
-	*pos = '\0';
-
-	return quoted;
-}
-
 static int sh(char *argv[]) {
 	errno = 0;
 	const pid_t pid = fork();
diff --git a/skull/common/str.c b/skull/common/str.c
index 312618e..eeddeba 100644
--- a/skull/common/str.c
+++ b/skull/common/str.c
@@ -380,3 +380,28 @@ __attribute__((format(printf, 1, 2))) char *uvsnprintf(
 #else
 # pragma GCC diagnostic pop
 #endif
+
+/*
+Return `str` as a single word for the shell, no matter what it contains.
+
+The result of this function must be freed.
+*/
+char *quote_for_shell(const char *str) {
+	char *quoted = Malloc((strlen(str) * 4) + 3);
+	char *pos = quoted;
+
+	*pos++ = '\'';
+
+	for (; *str; str++) {
+		if (*str == '\'') {
+			memcpy(pos, "'\\''", 4);
+			pos += 4;
+		}
+		else *pos++ = *str;
+	}
+
+	*pos++ = '\'';
+	*pos = '\0';
+
+	return quoted;
+}
diff --git a/skull/common/str.h b/skull/common/str.h
index a7dcf71..28e8f70 100644
--- a/skull/common/str.h
+++ b/skull/common/str.h
@@ -24,3 +24,5 @@ _Bool c32isalnum(char32_t);
 char32_t c32sunescape(const char32_t **, const char32_t **);
 
 char *uvsnprintf(const char *const, ...);
+
+char *quote_for_shell(const char *);
-- 
2.43.0


From e8c22455625bb4572560afe611a378a76a440592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:09 +0000
Subject: [PATCH 52/52] fix: quote file names in C backend output

---
 skull/codegen/c/assign.c | 14 +++++++----
 skull/codegen/c/debug.c  |  8 +++++--
 skull/codegen/c/func.c   |  7 ++++--
 skull/codegen/c/shared.c | 51 ++++++++++++++++++++++++++++++++++++++++
 skull/codegen/c/shared.h |  2 ++
 skull/codegen/c/write.c  | 23 +++++++++++-------
 6 files changed, 89 insertions(+), 16 deletions(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index d288d85..024e7d7 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -82,13 +82,16 @@ static CStmt gen_stmt_global_var(
 	char *old_globals = state->globals;
 
 	if (var->is_exported) {
+		char *symbol = quote_c_symbol(var->linkage_name);
+
 		state->globals = uvsnprintf(
-			"%s\n%s %s __asm__(\"%s\");",
+			"%s\n%s %s __asm__(%s);",
 			old_globals ? old_globals : "",
 			type,
 			var->name,
-			var->linkage_name
+			symbol
 		);
+		free(symbol);
 	}
 	else {
 		state->globals = uvsnprintf(
@@ -161,16 +164,19 @@ static void gen_stmt_constexpt_global_var(
 
 	if (var->is_exported) {
 		assert(var->is_const);
-		fmt = "%s\nconst %s %s __asm__(\"%s\") = %s;";
+		fmt = "%s\nconst %s %s __asm__(%s) = %s;";
+
+		char *symbol = quote_c_symbol(var->linkage_name);
 
 		state->globals = uvsnprintf(
 			fmt,
 			old_globals ? old_globals : "",
 			type,
 			var->name,
-			var->linkage_name,
+			symbol,
 			value
 		);
+		free(symbol);
 	}
 	else {
 		if (var->is_const) fmt = "%s\nstatic const %s %s = %s;";
diff --git a/skull/codegen/c/debug.c b/skull/codegen/c/debug.c
index a55662a..49126c5 100644
--- a/skull/codegen/c/debug.c
+++ b/skull/codegen/c/debug.c
@@ -2,20 +2,24 @@
 
 #include "skull/build_data.h"
 #include "skull/codegen/c/debug.h"
+#include "skull/codegen/c/shared.h"
 
 #include "skull/common/str.h"
 
 char *apply_debug_info(char *str, const AstNode *node) {
 	if (!BUILD_DATA.debug) return str;
 
+	char *filename = quote_c_string(BUILD_DATA.filename);
+
 	char *old = str;
 	str = uvsnprintf(
-		"#line %li \"%s\"\n%s",
+		"#line %li %s\n%s",
 		node->token->location.line,
-		BUILD_DATA.filename,
+		filename,
 		old
 	);
 	free(old);
+	free(filename);
 
 	return str;
 }
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 8892e85..7696c7c 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -67,13 +67,16 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 
 	char *fwd_decl = NULL;
 	if (func->is_export) {
+		char *linkage_name = quote_c_symbol(symbol->linkage_name);
+
 		fwd_decl = uvsnprintf(
-			"%s %s(%s) __asm__(\"%s\");\n",
+			"%s %s(%s) __asm__(%s);\n",
 			return_type,
 			symbol->name,
 			param_list,
-			symbol->linkage_name
+			linkage_name
 		);
+		free(linkage_name);
 	}
 
 	if (func->is_external) {
diff --git a/skull/codegen/c/shared.c b/skull/codegen/c/shared.c
index 47997b2..b0025ae 100644
--- a/skull/codegen/c/shared.c
+++ b/skull/codegen/c/shared.c
@@ -1,3 +1,5 @@
+#include <ctype.h>
+#include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -29,6 +31,55 @@ char *get_indentation(const SkullStateC *state) {
 	return tabs;
 }
 
+/*
+Return `str` as a C string literal (including the quotes).
+*/
+char *quote_c_string(const char *str) {
+	char *out = Malloc(strlen(str) * 2 + 3);
+	char *pos = out;
+
+	*pos++ = '"';
+	for (; *str; str++) {
+		if (*str == '"' || *str == '\\' || *str == '\n') *pos++ = '\\';
+		*pos++ = *str == '\n' ? 'n' : *str;
+	}
+	*pos++ = '"';
+	*pos = '\0';
+
+	return out;
+}
+
+/*
+Return `name` as a C string literal which names a symbol for the assembler.
+A name which the assembler cannot read as is (because of the characters in the
+name of the module) is put in quotes.
+*/
+char *quote_c_symbol(const char *name) {
+	bool is_plain = !isdigit((unsigned char)*name);
+
+	for (const char *c = name; *c; c++) {
+		is_plain &= *c == '.' || *c == '_' || isalnum((unsigned char)*c);
+	}
+
+	if (is_plain) return quote_c_string(name);
+
+	char *symbol = Malloc(strlen(name) * 2 + 3);
+	char *pos = symbol;
+
+	*pos++ = '"';
+	for (; *name; name++) {
+		if (*name == '"' || *name == '\\') *pos++ = '\\';
+		*pos++ = *name;
+	}
+	*pos++ = '"';
+	*pos = '\0';
+
+	char *out = quote_c_string(symbol);
+	free(symbol);
+
+	return out;
+}
+
 void free_c_state(SkullStateC *state) {
 	if (!state) return;
 
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index dc4ed1f..54d981e 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -15,4 +15,6 @@ typedef struct {
 
 SkullStateC *setup_c_state(SemanticState *);
 char *get_indentation(const SkullStateC *);
+char *quote_c_string(const char *);
+char *quote_c_symbol(const char *);
 void free_c_state(SkullStateC *);
diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 7d105a1..4e15c89 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -73,30 +73,37 @@ static void print_main_shim(
 	const char *module_name,
 	const SkullStateC *state
 ) {
+	char *symbol = quote_c_symbol(module_name);
+
 	if (BUILD_DATA.debug) {
+		char *source_name = quote_c_string(BUILD_DATA.filename);
+
 		fprintf(
 			f,
-			"#line 1 \"%s\"\n" \
-			"static int init(void) __asm__(\"%s\");\n" \
+			"#line 1 %s\n" \
+			"static int init(void) __asm__(%s);\n" \
 			"static int init(void) {\n%s\n\treturn 0;\n}\n" \
-			"#line 1 \"%s\"\n" \
+			"#line 1 %s\n" \
 			"int main(void) { return init(); }\n",
-			BUILD_DATA.filename,
-			module_name,
+			source_name,
+			symbol,
 			state->tree ? state->tree : "",
-			BUILD_DATA.filename
+			source_name
 		);
+		free(source_name);
 	}
 	else {
 		fprintf(
 			f,
-			"static int init(void) __asm__(\"%s\");\n" \
+			"static int init(void) __asm__(%s);\n" \
 			"static int init(void) {\n%s\n\treturn 0;\n}\n" \
 			"int main(void) { return init(); }\n",
-			module_name,
+			symbol,
 			state->tree ? state->tree : ""
 		);
 	}
+
+	free(symbol);
 }
 
 
-- 
2.43.0

