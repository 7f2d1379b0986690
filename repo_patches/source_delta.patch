From 48a7bd2a8d56dccfc77f8ca28bce615a7ee9c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 001/123] fix: evaluate #if expressions in intmax_t/uintmax_t

---
 preprocess.c | 2 ++
 slimcc.h     | 2 ++
 type.c       | 9 +++++++++
 3 files changed, 13 insertions(+)

diff --git a/preprocess.c b/preprocess.c
index 673b28c..ed1f233 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -379,7 +379,9 @@ static int64_t eval_const_expr(Token *tok) {
   arena_on(&node_arena);
 
   Token *end;
+  is_pp_expr = true;
   int64_t val = const_expr(&end, tok);
+  is_pp_expr = false;
 
   arena_off(&node_arena);
   arena_off(&ast_arena);
diff --git a/slimcc.h b/slimcc.h
index 8590058..299b1a3 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -627,6 +627,8 @@ extern Type *ty_ptrdiff_t;
 extern Type *ty_first_64bit_int;
 extern Type *ty_first_64bit_uint;
 
+extern bool is_pp_expr;
+
 bool is_integer(Type *ty);
 bool is_flonum(Type *ty);
 bool is_numeric(Type *ty);
diff --git a/type.c b/type.c
index 4f2e385..31c85e4 100644
--- a/type.c
+++ b/type.c
@@ -27,6 +27,9 @@ Type *ty_ptrdiff_t;
 Type *ty_first_64bit_int;
 Type *ty_first_64bit_uint;
 
+// True while evaluating the operand of #if, #elif or #embed limit().
+bool is_pp_expr;
+
 Type *to_unsigned(TypeKind kind) {
   switch (kind) {
     case TY_INT:
@@ -320,6 +323,12 @@ static void int_promotion(Node **node) {
   Type *ty = (*node)->ty;
   int bit_width;
 
+  // [C 6.10.1] In #if, all integer types act as intmax_t or uintmax_t.
+  if (is_pp_expr) {
+    *node = new_cast(*node, ty->is_unsigned ? ty_ullong : ty_llong);
+    return;
+  }
+
   if (is_bitfield2(*node, &bit_width)) {
     int int_width = ty_int->size * 8;
 
-- 
2.43.0


From df7f96673c0b9769204d6d608f4399e355ed06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 002/123] fix: convert floating constants with a single
 rounding

---
 tokenize.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 3554614..5f14aa8 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -595,18 +595,19 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
     return ty;
 
   // If it's not an integer, it must be a floating point constant.
+  // Convert with the precision of its type, so that it is rounded only once.
   char *end;
   long double val = strtold(buf, &end);
 
   if (*end == 'f' || *end == 'F') {
-    val = (float)val;
+    val = strtof(buf, &end);
     ty = ty_float;
     end++;
   } else if (*end == 'l' || *end == 'L') {
     ty = ty_ldouble;
     end++;
   } else {
-    val = (double)val;
+    val = strtod(buf, &end);
     ty = ty_double;
   }
 
-- 
2.43.0


From 2e350af60ac0e7c78ebe3c11ab4a45d741d343f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 003/123] fix: fold double arithmetic with a single rounding

---
 parse.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index 227a82b..920f736 100644
--- a/parse.c
+++ b/parse.c
@@ -3149,6 +3149,29 @@ static long double eval_fp_cast(long double fval, Type *ty) {
   internal_error();
 }
 
+// Operate in the precision of the type, rounding through long double
+// does not always give the correctly rounded double.
+static long double eval_fp_arith(NodeKind kind, long double lval, long double rval, Type *ty) {
+  if (ty->kind == TY_LDOUBLE) {
+    switch (kind) {
+    case ND_ADD: return lval + rval;
+    case ND_SUB: return lval - rval;
+    case ND_MUL: return lval * rval;
+    case ND_DIV: return lval / rval;
+    }
+    internal_error();
+  }
+  double l = lval;
+  double r = rval;
+  switch (kind) {
+  case ND_ADD: return eval_fp_cast(l + r, ty);
+  case ND_SUB: return eval_fp_cast(l - r, ty);
+  case ND_MUL: return eval_fp_cast(l * r, ty);
+  case ND_DIV: return eval_fp_cast(l / r, ty);
+  }
+  internal_error();
+}
+
 static long double eval_double(Node *node) {
   if (eval_recover && *eval_recover)
     return false;
@@ -3158,10 +3181,14 @@ static long double eval_double(Node *node) {
   Node *rhs = node->rhs;
 
   switch (node->kind) {
-  case ND_ADD: return eval_fp_cast(eval_double(lhs) + eval_double(rhs), ty);
-  case ND_SUB: return eval_fp_cast(eval_double(lhs) - eval_double(rhs), ty);
-  case ND_MUL: return eval_fp_cast(eval_double(lhs) * eval_double(rhs), ty);
-  case ND_DIV: return eval_fp_cast(eval_double(lhs) / eval_double(rhs), ty);
+  case ND_ADD:
+  case ND_SUB:
+  case ND_MUL:
+  case ND_DIV: {
+    long double lval = eval_double(lhs);
+    long double rval = eval_double(rhs);
+    return eval_fp_arith(node->kind, lval, rval, ty);
+  }
   case ND_POS:
     return eval_double(lhs);
   case ND_NEG:
-- 
2.43.0


From 29a17dd14ca1399b53622d64d0a1ff78d58f4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 004/123] fix: round folded integer to floating conversions

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 920f736..fe54f39 100644
--- a/parse.c
+++ b/parse.c
@@ -3202,8 +3202,8 @@ static long double eval_double(Node *node) {
     if (is_flonum(lhs->ty))
       return eval_fp_cast(eval_double(lhs), ty);
     if (lhs->ty->size == 8 && lhs->ty->is_unsigned)
-      return (uint64_t)eval(lhs);
-    return eval(lhs);
+      return eval_fp_cast((uint64_t)eval(lhs), ty);
+    return eval_fp_cast(eval(lhs), ty);
   case ND_NUM:
     return node->fval;
   }
-- 
2.43.0


From e27566d640436066aceee545537e77c062147aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 005/123] fix: accept dereferences of array names in address
 constants

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index fe54f39..fa91889 100644
--- a/parse.c
+++ b/parse.c
@@ -3025,6 +3025,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
 
     if (node->kind == ND_DEREF) {
       switch (node->lhs->kind) {
+      case ND_VAR:
       case ND_MEMBER:
       case ND_CAST:
       case ND_ADD:
-- 
2.43.0


From 202424e1d60d66e6d9d11cbe5d43169f3b5340e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 006/123] fix: do not modify the underlying type of an enum
 with a fixed type

---
 parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index fa91889..2582157 100644
--- a/parse.c
+++ b/parse.c
@@ -1380,7 +1380,9 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   if (first)
     error_tok(tok, "empty enum specifier");
 
-  if (base_ty->kind == TY_INT && !been_negative && !been_unsigned)
+  if (has_type)
+    ; // The type is fixed or already complete, and may be a shared basic type.
+  else if (base_ty->kind == TY_INT && !been_negative && !been_unsigned)
     update_enum_ty(ty, ty_uint, true);
   else if (been_negative && been_unsigned)
     update_enum_ty(ty, ty_first_64bit_int, false);
-- 
2.43.0


From 63f4372790fa3411b20c2b141da606b581ce01cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 007/123] fix: read integer constants in #if as
 intmax_t/uintmax_t

---
 tokenize.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 5f14aa8..26bc654 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -527,7 +527,9 @@ static bool convert_pp_int(char *loc, int len, Type **res_ty, int64_t *res_val)
 
   // Infer a type.
   Type *ty;
-  if (base == 10) {
+  if (is_pp_expr) {
+    ty = (u || (val >> 63)) ? ty_ullong : ty_llong;
+  } else if (base == 10) {
     if (ll && u)
       ty = ty_ullong;
     else if (l && u)
-- 
2.43.0


From 295cbecee9591cc87fb5b4a64fd361a2eeceb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 008/123] fix: sign-extend 8/16/32-bit bit-fields of 64-bit
 types

---
 codegen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codegen.c b/codegen.c
index 9748ec2..2874204 100644
--- a/codegen.c
+++ b/codegen.c
@@ -648,6 +648,8 @@ static void gen_bitfield_load(Node *node, int ofs) {
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
   if (alt_ty && (mem->bit_offset == (mem->bit_offset / 8 * 8))) {
     load2(alt_ty, ofs + mem->bit_offset / 8, "%rax");
+    if (mem->ty->size == 8 && alt_ty->size < 8 && !alt_ty->is_unsigned)
+      Printstn("movslq %%eax, %%rax");
     return;
   }
   load2(mem->ty, ofs, "%rax");
@@ -669,6 +671,12 @@ static void gen_bitfield_store(Node *node, bool is_void) {
 
     if (!is_void && alt_ty->size < 4)
       cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+    if (!is_void && mem->ty->size == 8 && alt_ty->size < 8) {
+      if (alt_ty->is_unsigned)
+        Printstn("movl %%eax, %%eax");
+      else
+        Printstn("movslq %%eax, %%rax");
+    }
     return;
   }
 
-- 
2.43.0


From bffa87321d0ae5455095e0bd0c239337971fb843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 009/123] fix: static initialisation of 64-bit wide and _Bool
 bit-fields

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 2582157..569a6f0 100644
--- a/parse.c
+++ b/parse.c
@@ -2074,12 +2074,12 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
         if (mem->is_bitfield &&
           ((init2->kind == INIT_EXPR || init2->kind == INIT_TOK))) {
           Node *node = init_num_tok(init2, &(Node){.kind = ND_NUM, .tok = init2->tok});
-          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = ty};
+          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
           char *loc = buf + offset + mem->offset;
           uint64_t oldval = read_buf(loc, mem->ty->size);
           uint64_t newval = eval(&init_expr);
-          uint64_t mask = (1L << mem->bit_width) - 1;
+          uint64_t mask = ~0ULL >> (64 - mem->bit_width);
           uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
           memcpy(loc, &combined, mem->ty->size);
           continue;
-- 
2.43.0


From 34718c45ac9341be17836c18d3cea15d825e70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 010/123] fix: conversions from long double to short and
 unsigned types

---
 codegen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 2874204..23a6d9f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1076,10 +1076,10 @@ static char f64f80[] = "sub $8, %rsp; movsd %xmm0, (%rsp); fldl (%rsp); add $8,
 
 static char f80i8[] = FROM_F80_1 "fistps" FROM_F80_2 "movsbl (%rsp), %eax" FROM_F80_3;
 static char f80u8[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl (%rsp), %eax" FROM_F80_3;
 static char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
-static char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
+static char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %rax" FROM_F80_3;
 static char f80u64[] =
   "sub $16, %rsp; movl $0x5f000000, 12(%rsp); flds 12(%rsp); fucomi %st(1), %st; setbe %al;"
-- 
2.43.0


From 2cdfe8a77a00b1ef0472c1ea01607149f5bb8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 011/123] fix: negated floating comparisons with NaN operands

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 23a6d9f..31a1406 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2850,7 +2850,8 @@ static bool gen_bool_opt(Node *node) {
     return false;
   node = boolexpr;
 
-  if (is_cmp(node)) {
+  // Ordered floating comparisons cannot be inverted, NaN makes both false.
+  if (is_cmp(node) && is_gp_ty(node->lhs->ty)) {
     Node n = *node;
     flip_cmp(&n.kind, flip);
     gen_expr(&n);
-- 
2.43.0


From 77ff22fdb0ae25d10ad330ca5f6f4fe595f6effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 012/123] fix: remove unused long double results from the x87
 stack

---
 codegen.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 31a1406..c5a59a1 100644
--- a/codegen.c
+++ b/codegen.c
@@ -471,6 +471,13 @@ static void pop_by_ty(Type *ty) {
   }
 }
 
+// The x87 register stack must be empty across statements and calls,
+// unused results need to be removed.
+static void drop_x87(Type *ty) {
+  if (ty->kind == TY_LDOUBLE)
+    Printstn("fstp %%st(0)");
+}
+
 static void push_copy(int sz) {
   assert(sz > 0);
   for (int ofs = ((sz - 1) / 8 * 8); ofs >= 0; ofs -= 8)
@@ -1114,8 +1121,10 @@ static void gen_cast(Node *node) {
   }
   gen_expr(node->lhs);
 
-  if (node->ty->kind == TY_VOID)
+  if (node->ty->kind == TY_VOID) {
+    drop_x87(node->lhs->ty);
     return;
+  }
 
   int t1 = getTypeId(node->lhs->ty);
   int t2 = getTypeId(node->ty);
@@ -1704,6 +1713,7 @@ static void gen_expr2(Node *node, bool is_void) {
     push_from("%rcx");
     gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
     store(node->lhs, true);
+    drop_x87(node->lhs->ty);
     pop_by_ty(node->lhs->ty);
     return;
   case ND_STMT_EXPR:
@@ -2297,6 +2307,7 @@ static void gen_void_arith_assign(Node *node) {
     }
   }
   gen_expr2(node, true);
+  drop_x87(node->ty);
 }
 
 static void gen_void_assign(Node *node) {
@@ -2339,6 +2350,7 @@ static void gen_void_assign(Node *node) {
   }
 
   gen_expr2(node, true);
+  drop_x87(node->ty);
 }
 
 static void gen_void_expr(Node *node) {
@@ -2389,6 +2401,7 @@ static void gen_void_expr(Node *node) {
     return;
   }
   gen_expr2(node, true);
+  drop_x87(node->ty);
 }
 
 static char *arith_ins(NodeKind kind) {
-- 
2.43.0


From aac61b9a373b589eb1e46f40dfce455c16bdceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:16 +0000
Subject: [PATCH 013/123] fix: value of postfix increment and decrement of long
 double

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index c5a59a1..18e7c8b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1709,6 +1709,8 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_addr(node->lhs);
     Printstn("movq %%rax, %%rcx");
     load(node->lhs, 0);
+    if (node->lhs->ty->kind == TY_LDOUBLE)
+      Printstn("fld %%st(0)");
     push_by_ty(node->lhs->ty);
     push_from("%rcx");
     gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
-- 
2.43.0


From ce3d36b1ff9ebaa54c51572f86b734df7b1abf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 014/123] fix: classify struct arguments and return values per
 the psABI

---
 codegen.c | 205 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 137 insertions(+), 68 deletions(-)

diff --git a/codegen.c b/codegen.c
index 18e7c8b..c708b7d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1144,49 +1144,96 @@ static void gen_cast(Node *node) {
 //
 // This function returns true if `ty` has only floating-point
 // members in its byte range [lo, hi).
-static bool has_flonum(Type *ty, int lo, int hi, int offset) {
-  if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
+// Argument classes of the System V x86-64 psABI, 3.2.3.
+typedef enum { CLS_NONE, CLS_INT, CLS_SSE, CLS_X87, CLS_X87UP, CLS_MEM } ArgClass;
+
+static void merge_class(ArgClass *cls, ArgClass c) {
+  if (*cls == c || c == CLS_NONE)
+    return;
+  if (*cls == CLS_NONE)
+    *cls = c;
+  else if (*cls == CLS_MEM || c == CLS_MEM)
+    *cls = CLS_MEM;
+  else if (*cls == CLS_INT || c == CLS_INT)
+    *cls = CLS_INT;
+  else
+    *cls = CLS_MEM;
+}
+
+static void classify_fields(Type *ty, int offset, ArgClass *cls) {
+  switch (ty->kind) {
+  case TY_STRUCT:
+  case TY_UNION:
     for (Member *mem = ty->members; mem; mem = mem->next) {
-      int ofs = offset + mem->offset;
-      if ((ofs + mem->ty->size) <= lo)
+      if (!mem->is_bitfield) {
+        classify_fields(mem->ty, offset + mem->offset, cls);
         continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(mem->ty, lo, hi, ofs))
-        return false;
+      }
+      if (mem->bit_width) {
+        int bit = (offset + mem->offset) * 8 + mem->bit_offset;
+        merge_class(&cls[bit / 64], CLS_INT);
+        merge_class(&cls[(bit + mem->bit_width - 1) / 64], CLS_INT);
+      }
     }
-    return true;
+    return;
+  case TY_ARRAY:
+    for (int i = 0; i < ty->array_len; i++)
+      classify_fields(ty->base, offset + ty->base->size * i, cls);
+    return;
   }
 
-  if (ty->kind == TY_ARRAY) {
-    for (int i = 0; i < ty->array_len; i++) {
-      int ofs = offset + ty->base->size * i;
-      if ((ofs + ty->base->size) <= lo)
-        continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(ty->base, lo, hi, ofs))
-        return false;
-    }
-    return true;
+  if (offset % ty->size) {
+    cls[0] = CLS_MEM;
+    return;
+  }
+  switch (ty->kind) {
+  case TY_FLOAT:
+  case TY_DOUBLE:
+    merge_class(&cls[offset / 8], CLS_SSE);
+    return;
+  case TY_LDOUBLE:
+    merge_class(&cls[0], CLS_X87);
+    merge_class(&cls[1], CLS_X87UP);
+    return;
   }
+  merge_class(&cls[offset / 8], CLS_INT);
+}
+
+// Class of the first or second eightbyte of a struct or union.
+static ArgClass eightbyte_class(Type *ty, int idx) {
+  ArgClass cls[2] = {CLS_NONE, CLS_NONE};
+  if (ty->size > 16)
+    return CLS_MEM;
 
-  return ty->kind == TY_FLOAT || ty->kind == TY_DOUBLE;
+  classify_fields(ty, 0, cls);
+  if (cls[0] == CLS_MEM || cls[1] == CLS_MEM)
+    return CLS_MEM;
+  if (cls[1] == CLS_X87UP && cls[0] != CLS_X87)
+    return CLS_MEM;
+  return cls[idx];
 }
 
-static bool has_flonum1(Type *ty) {
-  return has_flonum(ty, 0, 8, 0);
+static bool is_rtn_by_stk(Type *ty) {
+  return (ty->kind == TY_STRUCT || ty->kind == TY_UNION) &&
+    eightbyte_class(ty, 0) == CLS_MEM;
 }
 
-static bool has_flonum2(Type *ty) {
-  return has_flonum(ty, 8, 16, 0);
+static bool is_rtn_by_x87(Type *ty) {
+  return (ty->kind == TY_STRUCT || ty->kind == TY_UNION) &&
+    eightbyte_class(ty, 0) == CLS_X87;
+}
+
+static bool is_arg_by_stk(Type *ty) {
+  return is_rtn_by_stk(ty) || is_rtn_by_x87(ty);
+}
+
+static int count_class(Type *ty, ArgClass c) {
+  return (eightbyte_class(ty, 0) == c) + (ty->size > 8 && eightbyte_class(ty, 1) == c);
 }
 
 bool va_arg_need_copy(Type *ty) {
-  if (ty->size > 8 && ty->size <= 16) {
-    return has_flonum1(ty) || has_flonum2(ty);
-  }
-  return false;
+  return (ty->kind == TY_STRUCT || ty->kind == TY_UNION) && ty->size > 8 &&
+    !is_arg_by_stk(ty) && count_class(ty, CLS_INT) != 2;
 }
 
 static int calling_convention(Obj *var, int *gp_count, int *fp_count, int *stack_align) {
@@ -1200,9 +1247,9 @@ static int calling_convention(Obj *var, int *gp_count, int *fp_count, int *stack
     switch (ty->kind) {
     case TY_STRUCT:
     case TY_UNION:
-      if (ty->size <= 16) {
-        int fp_inc = has_flonum1(ty) + (ty->size > 8 && has_flonum2(ty));
-        int gp_inc = !has_flonum1(ty) + (ty->size > 8 && !has_flonum2(ty));
+      if (!is_arg_by_stk(ty)) {
+        int fp_inc = count_class(ty, CLS_SSE);
+        int gp_inc = count_class(ty, CLS_INT);
 
         if ((!fp_inc || (fp + fp_inc <= FP_MAX)) &&
           (!gp_inc || (gp + gp_inc <= GP_MAX))) {
@@ -1244,10 +1291,18 @@ static void copy_ret_buffer(Obj *var) {
   Type *ty = var->ty;
   int gp = 0, fp = 0;
 
+  if (is_rtn_by_x87(ty)) {
+    Printftn("fstpt %d(%s)", var->ofs, var->ptr);
+    return;
+  }
+
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
+    switch (eightbyte_class(ty, ofs / 8)) {
+    case CLS_NONE:
+      continue;
+    case CLS_SSE:
       if (chunk_sz == 4)
         Printftn("movss %%xmm%d, %d(%s)", fp, ofs + var->ofs, var->ptr);
       else
@@ -1270,10 +1325,18 @@ static void copy_struct_reg(void) {
   int gp = 0, fp = 0;
   char *sptr = "%rax";
 
+  if (is_rtn_by_x87(ty)) {
+    Printstn("fninit; fldt (%%rax)");
+    return;
+  }
+
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
+    switch (eightbyte_class(ty, ofs / 8)) {
+    case CLS_NONE:
+      continue;
+    case CLS_SSE:
       if (chunk_sz == 4)
         Printftn("movss %d(%s), %%xmm%d", ofs, sptr, fp);
       else
@@ -1303,17 +1366,22 @@ static void copy_struct_mem(void) {
 }
 
 static void gen_vaarg_reg_copy(Type *ty, Obj *var) {
-  int gp_inc = !has_flonum1(ty) + !has_flonum2(ty);
+  int gp_inc = count_class(ty, CLS_INT);
   if (gp_inc) {
     Printftn("cmpl $%d, (%%rax)", 48 - gp_inc * 8);
     Printstn("ja 1f");
   }
-  int fp_inc = has_flonum1(ty) + has_flonum2(ty);
-  Printftn("cmpl $%d, 4(%%rax)", 176 - fp_inc * 16);
-  Printstn("ja 1f");
+  int fp_inc = count_class(ty, CLS_SSE);
+  if (fp_inc) {
+    Printftn("cmpl $%d, 4(%%rax)", 176 - fp_inc * 16);
+    Printstn("ja 1f");
+  }
 
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
+    ArgClass cls = eightbyte_class(ty, ofs / 8);
+    if (cls == CLS_NONE)
+      continue;
+    if (cls == CLS_SSE) {
       Printstn("movl 4(%%rax), %%ecx");  // fp_offset
       Printstn("addq 16(%%rax), %%rcx"); // reg_save_area
       Printstn("addq $16, 4(%%rax)");
@@ -1395,16 +1463,15 @@ static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
   switch (ty->kind) {
   case TY_STRUCT:
   case TY_UNION:
-    if (has_flonum1(ty))
-      Printftn("movsd %s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-    else
-      Printftn("mov %s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
-
-    if (ty->size > 8) {
-      if (has_flonum2(ty))
-        Printftn("movsd 8+%s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-      else
-        Printftn("mov 8+%s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
+    for (int i = 0; i < ty->size; i += 8) {
+      switch (eightbyte_class(ty, i / 8)) {
+      case CLS_SSE:
+        Printftn("movsd %d+%s(%s), %%xmm%d", i, ofs, ptr, (*fp)++);
+        break;
+      case CLS_INT:
+        Printftn("mov %d+%s(%s), %s", i, ofs, ptr, argreg64[(*gp)++]);
+        break;
+      }
     }
     return;
   case TY_FLOAT:
@@ -1428,7 +1495,7 @@ static void gen_funcall_args(Node *node) {
     if (var->ptr)
       gen_var_assign(var, var->arg_expr);
 
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && is_rtn_by_stk(node->ty);
   int gp = rtn_by_stk, fp = 0;
 
   int reg_arg_cnt = 0;
@@ -1489,7 +1556,7 @@ static void gen_funcall(Node *node) {
 
   // If the return type is a large struct/union, the caller passes
   // a pointer to a buffer as if it were the first argument.
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && is_rtn_by_stk(node->ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_align;
@@ -1789,12 +1856,15 @@ static void gen_expr2(Node *node, bool is_void) {
   case ND_FUNCALL:
     gen_funcall(node);
 
-    if (!is_void) {
+    if (is_void) {
+      if (is_rtn_by_x87(node->ty))
+        Printstn("fstp %%st(0)");
+    } else {
       if (is_integer(node->ty) && node->ty->size < 4) {
         cast_extend_int32(node->ty, reg_ax(node->ty->size), "%eax");
         return;
       }
-      if (node->ret_buffer && node->ty->size <= 16) {
+      if (node->ret_buffer && !is_rtn_by_stk(node->ty)) {
         copy_ret_buffer(node->ret_buffer);
         Printftn("lea %d(%s), %%rax", node->ret_buffer->ofs, node->ret_buffer->ptr);
       }
@@ -1871,13 +1941,13 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->lhs);
 
     Type *ty = node->ty->base;
-    bool use_reg_save = ty->size <= 16 && ty->kind != TY_LDOUBLE;
+    bool use_reg_save = !is_arg_by_stk(ty) && ty->kind != TY_LDOUBLE;
     if (use_reg_save) {
       if (va_arg_need_copy(ty)) {
         // Structs with FP member are split into 8-byte chunks in the
         // reg save area, we reconstruct the layout with a local copy.
         gen_vaarg_reg_copy(ty, node->var);
-      } else if (has_flonum1(ty)) {
+      } else if (is_flonum(ty) || (!is_scalar(ty) && eightbyte_class(ty, 0) == CLS_SSE)) {
         Printftn("cmpl $%d, 4(%%rax)", 160);
         Printstn("ja 1f");
         Printstn("movl 4(%%rax), %%edx");  // fp_offset
@@ -2200,7 +2270,7 @@ static void gen_stmt(Node *node) {
     Type *ty = node->lhs->ty;
 
     if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
-      if (ty->size <= 16) {
+      if (!is_rtn_by_stk(ty)) {
         if (has_defr(node)) {
           push_copy(ty->size);
           gen_defr(node);
@@ -4073,7 +4143,7 @@ void emit_text(Obj *fn) {
   Printftn(".type \"%s\", @function", asm_name(fn));
   Printfsn("\"%s\":", asm_name(fn));
 
-  bool rtn_by_stk = fn->ty->return_ty->size > 16;
+  bool rtn_by_stk = is_rtn_by_stk(fn->ty->return_ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_size = calling_convention(fn->ty->param_list, &gp_count, &fp_count, NULL);
@@ -4153,16 +4223,15 @@ void emit_text(Obj *fn) {
     case TY_STRUCT:
     case TY_UNION:
       assert(ty->size <= 16);
-      if (has_flonum1(ty))
-        store_fp(fp++, MIN(8, ty->size), var->ofs, var->ptr);
-      else
-        store_gp(gp++, MIN(8, ty->size), var->ofs, var->ptr);
-
-      if (ty->size > 8) {
-        if (has_flonum2(ty))
-          store_fp(fp++, ty->size - 8, var->ofs + 8, var->ptr);
-        else
-          store_gp(gp++, ty->size - 8, var->ofs + 8, var->ptr);
+      for (int i = 0; i < ty->size; i += 8) {
+        switch (eightbyte_class(ty, i / 8)) {
+        case CLS_SSE:
+          store_fp(fp++, MIN(8, ty->size - i), var->ofs + i, var->ptr);
+          break;
+        case CLS_INT:
+          store_gp(gp++, MIN(8, ty->size - i), var->ofs + i, var->ptr);
+          break;
+        }
       }
       break;
     case TY_FLOAT:
@@ -4202,7 +4271,7 @@ void emit_text(Obj *fn) {
 
 // Logic should be in sync with gen_funcall_args()
 void prepare_funcall(Node *node, Scope *scope) {
-  bool rtn_by_stk = node->ty->size > 16;
+  bool rtn_by_stk = is_rtn_by_stk(node->ty);
   calling_convention(node->args, &(int){rtn_by_stk}, &(int){0}, NULL);
 
   int reg_arg_cnt = 0;
-- 
2.43.0


From 5a809efb3c5db87213ca6c54e734d5ef071a7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:41 +0000
Subject: [PATCH 015/123] fix: access bit-fields of packed structs by byte

---
 codegen.c | 63 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 parse.c   | 39 ++++++++++++++++++++++------------
 slimcc.h  |  1 +
 3 files changed, 90 insertions(+), 13 deletions(-)

diff --git a/codegen.c b/codegen.c
index c708b7d..e805b1c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -650,6 +650,58 @@ static void gen_cmp_setcc(NodeKind kind, bool is_unsigned) {
   Printstn("movzbl %%al, %%eax");
 }
 
+// Bit-fields of packed structs can straddle their storage unit and can
+// lie at the very end of an object, so they are accessed by byte.
+static void extend_packed_bitfield(Member *mem) {
+  if (mem->bit_width == 64)
+    return;
+  Printftn("shl $%d, %%rax", 64 - mem->bit_width);
+  Printftn("%s $%d, %%rax", (mem->ty->is_unsigned ? "shr" : "sar"), 64 - mem->bit_width);
+}
+
+static void gen_packed_bitfield_load(Member *mem, int ofs) {
+  int shft = mem->bit_offset % 8;
+  int byte_cnt = (shft + mem->bit_width + 7) / 8;
+
+  Printftn("lea %d(%%rax), %%rdx", ofs + mem->bit_offset / 8);
+  Printstn("xor %%eax, %%eax");
+  for (int i = byte_cnt - 1; i > 0; i--) {
+    Printstn("shl $8, %%rax");
+    Printftn("movb %d(%%rdx), %%al", i);
+  }
+  Printftn("shl $%d, %%rax", 8 - shft);
+  Printstn("movzbl (%%rdx), %%edx");
+  Printftn("shr $%d, %%edx", shft);
+  Printstn("or %%rdx, %%rax");
+  extend_packed_bitfield(mem);
+}
+
+static void gen_packed_bitfield_store(Member *mem, char *ptr) {
+  int shft = mem->bit_offset % 8;
+  int byte_cnt = (shft + mem->bit_width + 7) / 8;
+
+  for (int i = 0; i < byte_cnt; i++) {
+    int ofs = mem->bit_offset / 8 + i;
+    int lo = MAX(shft - i * 8, 0);
+    int hi = MIN(shft + mem->bit_width - i * 8, 8);
+    int msk = (1 << hi) - (1 << lo);
+
+    Printstn("mov %%rax, %%rdx");
+    if (i)
+      Printftn("shr $%d, %%rdx", i * 8 - shft);
+    else
+      Printftn("shl $%d, %%rdx", shft);
+
+    if (msk != 0xff) {
+      Printftn("and $%d, %%edx", msk);
+      Printftn("movzbl %d(%s), %%ecx", ofs, ptr);
+      Printftn("and $%d, %%ecx", 0xff - msk);
+      Printstn("or %%ecx, %%edx");
+    }
+    Printftn("movb %%dl, %d(%s)", ofs, ptr);
+  }
+}
+
 static void gen_bitfield_load(Node *node, int ofs) {
   Member *mem = node->member;
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
@@ -659,6 +711,10 @@ static void gen_bitfield_load(Node *node, int ofs) {
       Printstn("movslq %%eax, %%rax");
     return;
   }
+  if (mem->is_packed) {
+    gen_packed_bitfield_load(mem, ofs);
+    return;
+  }
   load2(mem->ty, ofs, "%rax");
 
   char *ax = regop_ax(mem->ty);
@@ -687,6 +743,13 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     return;
   }
 
+  if (mem->is_packed) {
+    gen_packed_bitfield_store(mem, pop_inreg(tmpreg64[0]));
+    if (!is_void)
+      extend_packed_bitfield(mem);
+    return;
+  }
+
   char *ax, *dx, *cx;
   if (mem->ty->size == 8)
     ax = "%rax", cx = "%rcx", dx = "%rdx";
diff --git a/parse.c b/parse.c
index 569a6f0..f3cec4b 100644
--- a/parse.c
+++ b/parse.c
@@ -2052,6 +2052,23 @@ static long double read_double_buf(char *buf, Type *ty){
   internal_error();
 }
 
+static void write_bitfield(char *loc, Member *mem, uint64_t val) {
+  for (int i = 0; i < mem->bit_width; i++) {
+    int bit = mem->bit_offset + i;
+    if (val >> i & 1)
+      loc[bit / 8] |= 1 << (bit % 8);
+  }
+}
+
+static uint64_t read_bitfield(char *loc, Member *mem) {
+  uint64_t val = 0;
+  for (int i = 0; i < mem->bit_width; i++) {
+    int bit = mem->bit_offset + i;
+    val |= (uint64_t)(loc[bit / 8] >> (bit % 8) & 1) << i;
+  }
+  return val;
+}
+
 static Relocation *
 write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int offset, EvalKind kind) {
   if (init->kind == INIT_NONE || init->kind == INIT_FLEXIBLE)
@@ -2076,12 +2093,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
           Node *node = init_num_tok(init2, &(Node){.kind = ND_NUM, .tok = init2->tok});
           Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
-          char *loc = buf + offset + mem->offset;
-          uint64_t oldval = read_buf(loc, mem->ty->size);
-          uint64_t newval = eval(&init_expr);
-          uint64_t mask = ~0ULL >> (64 - mem->bit_width);
-          uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
-          memcpy(loc, &combined, mem->ty->size);
+          write_bitfield(buf + offset + mem->offset, mem, eval(&init_expr));
           continue;
         }
         cur = write_gvar_data(cur, init2, mem->ty, buf, offset + mem->offset, kind);
@@ -3088,16 +3100,15 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
   if (ctx->kind == EV_CONST && is_integer(ty)) {
     char *data = eval_constexpr_data(node);
     if (data) {
-      int64_t val = eval_sign_extend(ty, read_buf(data, ty->size));
       if (is_bitfield(node)) {
         int unused_msb = 64 - node->member->bit_width;
-        val <<= (unused_msb - node->member->bit_offset);
+        int64_t val = read_bitfield(data, node->member) << unused_msb;
 
         if (ty->is_unsigned)
           return (uint64_t)val >> unused_msb;
         return val >> unused_msb;
       }
-      return val;
+      return eval_sign_extend(ty, read_buf(data, ty->size));
     }
   }
   return eval_error(node->tok, "not a compile-time constant");
@@ -3858,9 +3869,10 @@ static Type *struct_decl(Type *ty, int alt_align) {
   Member *cur = &head;
 
   for (Member *mem = ty->members; mem; mem = mem->next) {
+    mem->is_packed |= ty->is_packed;
     if (!mem->is_bitfield || mem->name) {
       cur = cur->next = mem;
-      if (!ty->is_packed)
+      if (!mem->is_packed)
         alt_align = MAX(alt_align, mem->ty->align);
       alt_align = MAX(alt_align, mem->alt_align);
     }
@@ -3875,7 +3887,7 @@ static Type *struct_decl(Type *ty, int alt_align) {
         continue;
       }
       int sz = mem->ty->size;
-      if (!ty->is_packed)
+      if (!mem->is_packed)
         if (bits / (sz * 8) != (bits + mem->bit_width - 1) / (sz * 8))
           bits = align_to(bits, sz * 8);
 
@@ -3884,7 +3896,7 @@ static Type *struct_decl(Type *ty, int alt_align) {
       bits += mem->bit_width;
       continue;
     }
-    if (ty->is_packed)
+    if (mem->is_packed)
       bits = align_to(bits, 8);
     else
       bits = align_to(bits, mem->ty->align * 8);
@@ -3909,9 +3921,10 @@ static Type *union_decl(Type *ty, int alt_align) {
   Member head = {0};
   Member *cur = &head;
   for (Member *mem = ty->members; mem; mem = mem->next) {
+    mem->is_packed |= ty->is_packed;
     if (!mem->is_bitfield || mem->name) {
       cur = cur->next = mem;
-      if (!ty->is_packed)
+      if (!mem->is_packed)
         alt_align = MAX(alt_align, mem->ty->align);
       alt_align = MAX(alt_align, mem->alt_align);
     }
diff --git a/slimcc.h b/slimcc.h
index 299b1a3..c468b1a 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -593,6 +593,7 @@ struct Member {
   int idx;
   int offset;
   int alt_align;
+  bool is_packed;
 
   // Bitfield
   bool is_bitfield;
-- 
2.43.0


From 9145027004f4a8ba2a9bdf7a27ee6228b2c7b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 016/123] fix: honour the packed attribute on struct members

---
 parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse.c b/parse.c
index f3cec4b..6c30023 100644
--- a/parse.c
+++ b/parse.c
@@ -3749,6 +3749,7 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
     }
 
     VarAttr attr = {0};
+    Token *start = tok;
     Type *basety = declspec(&tok, tok, &attr);
 
     // Anonymous struct member
@@ -3768,6 +3769,10 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
       Member *mem = ast_arena_calloc(sizeof(Member));
       mem->alt_align = attr.align;
       mem->ty = declarator2(&tok, tok, basety, &mem->name, &mem->alt_align);
+      bool_attr(start, TK_ATTR, "packed", &mem->is_packed);
+      bool_attr(tok, TK_ATTR, "packed", &mem->is_packed);
+      if (mem->name)
+        bool_attr(mem->name, TK_ATTR, "packed", &mem->is_packed);
       if (mem->name && !current_fn)
         mem->name->is_live = true;
 
@@ -3781,6 +3786,7 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
         if (mem->bit_width < 0)
           error_tok(tok, "bit-field with negative width");
         attr_aligned(tok, &mem->alt_align, TK_ATTR);
+        bool_attr(tok, TK_ATTR, "packed", &mem->is_packed);
       }
       cur = cur->next = mem;
     }
-- 
2.43.0


From e00329c19474f700b1996393fbb648b85e805817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 017/123] fix: classify nested aggregates recursively for
 argument passing

---
 codegen.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/codegen.c b/codegen.c
index e805b1c..ca2c9e9 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1226,19 +1226,25 @@ static void merge_class(ArgClass *cls, ArgClass c) {
 static void classify_fields(Type *ty, int offset, ArgClass *cls) {
   switch (ty->kind) {
   case TY_STRUCT:
-  case TY_UNION:
+  case TY_UNION: {
+    ArgClass cls2[2] = {CLS_NONE, CLS_NONE};
     for (Member *mem = ty->members; mem; mem = mem->next) {
       if (!mem->is_bitfield) {
-        classify_fields(mem->ty, offset + mem->offset, cls);
+        classify_fields(mem->ty, offset + mem->offset, cls2);
         continue;
       }
       if (mem->bit_width) {
         int bit = (offset + mem->offset) * 8 + mem->bit_offset;
-        merge_class(&cls[bit / 64], CLS_INT);
-        merge_class(&cls[(bit + mem->bit_width - 1) / 64], CLS_INT);
+        merge_class(&cls2[bit / 64], CLS_INT);
+        merge_class(&cls2[(bit + mem->bit_width - 1) / 64], CLS_INT);
       }
     }
+    if (offset % ty->align || cls2[1] == CLS_MEM || (cls2[1] == CLS_X87UP && cls2[0] != CLS_X87))
+      cls2[0] = CLS_MEM;
+    merge_class(&cls[0], cls2[0]);
+    merge_class(&cls[1], cls2[1]);
     return;
+  }
   case TY_ARRAY:
     for (int i = 0; i < ty->array_len; i++)
       classify_fields(ty->base, offset + ty->base->size * i, cls);
@@ -1269,11 +1275,7 @@ static ArgClass eightbyte_class(Type *ty, int idx) {
     return CLS_MEM;
 
   classify_fields(ty, 0, cls);
-  if (cls[0] == CLS_MEM || cls[1] == CLS_MEM)
-    return CLS_MEM;
-  if (cls[1] == CLS_X87UP && cls[0] != CLS_X87)
-    return CLS_MEM;
-  return cls[idx];
+  return cls[0] == CLS_MEM ? CLS_MEM : cls[idx];
 }
 
 static bool is_rtn_by_stk(Type *ty) {
-- 
2.43.0


From d4720097c8cc1a5ba535025bd383413967866b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 018/123] fix: pass the vector register count in calls through
 variadic function pointers

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index ca2c9e9..3ef26d1 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1647,7 +1647,8 @@ static void gen_funcall(Node *node) {
 
   gen_funcall_args(node);
 
-  if (node->lhs->ty->is_variadic) {
+  Type *fn_ty = node->lhs->ty->kind == TY_FUNC ? node->lhs->ty : node->lhs->ty->base;
+  if (fn_ty->is_variadic || fn_ty->is_oldstyle) {
     if (fp_count)
       Printftn("movb $%d, %%al", fp_count);
     else
-- 
2.43.0


From ebe82597defda326044530d9615ebb2c47d902a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:30 +0000
Subject: [PATCH 019/123] fix: promote the controlling expression of switch

---
 parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.c b/parse.c
index 6c30023..68dce32 100644
--- a/parse.c
+++ b/parse.c
@@ -2544,6 +2544,10 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
     if (!is_integer(node->cond->ty))
       error_tok(tok, "controlling expression not integer");
 
+    // [C 6.8.4.2] Integer promotions apply to the controlling expression.
+    node->cond = new_unary(ND_POS, node->cond, tok);
+    add_type(node->cond);
+
     JumpContext ctx = {.next = jump_ctx, .switch_node = node};
     jump_ctx = &ctx;
 
-- 
2.43.0


From a3f28c0d75ed3b16d86c7a0e5142db877e5be81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:48 +0000
Subject: [PATCH 020/123] fix: keep __builtin_alloca memory when VLAs are
 released

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index 68dce32..9b26989 100644
--- a/parse.c
+++ b/parse.c
@@ -4310,6 +4310,7 @@ static Node *primary(Token **rest, Token *tok) {
     return generic_selection(rest, tok->next);
 
   if (equal(tok, "__builtin_alloca")) {
+    dont_dealloc_vla = true;
     Node *node = new_node(ND_ALLOCA, tok);
     tok = skip(tok->next, "(");
     node->lhs = assign(&tok, tok);
-- 
2.43.0


From 32191884c0465086f58a468d1055aa3bcbc08b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 021/123] fix: give each copy of a deferred statement its own
 labels

---
 codegen.c | 46 ++++++++++++++++++++++++++++++----------------
 slimcc.h  |  1 +
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index 3ef26d1..9b319ce 100644
--- a/codegen.c
+++ b/codegen.c
@@ -91,6 +91,7 @@ static int va_gp_start;
 static int va_fp_start;
 static int va_st_start;
 static int vla_base_ofs;
+static int64_t defr_copy;
 static int rtn_ptr_ofs;
 static int lvar_stk_sz;
 static int peak_stk_usage;
@@ -1475,6 +1476,14 @@ static void builtin_alloca(Node *node) {
     Printstn("mov %%rsp, %%rax");
 }
 
+// A deferred statement is emitted at every exit of its scope, each
+// copy needs its own set of labels.
+static char *local_label(char *label) {
+  if (!defr_copy)
+    return label;
+  return format("%s.%"PRIi64, label, defr_copy);
+}
+
 static void gen_defr(Node *node) {
   DeferStmt *defr = node->defr_start;
   DeferStmt *end = node->defr_end;
@@ -1504,7 +1513,12 @@ static void gen_defr(Node *node) {
       continue;
     }
     if (defr->kind == DF_DEFER_STMT) {
+      int64_t prev = defr_copy;
+      if (defr->is_emitted)
+        defr_copy = count();
+      defr->is_emitted = true;
       gen_stmt(defr->stmt);
+      defr_copy = prev;
       defr = defr->next;
       continue;
     }
@@ -1937,7 +1951,7 @@ static void gen_expr2(Node *node, bool is_void) {
     }
     return;
   case ND_LABEL_VAL:
-    Printftn("lea %s(%%rip), %%rax", node->unique_label);
+    Printftn("lea %s(%%rip), %%rax", local_label(node->unique_label));
     return;
   case ND_CAS: {
     gen_expr(node->cas_addr);
@@ -2250,14 +2264,14 @@ static void gen_stmt(Node *node) {
       gen_stmt(node->init);
     Printfsn(".L.begin.%"PRIi64":", c);
     if (node->cond)
-      gen_cond(node->cond, false, node->brk_label);
+      gen_cond(node->cond, false, local_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", local_label(node->cont_label));
     if (node->inc)
       gen_void_expr(node->inc);
     gen_defr(node);
     Printftn("jmp .L.begin.%"PRIi64, c);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", local_label(node->brk_label));
     return;
   }
   case ND_DO: {
@@ -2266,9 +2280,9 @@ static void gen_stmt(Node *node) {
 
     Printfsn("%s:", begin_label);
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", local_label(node->cont_label));
     gen_cond(node->cond, true, begin_label);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", local_label(node->brk_label));
     return;
   }
   case ND_SWITCH: {
@@ -2287,26 +2301,26 @@ static void gen_stmt(Node *node) {
 
       if (cr->hi == cr->lo) {
         imm_cmp(ax, dx, cr->lo);
-        Printftn("je %s", cr->label);
+        Printftn("je %s", local_label(cr->label));
         continue;
       }
       if (cr->lo == 0) {
         imm_cmp(ax, dx, cr->hi);
-        Printftn("jbe %s", cr->label);
+        Printftn("jbe %s", local_label(cr->label));
         continue;
       }
       Printftn("mov %s, %s", ax, cx);
       imm_sub(cx, dx, cr->lo);
       imm_cmp(cx, dx, cr->hi - cr->lo);
-      Printftn("jbe %s", cr->label);
+      Printftn("jbe %s", local_label(cr->label));
     }
 
     if (node->default_case)
-      Printftn("jmp %s", node->default_case->label);
+      Printftn("jmp %s", local_label(node->default_case->label));
 
-    Printftn("jmp %s", node->brk_label);
+    Printftn("jmp %s", local_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", local_label(node->brk_label));
     return;
   }
   case ND_BLOCK:
@@ -2316,14 +2330,14 @@ static void gen_stmt(Node *node) {
     return;
   case ND_GOTO:
     gen_defr(node);
-    Printftn("jmp %s", node->unique_label);
+    Printftn("jmp %s", local_label(node->unique_label));
     return;
   case ND_GOTO_EXPR:
     gen_expr(node->lhs);
     Printstn("jmp *%%rax");
     return;
   case ND_LABEL:
-    Printfsn("%s:", node->unique_label);
+    Printfsn("%s:", local_label(node->unique_label));
     return;
   case ND_RETURN: {
     if (!node->lhs) {
@@ -3812,7 +3826,7 @@ static void asm_body(Node *node) {
       if (node->asm_outputs)
         Printf("%df", ap->label_id);
       else
-        Printf("%s", ap->arg->unique_label);
+        Printf("%s", local_label(ap->arg->unique_label));
       continue;
     }
 
@@ -3962,7 +3976,7 @@ static void gen_asm(Node *node) {
     Printftn("lea %df(%%rip), %s; jmp %df", fallthrough_label, tmp_gp, meet_label);
     for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
       Printftn("%d:", ap->label_id);
-      Printftn("lea %s(%%rip), %s", ap->arg->unique_label, tmp_gp);
+      Printftn("lea %s(%%rip), %s", local_label(ap->arg->unique_label), tmp_gp);
       Printftn("jmp %df", meet_label);
     }
     Printftn("%d:", meet_label);
diff --git a/slimcc.h b/slimcc.h
index c468b1a..c0c5c27 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -318,6 +318,7 @@ struct DeferStmt {
   Obj *vla;
   Node *cleanup_fn;
   Node *stmt;
+  bool is_emitted;
 };
 
 typedef enum {
-- 
2.43.0


From c037554b7045aa2ac5002d9ea2489688182b3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 022/123] fix: exponential time finding the alignment of nested
 scopes

---
 codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9b319ce..df71596 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4003,8 +4003,10 @@ static int get_lvar_align(Scope *scp, int align) {
       continue;
     align = MAX(align, var->align);
   }
-  for (Scope *sub = scp->children; sub; sub = sub->sibling_next)
-    align = MAX(align, get_lvar_align(sub, align));
+  for (Scope *sub = scp->children; sub; sub = sub->sibling_next) {
+    int sub_align = get_lvar_align(sub, align);
+    align = MAX(align, sub_align);
+  }
   return align;
 }
 
-- 
2.43.0


From b0587d519ccbec10504abebc26e3859129c18251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 023/123] fix: honour aligned on record members of packed
 structs

---
 parse.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/parse.c b/parse.c
index 9b26989..03f7ae0 100644
--- a/parse.c
+++ b/parse.c
@@ -40,6 +40,7 @@ typedef struct {
   bool is_gnu_inline;
   bool is_returns_twice;
   bool local_only;
+  bool is_member;
   bool is_ctor;
   bool is_dtor;
   uint16_t ctor_prior;
@@ -49,6 +50,7 @@ typedef struct {
   char *section;
   char *visibility;
   int align;
+  Token *record_end;
 } VarAttr;
 
 // This struct represents a variable initializer. Since initializers
@@ -775,8 +777,14 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
   bool is_volatile = false;
   bool is_auto = false;
   for (;;) {
-    if (attr)
+    if (attr) {
+      // In a member declaration, "aligned" right after a "}" belongs to
+      // the type being defined only.
+      int align = attr->align;
       tyspec_attr(tok, attr, TK_ATTR);
+      if (attr->is_member && tok == attr->record_end)
+        attr->align = align;
+    }
 
     if (!is_typename(tok))
       break;
@@ -887,6 +895,10 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
       if (counter)
         error_tok(tok, "invalid type");
 
+      bool is_record_def = (equal(tok, "struct") || equal(tok, "union")) &&
+        (equal(tok->next, "{") ||
+        (tok->next->kind == TK_IDENT && equal(tok->next->next, "{")));
+
       if (equal(tok, "struct"))
         ty = struct_union_decl(&tok, tok->next, TY_STRUCT);
       else if (equal(tok, "union"))
@@ -898,6 +910,8 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
       else
         ty = typeof_specifier(&tok, tok->next);
 
+      if (attr && is_record_def)
+        attr->record_end = tok;
       counter += OTHER;
       continue;
     }
@@ -3752,7 +3766,7 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
       continue;
     }
 
-    VarAttr attr = {0};
+    VarAttr attr = {.is_member = true};
     Token *start = tok;
     Type *basety = declspec(&tok, tok, &attr);
 
@@ -3772,11 +3786,17 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
     for (; comma_list(&tok, &tok, ";", !first); first = false) {
       Member *mem = ast_arena_calloc(sizeof(Member));
       mem->alt_align = attr.align;
-      mem->ty = declarator2(&tok, tok, basety, &mem->name, &mem->alt_align);
+      mem->ty = declarator(&tok, tok, basety, &mem->name);
+      if (mem->name) {
+        if (mem->name != attr.record_end) {
+          attr_aligned(mem->name, &mem->alt_align, TK_ATTR);
+          bool_attr(mem->name, TK_ATTR, "packed", &mem->is_packed);
+        }
+        attr_aligned(mem->name->next, &mem->alt_align, TK_BATTR);
+      }
+      attr_aligned(tok, &mem->alt_align, TK_ATTR);
       bool_attr(start, TK_ATTR, "packed", &mem->is_packed);
       bool_attr(tok, TK_ATTR, "packed", &mem->is_packed);
-      if (mem->name)
-        bool_attr(mem->name, TK_ATTR, "packed", &mem->is_packed);
       if (mem->name && !current_fn)
         mem->name->is_live = true;
 
@@ -3887,9 +3907,7 @@ static Type *struct_decl(Type *ty, int alt_align) {
       alt_align = MAX(alt_align, mem->alt_align);
     }
     if (mem->alt_align)
-      if (mem->alt_align > mem->ty->align ||
-        (mem->ty->kind != TY_STRUCT && mem->ty->kind != TY_UNION))
-        bits = align_to(bits, mem->alt_align * 8);
+      bits = align_to(bits, mem->alt_align * 8);
 
     if (mem->is_bitfield) {
       if (mem->bit_width == 0) {
-- 
2.43.0


From 0434babcea4d08e47b404ce87cddff873e3a8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 024/123] fix: accept a trailing comma in braced scalar and
 string initializers

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 03f7ae0..db77a97 100644
--- a/parse.c
+++ b/parse.c
@@ -1839,6 +1839,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
     Token *start = tok;
     Token *str_tok;
     if (equal(tok, "{") && is_str_tok(&tok, tok->next, &str_tok)) {
+      consume(&tok, tok, ",");
       if (consume(rest, tok, "}")) {
         string_initializer(str_tok, init);
         return;
@@ -1907,6 +1908,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
     // An initializer for a scalar variable can be surrounded by
     // braces. E.g. `int x = {3};`. Handle that case.
     initializer2(&tok, tok->next, init);
+    consume(&tok, tok, ",");
     *rest = skip(tok, "}");
     return;
   }
-- 
2.43.0


From 4c65d37515db1393386003bf9c982796ae48f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 025/123] fix: clear what an overridden initializer had set

---
 parse.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index db77a97..5aca615 100644
--- a/parse.c
+++ b/parse.c
@@ -1640,10 +1640,22 @@ static Token *skip_excess_element(Token *tok) {
   return tok;
 }
 
+// Forget what an overridden initializer has set.
+static void reset_initializer(Initializer *init) {
+  if (init->kind == INIT_FLEXIBLE)
+    return;
+  init->kind = init->mem_arr ? INIT_LIST : INIT_NONE;
+  init->initmem = NULL;
+  for (int i = 0; i < init->mem_cnt; i++)
+    reset_initializer(&init->mem_arr[i]);
+}
+
 // string-initializer = string-literal
 static void string_initializer(Token *tok, Initializer *init) {
   if (init->kind == INIT_FLEXIBLE)
     new_initializer(init, array_of(init->ty->base, tok->ty->array_len), false);
+  else
+    reset_initializer(init);
 
   int len = MIN(init->ty->array_len, tok->ty->array_len);
 
@@ -1750,7 +1762,8 @@ static void designation(Token **rest, Token *tok, Initializer *init) {
   if (equal(tok, "[")) {
     if (init->ty->kind != TY_ARRAY)
       error_tok(tok, "array index in non-array initializer");
-    init->kind = INIT_LIST;
+    if (init->kind != INIT_LIST)
+      reset_initializer(init);
 
     int begin, end;
     array_designator(&tok, tok, init->ty, &begin, &end);
@@ -1765,9 +1778,12 @@ static void designation(Token **rest, Token *tok, Initializer *init) {
 
   if (equal(tok, ".")) {
     Member *mem = struct_designator(&tok, tok->next, init->ty);
-    init->kind = INIT_LIST;
+    if (init->kind != INIT_LIST)
+      reset_initializer(init);
 
     if (init->ty->kind == TY_UNION) {
+      if (init->initmem != mem)
+        reset_initializer(&init->mem_arr[mem->idx]);
       init->initmem = mem;
       designation(rest, tok, &init->mem_arr[mem->idx]);
     } else {
@@ -1868,6 +1884,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
 
   if (init->ty->kind == TY_STRUCT) {
     if (consume(&tok, tok, "{")) {
+      reset_initializer(init);
       braced_initializer(rest, tok, init);
       return;
     }
@@ -1880,12 +1897,15 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
       return;
     }
 
+    if (init->kind != INIT_LIST)
+      reset_initializer(init);
     list_initializer(rest, tok, init, 0);
     return;
   }
 
   if (init->ty->kind == TY_UNION) {
     if (consume(&tok, tok, "{")) {
+      reset_initializer(init);
       init->initmem = init->ty->members;
       braced_initializer(rest, tok, init);
       return;
@@ -1899,6 +1919,8 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
       return;
     }
 
+    if (init->kind != INIT_LIST || init->initmem != init->ty->members)
+      reset_initializer(init);
     init->initmem = init->ty->members;
     initializer2(rest, tok, &init->mem_arr[0]);
     return;
-- 
2.43.0


From 95ad351e3df0261152b3c0c6ef550cd387023bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 026/123] fix: members of struct rvalues behind a comma
 operator

---
 codegen.c | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/codegen.c b/codegen.c
index df71596..251b659 100644
--- a/codegen.c
+++ b/codegen.c
@@ -147,6 +147,7 @@ static void gen_void_expr(Node *node);
 static void gen_void_assign(Node *node);
 static bool gen_expr_opt(Node *node);
 static bool gen_addr_opt(Node *node);
+static void gen_record_addr(Node *node);
 static bool gen_cmp_opt_gp(Node *node, NodeKind *kind);
 static bool gen_load_opt_gp(Node *node, Reg r);
 static Node *bool_expr_opt(Node *node, bool *flip);
@@ -844,25 +845,33 @@ static void gen_addr(Node *node) {
     gen_addr(node->rhs);
     return;
   case ND_MEMBER:
-    switch (node->lhs->kind) {
-    case ND_FUNCALL:
-    case ND_ASSIGN:
-    case ND_COND:
-    case ND_STMT_EXPR:
-    case ND_VA_ARG:
-      gen_expr(node->lhs);
-      imm_add("%rax", "%rdx", node->member->offset);
-      return;
-    default:
-      gen_addr(node->lhs);
-      imm_add("%rax", "%rdx", node->member->offset);
-      return;
-    }
+    gen_record_addr(node->lhs);
+    imm_add("%rax", "%rdx", node->member->offset);
+    return;
   }
 
   error_tok(node->tok, "not an lvalue");
 }
 
+// Compute the address of a struct or union, which may be an rvalue.
+static void gen_record_addr(Node *node) {
+  switch (node->kind) {
+  case ND_FUNCALL:
+  case ND_ASSIGN:
+  case ND_COND:
+  case ND_STMT_EXPR:
+  case ND_VA_ARG:
+    gen_expr(node);
+    return;
+  case ND_CHAIN:
+  case ND_COMMA:
+    gen_void_expr(node->lhs);
+    gen_record_addr(node->rhs);
+    return;
+  }
+  gen_addr(node);
+}
+
 static void load3(Type *ty, char *sofs, char *sptr) {
   switch (ty->kind) {
   case TY_FLOAT:
@@ -2959,16 +2968,7 @@ static void gen_member_opt(Node *node, int64_t *ofs) {
     node = node->lhs;
   }
 
-  switch (node->kind) {
-  case ND_FUNCALL:
-  case ND_ASSIGN:
-  case ND_COND:
-  case ND_STMT_EXPR:
-  case ND_VA_ARG:
-    gen_expr(node);
-    return;
-  }
-  gen_addr(node);
+  gen_record_addr(node);
 }
 
 static Node *bool_expr_opt(Node *node, bool *flip) {
-- 
2.43.0


From 6cd16870063a8e1e68d5d9e06acf1a4c4dfed133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 027/123] fix: keep a typedef's qualifiers and alignment when
 more qualifiers are added

---
 parse.c |  8 ++++----
 type.c  | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/parse.c b/parse.c
index 5aca615..37e9e81 100644
--- a/parse.c
+++ b/parse.c
@@ -1028,10 +1028,10 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
 
   if (is_atomic || is_const || is_volatile || is_restrict) {
     Type *ty2 = new_qualified_type(ty);
-    ty2->is_atomic = is_atomic;
-    ty2->is_const = is_const;
-    ty2->is_volatile = is_volatile;
-    ty2->is_restrict = is_restrict;
+    ty2->is_atomic |= is_atomic;
+    ty2->is_const |= is_const;
+    ty2->is_volatile |= is_volatile;
+    ty2->is_restrict |= is_restrict;
     return ty2;
   }
 
diff --git a/type.c b/type.c
index 31c85e4..b0a311e 100644
--- a/type.c
+++ b/type.c
@@ -92,21 +92,20 @@ Type *unqual(Type *ty) {
 }
 
 Type *new_qualified_type(Type *ty) {
-  if (ty->origin)
-    ty = ty->origin;
+  Type *orig = ty->origin ? ty->origin : ty;
 
   Type *ret;
-  if (ty->size < 0)
+  if (orig->size < 0)
     ret = malloc(sizeof(Type));
   else
     ret = ast_arena_malloc(sizeof(Type));
 
   *ret = *ty;
-  ret->origin = ty;
+  ret->origin = orig;
 
-  if (ty->size < 0) {
-    ret->decl_next = ty->decl_next;
-    ty->decl_next = ret;
+  if (orig->size < 0) {
+    ret->decl_next = orig->decl_next;
+    orig->decl_next = ret;
   }
   return ret;
 }
-- 
2.43.0


From 48f4d83fc14111e9b4eaa646065c8fcb6653cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 028/123] fix: merge pointee qualifiers in conditional
 expressions

---
 type.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index b0a311e..8344cc1 100644
--- a/type.c
+++ b/type.c
@@ -355,6 +355,22 @@ static void int_promotion(Node **node) {
   }
 }
 
+// The result of a conditional operator on pointers points to a type with
+// all the qualifiers of the types both operands point to.
+static Type *merge_qualifiers(Type *ty, Type *ty1, Type *ty2) {
+  bool is_const = ty1->is_const | ty2->is_const;
+  bool is_volatile = ty1->is_volatile | ty2->is_volatile;
+  bool is_restrict = ty1->is_restrict | ty2->is_restrict;
+  if (ty->is_const != is_const || ty->is_volatile != is_volatile ||
+    ty->is_restrict != is_restrict) {
+    ty = new_qualified_type(ty);
+    ty->is_const = is_const;
+    ty->is_volatile = is_volatile;
+    ty->is_restrict = is_restrict;
+  }
+  return ty;
+}
+
 static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
   Type *ty1 = (*lhs)->ty;
   Type *ty2 = (*rhs)->ty;
@@ -371,9 +387,10 @@ static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
       return array_to_pointer(ty2);
 
     if (ty1->base && ty2->base) {
+      Type *base = ty_void;
       if (is_compatible(ty1->base, ty2->base))
-        return array_to_pointer(ty1);
-      return pointer_to(ty_void);
+        base = ty1->base;
+      return pointer_to(merge_qualifiers(base, ty1->base, ty2->base));
     }
   }
 
-- 
2.43.0


From 6965f96dac2cde470bad38faaa5fbd1efd02bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 029/123] fix: complete array pointee type in conditional
 expressions

---
 type.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 8344cc1..8e29c0b 100644
--- a/type.c
+++ b/type.c
@@ -531,7 +531,10 @@ void add_type(Node *node) {
     if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
       node->ty = ty_void;
     } else if (!is_numeric(node->then->ty) && is_compatible(node->then->ty, node->els->ty)) {
-      node->ty = array_to_pointer(node->then->ty);
+      Type *ty = array_to_pointer(node->then->ty);
+      if (ty->base && ty->base->kind == TY_ARRAY && ty->base->array_len < 0)
+        ty = array_to_pointer(node->els->ty);
+      node->ty = ty;
     } else {
       usual_arith_conv(&node->then, &node->els, true);
       node->ty = node->then->ty;
-- 
2.43.0


From 1cdfcba27e0f31416aa4d0ce0edc80e507730790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 030/123] fix: apply the qualifiers of an array type to its
 elements

---
 parse.c  | 26 +++++++++++---------------
 slimcc.h |  1 +
 type.c   | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/parse.c b/parse.c
index 37e9e81..c86dacd 100644
--- a/parse.c
+++ b/parse.c
@@ -401,12 +401,8 @@ static Node *cond_cast(Node *expr) {
 
 static void apply_cv_qualifier(Node *node, Type *ty2) {
   add_type(node);
-  Type *ty = node->ty;
-  if (ty->is_const < ty2->is_const || ty->is_volatile < ty2->is_volatile) {
-    node->ty = new_qualified_type(ty);
-    node->ty->is_const = ty->is_const | ty2->is_const;
-    node->ty->is_volatile = ty->is_volatile | ty2->is_volatile;
-  }
+  Type quals = {.is_const = ty2->is_const, .is_volatile = ty2->is_volatile};
+  node->ty = add_qualifiers(node->ty, &quals);
 }
 
 static VarScope *push_scope(char *name) {
@@ -1026,16 +1022,16 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
   if (!ty)
     ty = ty_int;
 
-  if (is_atomic || is_const || is_volatile || is_restrict) {
-    Type *ty2 = new_qualified_type(ty);
-    ty2->is_atomic |= is_atomic;
-    ty2->is_const |= is_const;
-    ty2->is_volatile |= is_volatile;
-    ty2->is_restrict |= is_restrict;
-    return ty2;
+  if (is_atomic) {
+    ty = new_qualified_type(ty);
+    ty->is_atomic = true;
   }
-
-  return ty;
+  Type quals = {
+    .is_const = is_const,
+    .is_volatile = is_volatile,
+    .is_restrict = is_restrict,
+  };
+  return add_qualifiers(ty, &quals);
 }
 
 static Type *func_params_old_style(Token **rest, Token *tok, Type *fn_ty) {
diff --git a/slimcc.h b/slimcc.h
index c0c5c27..dc450dc 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -653,6 +653,7 @@ Type *new_type(TypeKind kind, int64_t size, int align);
 void add_type(Node *node);
 Type *unqual(Type *ty);
 Type *new_qualified_type(Type *ty);
+Type *add_qualifiers(Type *ty, Type *quals);
 Obj *eval_var_opt(Node *node, int *ofs, bool let_subarray, bool let_atomic);
 
 //
diff --git a/type.c b/type.c
index 8e29c0b..41d4642 100644
--- a/type.c
+++ b/type.c
@@ -78,6 +78,16 @@ Type *copy_type(Type *ty) {
 }
 
 Type *unqual(Type *ty) {
+  if (ty->kind == TY_ARRAY) {
+    Type *base = unqual(ty->base);
+    if (base == ty->base)
+      return ty;
+    ty = copy_type(ty);
+    ty->base = base;
+    ty->origin = NULL;
+    return ty;
+  }
+
   if (ty->origin)
     ty = ty->origin;
 
@@ -110,6 +120,28 @@ Type *new_qualified_type(Type *ty) {
   return ret;
 }
 
+// Qualifiers of an array type apply to its elements.
+Type *add_qualifiers(Type *ty, Type *quals) {
+  if (is_array(ty)) {
+    Type *base = add_qualifiers(ty->base, quals);
+    if (base == ty->base)
+      return ty;
+    ty = copy_type(ty);
+    ty->base = base;
+    ty->origin = NULL;
+    return ty;
+  }
+
+  if (ty->is_const < quals->is_const || ty->is_volatile < quals->is_volatile ||
+    ty->is_restrict < quals->is_restrict) {
+    ty = new_qualified_type(ty);
+    ty->is_const |= quals->is_const;
+    ty->is_volatile |= quals->is_volatile;
+    ty->is_restrict |= quals->is_restrict;
+  }
+  return ty;
+}
+
 bool is_integer(Type *ty) {
   TypeKind k = ty->kind;
   return k == TY_BOOL || k == TY_PCHAR || k == TY_CHAR || k == TY_SHORT ||
-- 
2.43.0


From c45ac6ad6604625762531d675d2280984d21ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 031/123] fix: accept qualifiers after static in array
 parameters

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index c86dacd..6c6f3fb 100644
--- a/parse.c
+++ b/parse.c
@@ -1214,6 +1214,7 @@ static Type *type_suffix(Token **rest, Token *tok, Type *ty) {
 
   if (consume(&tok, tok, "[")) {
     if (tok->kind == TK_TYPEKW) {
+      consume(&tok, tok, "static");
       Token *start = tok;
       pointer_qualifiers(&tok, tok, &(Type){0});
       consume(&tok, tok, "static");
-- 
2.43.0


From b6ff339df66bfa1db337361a2489f11e1f42699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 032/123] fix: type inference from a function designator

---
 parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 6c6f3fb..b6af03c 100644
--- a/parse.c
+++ b/parse.c
@@ -1016,7 +1016,10 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
     Node *node = assign(&(Token *){0}, tok->next->next);
     add_type(node);
     leave_scope();
-    ty = unqual(array_to_pointer(node->ty));
+    if (node->ty->kind == TY_FUNC)
+      ty = pointer_to(node->ty);
+    else
+      ty = unqual(array_to_pointer(node->ty));
   }
 
   if (!ty)
-- 
2.43.0


From fadcf80ae6634320184956522e108e58571cd879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 033/123] fix: function designators decay in comma, conditional
 and statement expressions

---
 parse.c | 5 +----
 type.c  | 2 ++
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index b6af03c..6c6f3fb 100644
--- a/parse.c
+++ b/parse.c
@@ -1016,10 +1016,7 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
     Node *node = assign(&(Token *){0}, tok->next->next);
     add_type(node);
     leave_scope();
-    if (node->ty->kind == TY_FUNC)
-      ty = pointer_to(node->ty);
-    else
-      ty = unqual(array_to_pointer(node->ty));
+    ty = unqual(array_to_pointer(node->ty));
   }
 
   if (!ty)
diff --git a/type.c b/type.c
index 41d4642..7799651 100644
--- a/type.c
+++ b/type.c
@@ -295,6 +295,8 @@ Type *pointer_to(Type *base) {
 Type *array_to_pointer(Type *ty) {
   if (ty->base && ty->kind != TY_PTR)
     return pointer_to(ty->base);
+  if (ty->kind == TY_FUNC)
+    return pointer_to(ty);
   return ty;
 }
 
-- 
2.43.0


From fe421438df9fdc7ef642cdf936eecd249ce24787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 034/123] fix: sign extension of UTF-32 character constants

---
 tokenize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenize.c b/tokenize.c
index 26bc654..5b91828 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -771,6 +771,7 @@ Token *tokenize(File *file, Token **end) {
     // UTF-32 character literal
     if (startswith2(p, 'U', '\'')) {
       cur = cur->next = read_char_literal(p, p + 1, ty_uint);
+      cur->ival = (uint32_t)cur->ival;
       p += cur->len;
       continue;
     }
-- 
2.43.0


From 11e88d516b02ea188c03b9d81ada0fc47fbeee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 035/123] fix: an escaped backslash does not start a universal
 character name

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 5b91828..032a4e4 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -918,6 +918,8 @@ static void convert_universal_chars(char *p) {
         q += encode_utf8(q, c);
         continue;
       }
+    } else if (startswith2(p, '\\', '\\')) {
+      *q++ = *p++;
     }
     *q++ = *p++;
   }
-- 
2.43.0


From 069525212c05f358ead4135b4b12c7d1b79455a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 036/123] fix: keep tokens apart in -E output

---
 main.c | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 8bfae0a..0c76bee 100644
--- a/main.c
+++ b/main.c
@@ -636,14 +636,52 @@ static void run_cc1(char *input, char *output, bool no_fork, bool is_asm_pp) {
     exit(1);
 }
 
+static bool is_ident_byte(char c) {
+  return Isalnum(c) || c == '_' || c == '$' || (unsigned char)c >= 128;
+}
+
+// Returns true if a token would not be read back as written when it is
+// printed right after the previous one.
+static bool avoid_paste(Token *prev, Token *tok) {
+  if (!prev || !prev->len || !tok->len || prev->loc + prev->len == tok->loc)
+    return false;
+
+  char c = prev->loc[prev->len - 1];
+  char c2 = tok->loc[0];
+  if (prev->kind == TK_PP_NUM && (c2 == '+' || c2 == '-' || c2 == '.'))
+    return true;
+  if (is_ident_byte(c))
+    return is_ident_byte(c2) || c2 == '"' || c2 == '\'';
+
+  switch (c) {
+  case '.': return c2 == '.' || is_ident_byte(c2);
+  case '+': return c2 == '+' || c2 == '=';
+  case '-': return c2 == '-' || c2 == '=' || c2 == '>';
+  case '&': return c2 == '&' || c2 == '=';
+  case '|': return c2 == '|' || c2 == '=';
+  case '<': return c2 == '<' || c2 == '=' || c2 == ':' || c2 == '%';
+  case '>': return c2 == '>' || c2 == '=';
+  case '/': return c2 == '/' || c2 == '*' || c2 == '=';
+  case '#': return c2 == '#';
+  case '%': return c2 == '=' || c2 == ':' || c2 == '>';
+  case ':': return c2 == ':' || c2 == '>';
+  case '=':
+  case '!':
+  case '*':
+  case '^': return c2 == '=';
+  }
+  return false;
+}
+
 // Print tokens to stdout. Used for -E.
 static void print_tokens(Token *tok, char *path) {
   FILE *out = open_file(path);
 
   int line = 1;
   File *markerfile = NULL;
+  Token *prev = NULL;
 
-  for (; tok->kind != TK_EOF; tok = tok->next) {
+  for (; tok->kind != TK_EOF; prev = tok, tok = tok->next) {
     Token *orig = tok->origin ? tok->origin : tok;
     if (!opt_P && markerfile != orig->file) {
       markerfile = orig->file;
@@ -655,7 +693,7 @@ static void print_tokens(Token *tok, char *path) {
 
     if (line > 1 && tok->at_bol)
       fprintf(out, "\n");
-    if (tok->has_space && !tok->at_bol)
+    if ((tok->has_space || avoid_paste(prev, tok)) && !tok->at_bol)
       fprintf(out, " ");
     fprintf(out, "%.*s", tok->len, tok->loc);
     line++;
-- 
2.43.0


From efc6133754ab1da408db6ac628ef95ad71512cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 037/123] fix: do not expand the arguments of `, ##
 __VA_ARGS__` before pasting

---
 preprocess.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index ed1f233..2a1707c 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -712,7 +712,17 @@ static Token *subst(Token *tok, MacroContext *ctx) {
           continue;
         }
         cur = cur->next = copy_token(tok);
-        tok = tok->next->next;
+        start = tok->next->next;
+        tok = start->next;
+        if (arg->tok->kind == TK_EOF) {
+          cur = cur->next = new_pmark(arg->tok);
+          continue;
+        }
+        for (Token *t = arg->tok; t->kind != TK_EOF; t = t->next) {
+          cur = cur->next = copy_token(t);
+          if (t == arg->tok)
+            align_token(cur, start);
+        }
         continue;
       }
     }
-- 
2.43.0


From 0dd567dec4fab1d2e5629f345c82581c0da72e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 038/123] fix: do not expand the operand of ## after an empty
 operand

---
 preprocess.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 2a1707c..e4f8aae 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -734,23 +734,25 @@ static Token *subst(Token *tok, MacroContext *ctx) {
       if (tok->next->kind == TK_EOF)
         error_tok(tok, "'##' cannot appear at end of macro expansion");
 
-      if (cur->kind == TK_PMARK) {
-        tok = tok->next;
-        continue;
-      }
-
       MacroArg *arg = find_arg(&tok, tok->next, ctx);
       if (arg) {
         if (arg->tok->kind == TK_EOF)
           continue;
 
-        if (arg->tok->kind != TK_PMARK)
+        if (cur->kind == TK_PMARK) {
+          cur = cur->next = copy_token(arg->tok);
+          align_token(cur, start->next);
+        } else if (arg->tok->kind != TK_PMARK)
           paste(cur, arg->tok);
 
         for (Token *t = arg->tok->next; t->kind != TK_EOF; t = t->next)
           cur = cur->next = copy_token(t);
         continue;
       }
+      if (cur->kind == TK_PMARK) {
+        tok = tok->next;
+        continue;
+      }
       paste(cur, tok->next);
       tok = tok->next->next;
       continue;
-- 
2.43.0


From c17a03cbcb54a19bbcbda9feaa7ee8780c772a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 039/123] fix: stringize macro arguments as they were written

---
 preprocess.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index e4f8aae..461699b 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -228,6 +228,18 @@ static Token *copy_line(Token **rest, Token *tok) {
   return head.next;
 }
 
+// Copy an EOF-terminated list.
+static Token *copy_tok_list(Token *tok) {
+  Token head = {0};
+  Token *cur = &head;
+
+  for (; tok->kind != TK_EOF; tok = tok->next)
+    cur = cur->next = copy_token(tok);
+
+  cur->next = new_eof(tok);
+  return head.next;
+}
+
 // Split tokens before the next newline into an EOF-terminated list.
 static Token *split_line(Token **rest, Token *tok) {
   Token head = {.next = tok};
@@ -563,7 +575,9 @@ static Token *expand_arg(MacroArg *arg) {
   if (arg->expanded)
     return arg->expanded;
 
-  return arg->expanded = expand_tok(arg->tok);
+  // Expansion may alter the flags of the tokens it walks through, which are
+  // still needed as they were written if the argument is also stringized.
+  return arg->expanded = expand_tok(copy_tok_list(arg->tok));
 }
 
 static bool has_non_empty_va_arg(MacroContext *ctx, MacroArg **arg_p) {
-- 
2.43.0


From 57b5e140dda0cf9fad5d687d2d5394c23340afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 040/123] fix: __VA_TAIL__ with arguments on several lines

---
 preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 461699b..76232c9 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -811,7 +811,7 @@ static Token *subst(Token *tok, MacroContext *ctx) {
         cur = cur->next = new_pmark(tok);
         continue;
       }
-      Token *tail_arg_tok = copy_line(&(Token *){0}, vaarg->expanded);
+      Token *tail_arg_tok = copy_tok_list(vaarg->expanded);
       find_last_tok(tail_arg_tok)->next = rparen;
 
       MacroContext tail_ctx = read_macro_args(tail_arg_tok, tail_m);
-- 
2.43.0


From c16483351080cd7c8f4309451e30cdd1393c8c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 041/123] fix: keep the space in front of an empty macro
 argument

---
 preprocess.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 76232c9..18f7ab2 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -668,9 +668,16 @@ static char *join_tokens(Token *tok, Token *end, bool add_slash) {
 static Token *stringize(Token *hash, Token *tok) {
   Token head = {0};
   Token *cur = &head;
-  for (; tok->kind != TK_EOF; tok = tok->next)
-    if (tok->kind != TK_PMARK)
-      cur = cur->next = tok;
+  bool has_space = false;
+  for (; tok->kind != TK_EOF; tok = tok->next) {
+    has_space |= tok->has_space;
+    if (tok->kind == TK_PMARK)
+      continue;
+
+    cur = cur->next = tok;
+    cur->has_space = has_space;
+    has_space = false;
+  }
   cur->next = tok;
 
   return new_str_token(join_tokens(head.next, tok, true), hash);
@@ -782,6 +789,7 @@ static Token *subst(Token *tok, MacroContext *ctx) {
 
       if (t->kind == TK_EOF) {
         cur = cur->next = new_pmark(t);
+        align_token(cur, start);
         continue;
       }
 
@@ -862,14 +870,19 @@ static Token *insert_funclike(Token *tok, Token *stop_tok, Token *orig) {
   if (orig->origin)
     orig = orig->origin;
 
-  for (; tok->kind != TK_EOF; tok = tok->next) {
+  bool has_space = false;
+  for (Token *start = tok; tok->kind != TK_EOF; tok = tok->next) {
+    has_space |= tok->has_space && tok != start;
     if (tok->kind == TK_PMARK)
       continue;
 
     cur = cur->next = tok;
+    cur->has_space = has_space;
+    has_space = false;
     cur->origin = orig;
     cur->is_root = true;
   }
+  stop_tok->has_space |= has_space;
   cur->next = stop_tok;
   return head.next;
 }
-- 
2.43.0


From 9a788e294bc523e77ac3bba890c4da963f600ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 042/123] fix: spacing of the arguments of `, ## __VA_ARGS__`

---
 preprocess.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 18f7ab2..c0341ee 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -733,17 +733,13 @@ static Token *subst(Token *tok, MacroContext *ctx) {
           continue;
         }
         cur = cur->next = copy_token(tok);
-        start = tok->next->next;
-        tok = start->next;
+        tok = tok->next->next->next;
         if (arg->tok->kind == TK_EOF) {
           cur = cur->next = new_pmark(arg->tok);
           continue;
         }
-        for (Token *t = arg->tok; t->kind != TK_EOF; t = t->next) {
+        for (Token *t = arg->tok; t->kind != TK_EOF; t = t->next)
           cur = cur->next = copy_token(t);
-          if (t == arg->tok)
-            align_token(cur, start);
-        }
         continue;
       }
     }
-- 
2.43.0


From d1fb080500c7593e01468f30708bd246b61711f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 043/123] fix: ## with an operand that begins with an empty one

---
 preprocess.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index c0341ee..2b49477 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -690,6 +690,14 @@ static void align_token(Token *tok1, Token *tok2) {
 
 // Concatenate two tokens to create a new token.
 static void paste(Token *lhs, Token *rhs) {
+  if (lhs->kind == TK_PMARK) {
+    Token tok = *rhs;
+    align_token(&tok, lhs);
+    tok.alloc_next = lhs->alloc_next;
+    *lhs = tok;
+    return;
+  }
+
   // Paste the two tokens.
   char *buf = format("%.*s%.*s", lhs->len, lhs->loc, rhs->len, rhs->loc);
 
@@ -756,17 +764,15 @@ static Token *subst(Token *tok, MacroContext *ctx) {
         if (arg->tok->kind == TK_EOF)
           continue;
 
-        if (cur->kind == TK_PMARK) {
-          cur = cur->next = copy_token(arg->tok);
-          align_token(cur, start->next);
-        } else if (arg->tok->kind != TK_PMARK)
+        if (arg->tok->kind != TK_PMARK)
           paste(cur, arg->tok);
 
         for (Token *t = arg->tok->next; t->kind != TK_EOF; t = t->next)
           cur = cur->next = copy_token(t);
         continue;
       }
-      if (cur->kind == TK_PMARK) {
+      if (cur->kind == TK_PMARK &&
+        (equal(tok->next, "##") || equal(tok->next, "__VA_TAIL__"))) {
         tok = tok->next;
         continue;
       }
-- 
2.43.0


From 3bae909809184196532e3032a41ebe46c74d5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 044/123] fix: no space for an empty operand of `, ##
 __VA_ARGS__`

---
 preprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocess.c b/preprocess.c
index 2b49477..0c6826f 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -744,6 +744,7 @@ static Token *subst(Token *tok, MacroContext *ctx) {
         tok = tok->next->next->next;
         if (arg->tok->kind == TK_EOF) {
           cur = cur->next = new_pmark(arg->tok);
+          cur->has_space = false;
           continue;
         }
         for (Token *t = arg->tok; t->kind != TK_EOF; t = t->next)
-- 
2.43.0


From ce6188b0148d968887191a3d813d2815ca4da70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 045/123] fix: unmatched quotes are only errors outside skipped
 groups

---
 preprocess.c |  9 +++++++++
 slimcc.h     |  1 +
 tokenize.c   | 49 +++++++++++++++++++++++++++++++++++++------------
 3 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 0c6826f..f2576f4 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1943,6 +1943,15 @@ static Token *preprocess3(Token *tok) {
       continue;
     }
 
+    if (tok->kind == TK_INVALID) {
+      char *quote = tok->loc + strcspn(tok->loc, "'\"\n");
+      if (*quote != '"' && *quote != '\'')
+        error_tok(tok, "invalid token");
+      if (quote[0] == '\'' && quote[1] == '\'')
+        error_tok(tok, "empty char literal");
+      error_tok(tok, "unclosed %s literal", *quote == '"' ? "string" : "char");
+    }
+
     if (tok->kind == TK_IDENT)
       tok->kind = ident_keyword(tok);
 
diff --git a/slimcc.h b/slimcc.h
index dc450dc..d7dc1e1 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -146,6 +146,7 @@ typedef enum {
   TK_STR,     // String literals
   TK_INT_NUM, // Integer Numeric literals
   TK_PP_NUM,  // Preprocessing numbers
+  TK_INVALID, // Invalid tokens
   TK_PMARK,   // Placermarkers
   TK_ATTR,    // GNU attribute
   TK_BATTR,   // C23 attribute
diff --git a/tokenize.c b/tokenize.c
index 032a4e4..86223d0 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -340,17 +340,32 @@ static int read_escaped_char(char **new_pos, char *p) {
 }
 
 // Find a closing double-quote.
-static char *string_literal_end(char *p) {
-  char *start = p;
-  for (; *p != '"'; p++) {
+// Find the closing quote of a literal. Returns NULL if there is none.
+static char *literal_end(char *quote) {
+  char *p = quote + 1;
+  for (; *p != *quote; p++) {
     if (*p == '\n' || *p == '\0')
-      error_at(start, "unclosed string literal");
-    if (*p == '\\')
+      return NULL;
+    if (*p == '\\' && p[1] != '\n' && p[1] != '\0')
       p++;
   }
   return p;
 }
 
+static char *string_literal_end(char *p) {
+  return literal_end(p - 1);
+}
+
+static char *literal_quote(char *p) {
+  if (startswith3(p, 'u', '8', '"'))
+    return p + 2;
+  if ((*p == 'u' || *p == 'U' || *p == 'L') && (p[1] == '"' || p[1] == '\''))
+    return p + 1;
+  if (*p == '"' || *p == '\'')
+    return p;
+  return NULL;
+}
+
 static Token *read_string_literal(char *start, char *quote) {
   char *end = string_literal_end(quote + 1);
   char *buf = calloc(1, end - quote);
@@ -429,8 +444,7 @@ static Token *read_utf32_string_literal(char *start, char *quote, Type *ty) {
 
 static Token *read_char_literal(char *start, char *quote, Type *ty) {
   char *p = quote + 1;
-  if (*p == '\0')
-    error_at(start, "unclosed char literal");
+  char *end = literal_end(quote);
 
   int c;
   if (*p == '\\')
@@ -438,10 +452,6 @@ static Token *read_char_literal(char *start, char *quote, Type *ty) {
   else
     c = decode_utf8(&p, p);
 
-  char *end = strchr(p, '\'');
-  if (!end)
-    error_at(p, "unclosed char literal");
-
   Token *tok = new_token(TK_INT_NUM, start, end + 1);
   tok->ival = c;
   tok->ty = ty;
@@ -710,6 +720,19 @@ Token *tokenize(File *file, Token **end) {
       continue;
     }
 
+    // Unmatched quotes and empty character literals are only errors if they
+    // survive preprocessing.
+    char *quote = literal_quote(p);
+    if (quote) {
+      char *lit_end = literal_end(quote);
+      if (!lit_end || (*quote == '\'' && lit_end == quote + 1)) {
+        lit_end = lit_end ? lit_end + 1 : strchr(p, '\n');
+        cur = cur->next = new_token(TK_INVALID, p, lit_end ? lit_end : strchr(p, '\0'));
+        p += cur->len;
+        continue;
+      }
+    }
+
     // String literal
     if (*p == '"') {
       cur = cur->next = read_string_literal(p, p);
@@ -784,7 +807,9 @@ Token *tokenize(File *file, Token **end) {
       continue;
     }
 
-    error_at(p, "invalid token");
+    char *start = p;
+    decode_utf8(&p, p);
+    cur = cur->next = new_token(TK_INVALID, start, p);
   }
 
   if (end && cur != &head)
-- 
2.43.0


From 633a0749d2aa8671bac3060ca3755d1b4418b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 046/123] fix: #pragma once for a file included by different
 paths

---
 preprocess.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index f2576f4..20a1681 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1124,12 +1124,20 @@ static char *read_include_filename(Token *tok, bool *is_dquote) {
   return read_filename(NULL, tok, is_dquote);
 }
 
+// A file is the same file under every path that leads to it.
+static char *file_id(char *path) {
+  struct stat st;
+  if (stat(path, &st))
+    return path;
+  return format("%lld:%lld", (long long)st.st_dev, (long long)st.st_ino);
+}
+
 static Token *include_file(Token *tok, char *path, Token *filename_tok, int *incl_no) {
   if (!path)
     error_tok(filename_tok, "file not found");
 
   // Check for "#pragma once"
-  if (hashmap_get(&pragma_once, path))
+  if (pragma_once.used && hashmap_get(&pragma_once, file_id(path)))
     return tok;
 
   char *guard_name = hashmap_get(&include_guards, path);
@@ -1443,7 +1451,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "pragma") && equal(tok->next, "once")) {
-    hashmap_put(&pragma_once, tok->file->name, (void *)1);
+    hashmap_put(&pragma_once, file_id(tok->file->name), (void *)1);
     tok = skip_line(tok->next->next);
     return tok;
   }
-- 
2.43.0


From 94486c3dbbb450aeaf4d6634b9e4fdedc58cead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 047/123] fix: a null directive does not take the next line for
 a directive

---
 preprocess.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 20a1681..a930d28 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -173,7 +173,7 @@ static Token *skip_cond_incl(Token *tok) {
   Token *last = NULL;
   int lvl = 0;
   for (; tok->kind != TK_EOF; last = tok, tok = tok->next) {
-    if (is_hash(tok)) {
+    if (is_hash(tok) && !tok->next->at_bol) {
       if ((equal(tok->next, "if") || equal(tok->next, "ifdef") ||
            equal(tok->next, "ifndef"))) {
         lvl++;
@@ -1300,6 +1300,10 @@ static Token *preprocess2(Token *tok) {
 static Token *directives(Token **cur, Token *start) {
   Token *tok = start->next;
 
+  // `#`-only line is legal. It's called a null directive.
+  if (tok->at_bol)
+    return tok;
+
   if (equal(tok, "embed")) {
     Token *cont;
     bool is_dquote;
@@ -1492,10 +1496,6 @@ static Token *directives(Token **cur, Token *start) {
     return tok;
   }
 
-  // `#`-only line is legal. It's called a null directive.
-  if (tok->at_bol)
-    return tok;
-
   error_tok(tok, "invalid preprocessor directive");
 }
 
-- 
2.43.0


From b273180d0d1463c5e2f1ccb636bcc0bf0657939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 048/123] fix: -D with a body that begins with =

---
 preprocess.c | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index a930d28..a2fbe48 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1499,28 +1499,14 @@ static Token *directives(Token **cur, Token *start) {
   error_tok(tok, "invalid preprocessor directive");
 }
 
+// `-Dname=body` is `#define name body`, and `-Dname` is `#define name 1`.
 void define_macro_cli(char *str) {
-  Token *tok = tokenize(new_file("<built-in>", 1, str), NULL);
-  Macro *m = read_macro_name(&tok, tok);
+  char *eq = strchr(str, '=');
+  char *def = eq ? format("%.*s %s", (int)(eq - str), str, eq + 1) : format("%s 1", str);
 
-  Token head = {0};
-  Token *cur = &head;
-  bool has_eq = false;
-  for (; tok->kind != TK_EOF;) {
-    if (!has_eq && consume(&tok, tok, "=")) {
-      tok->has_space = true;
-      has_eq = true;
-      continue;
-    }
-    cur = cur->next = tok;
-    tok = tok->next;
-  }
-  if (!has_eq) {
-    cur = cur->next = make_token("1", tok);
-    cur->has_space = true;
-  }
-  cur->next = tok;
-  m->body = head.next;
+  Token *tok = tokenize(new_file("<built-in>", 1, def), NULL);
+  Macro *m = read_macro_name(&tok, tok);
+  m->body = tok;
 }
 
 void define_macro(char *name, char *buf) {
-- 
2.43.0


From 924f710c2c2b967f954d3e6d92ea51af59dedfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 049/123] fix: directives without their macro name or line
 number are diagnosed

---
 preprocess.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index a2fbe48..9a84f15 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -480,6 +480,14 @@ static Macro *read_macro_name(Token **rest, Token *tok) {
   return m;
 }
 
+// The name that #define, #undef, #ifdef and the like have to be followed by.
+static Token *macro_name_tok(Token *directive) {
+  Token *tok = directive->next;
+  if (tok->at_bol || tok->kind != TK_IDENT)
+    error_tok(tok->at_bol ? directive : tok, "macro name must be an identifier");
+  return tok;
+}
+
 static void read_macro_definition(Token **rest, Token *tok) {
   Macro *m = read_macro_name(&tok, tok);
   m->body = split_line(rest, tok);
@@ -1240,13 +1248,14 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
 }
 
 // Read #line arguments
-static void read_line_marker(Token **rest, Token *tok) {
+static void read_line_marker(Token **rest, Token *tok, Token *hash) {
   Token *start = tok;
   tok = expand_tok(split_line(rest, tok));
 
   int64_t val;
-  if (convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
-    error_tok(tok, "invalid line marker");
+  if (tok->kind == TK_EOF ||
+    convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
+    error_tok(hash, "invalid line marker");
 
   start->file->line_delta = val - start->line_no - 1;
 
@@ -1331,19 +1340,17 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "define")) {
-    read_macro_definition(&tok, tok->next);
+    read_macro_definition(&tok, macro_name_tok(tok));
     return tok;
   }
 
   if (equal(tok, "def")) {
-    read_macro_definition2(&tok, tok->next);
+    read_macro_definition2(&tok, macro_name_tok(tok));
     return tok;
   }
 
   if (equal(tok, "undef")) {
-    tok = tok->next;
-    if (tok->kind != TK_IDENT)
-      error_tok(tok, "macro name must be an identifier");
+    tok = macro_name_tok(tok);
     undef_macro(strndup(tok->loc, tok->len));
     tok = skip_line(tok->next);
     return tok;
@@ -1358,7 +1365,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "ifdef")) {
-    bool active = find_macro(tok->next);
+    bool active = find_macro(macro_name_tok(tok));
     push_cond_incl(tok, active);
     tok = skip_line(tok->next->next);
     if (!active)
@@ -1367,7 +1374,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "ifndef")) {
-    bool active = !find_macro(tok->next);
+    bool active = !find_macro(macro_name_tok(tok));
     push_cond_incl(tok, active);
     tok = skip_line(tok->next->next);
     if (!active)
@@ -1394,7 +1401,7 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elifdef");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && find_macro(tok->next)) {
+    if (!cond->been_active && find_macro(macro_name_tok(tok))) {
       cond->been_active = true;
       return skip_line(tok->next->next);
     }
@@ -1407,7 +1414,7 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elifndef");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && !find_macro(tok->next)) {
+    if (!cond->been_active && !find_macro(macro_name_tok(tok))) {
       cond->been_active = true;
       return skip_line(tok->next->next);
     }
@@ -1445,12 +1452,12 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "line")) {
-    read_line_marker(&tok, tok->next);
+    read_line_marker(&tok, tok->next, start);
     return tok;
   }
 
   if (tok->kind == TK_PP_NUM) {
-    read_line_marker(&tok, tok);
+    read_line_marker(&tok, tok, start);
     return tok;
   }
 
-- 
2.43.0


From 00a6d3da92b5e3172631d89b55f322d24702547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 050/123] fix: u8 string literals are told from u string
 literals when joined

---
 preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 9a84f15..6401763 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1783,7 +1783,7 @@ typedef enum {
 } StringKind;
 
 static StringKind getStringKind(Token *tok) {
-  if (!strcmp(tok->loc, "u8"))
+  if (!strncmp(tok->loc, "u8", 2))
     return STR_UTF8;
 
   switch (tok->loc[0]) {
-- 
2.43.0


From 93ee375bcab9e65334ebd3e00925e9f8888ef0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 051/123] fix: attributes at the end of the file are attached
 to the end-of-file token

---
 preprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocess.c b/preprocess.c
index 6401763..6c3151c 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1967,6 +1967,7 @@ static Token *preprocess3(Token *tok) {
     tok = tok->next;
     continue;
   }
+  tok->attr_next = attr_head.attr_next;
   cur->next = tok;
   return head.next;
 }
-- 
2.43.0


From 3b6e771b72d921bf030231a53c9a1cb1a7c9a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 052/123] fix: the cleanup attribute is ignored at file scope

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 6c6f3fb..fd61691 100644
--- a/parse.c
+++ b/parse.c
@@ -615,6 +615,8 @@ static void attr_cleanup(Token *loc, TokenKind kind, Obj **fn) {
       VarScope *sc = find_var(skip(tok->next, "("));
       if (!(sc && sc->var && sc->var->ty->kind == TY_FUNC))
         error_tok(tok, "cleanup function not found");
+      if (!current_fn)
+        return;
       strarray_push(&current_fn->refs, sc->var->name);
       *fn = sc->var;
       return;
-- 
2.43.0


From dd4397f1361a2e5a667916f72c5bb6f668c5f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 053/123] fix: register in front of a parameter without type
 specifiers

---
 parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index fd61691..ec9d7c5 100644
--- a/parse.c
+++ b/parse.c
@@ -822,8 +822,9 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
       continue;
     }
 
-    if (consume(&tok, tok, "register") && attr) {
-      attr->is_register = true;
+    if (consume(&tok, tok, "register")) {
+      if (attr)
+        attr->is_register = true;
       continue;
     }
     // These keywords are recognized but ignored.
-- 
2.43.0


From d1c50d83d5718056c8ca42368036af0cb5b69fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 054/123] fix: alignments that are not powers of two are
 diagnosed

---
 parse.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index ec9d7c5..79e5c4c 100644
--- a/parse.c
+++ b/parse.c
@@ -589,6 +589,14 @@ static bool get_attr_val(Token *tok, int64_t *val) {
   return false;
 }
 
+// Zero is allowed and has no effect.
+static int align_expr(Token **rest, Token *tok) {
+  int64_t val = const_expr(rest, tok);
+  if (val < 0 || val > (1 << 28) || (val & (val - 1)))
+    error_tok(tok, "requested alignment is not a power of 2 or too large");
+  return val;
+}
+
 static void attr_aligned(Token *loc, int *align, TokenKind kind) {
   for (Token *tok = loc->attr_next; tok; tok = tok->attr_next) {
     if (tok->kind != kind)
@@ -596,7 +604,7 @@ static void attr_aligned(Token *loc, int *align, TokenKind kind) {
     if (equal_ext(tok, "aligned")) {
       Token *tok2;
       if (consume(&tok2, tok->next, "(")) {
-        int align2 = const_expr(&tok2, tok2);
+        int align2 = align_expr(&tok2, tok2);
         *align = MAX(*align, align2);
         continue;
       }
@@ -872,7 +880,7 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
       if (is_typename(tok))
         align = typename(&tok, tok)->align;
       else
-        align = const_expr(&tok, tok);
+        align = align_expr(&tok, tok);
       attr->align = MAX(attr->align, align);
       tok = skip(tok, ")");
       continue;
-- 
2.43.0


From d67cd216432a9e63f5bdf61b0cac6acd530f1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 055/123] fix: string literals do not initialize arrays of
 another element size

---
 parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.c b/parse.c
index 79e5c4c..c525e89 100644
--- a/parse.c
+++ b/parse.c
@@ -1660,6 +1660,9 @@ static void reset_initializer(Initializer *init) {
 
 // string-initializer = string-literal
 static void string_initializer(Token *tok, Initializer *init) {
+  if (init->ty->base->size != tok->ty->base->size)
+    error_tok(tok, "array initialized from incompatible string literal");
+
   if (init->kind == INIT_FLEXIBLE)
     new_initializer(init, array_of(init->ty->base, tok->ty->array_len), false);
   else
-- 
2.43.0


From 190ba4fe24b3a650ef5a37f3fa3c21d28eb2a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 056/123] fix: bit-fields wider than their type are diagnosed

---
 parse.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index c525e89..eeedd50 100644
--- a/parse.c
+++ b/parse.c
@@ -3841,9 +3841,14 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
 
       if (consume(&tok, tok, ":")) {
         mem->is_bitfield = true;
-        mem->bit_width = const_expr(&tok, tok);
-        if (mem->bit_width < 0)
+        int64_t width = const_expr(&tok, tok);
+        if (!is_integer(mem->ty))
+          error_tok(tok, "bit-field has invalid type");
+        if (width < 0)
           error_tok(tok, "bit-field with negative width");
+        if (width > (mem->ty->kind == TY_BOOL ? 1 : mem->ty->size * 8))
+          error_tok(tok, "bit-field exceeds the width of its type");
+        mem->bit_width = width;
         attr_aligned(tok, &mem->alt_align, TK_ATTR);
         bool_attr(tok, TK_ATTR, "packed", &mem->is_packed);
       }
-- 
2.43.0


From 13decbc2b0f8597e7488b9221ffef2485b83bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 057/123] fix: scalars are not converted to struct types

---
 parse.c  |  6 +-----
 slimcc.h |  1 +
 type.c   | 13 +++++++++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/parse.c b/parse.c
index eeedd50..506abef 100644
--- a/parse.c
+++ b/parse.c
@@ -2563,11 +2563,7 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
     *rest = skip(tok, ";");
 
     add_type(exp);
-    Type *ty = current_fn->ty->return_ty;
-    if (ty->kind != TY_STRUCT && ty->kind != TY_UNION)
-      exp = new_cast(exp, current_fn->ty->return_ty);
-
-    node->lhs = exp;
+    node->lhs = assign_cast(exp, current_fn->ty->return_ty);
     return node;
   }
 
diff --git a/slimcc.h b/slimcc.h
index d7dc1e1..84a1781 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -651,6 +651,7 @@ Type *func_type(Type *return_ty, Token *tok);
 Type *array_of(Type *base, int64_t size);
 Type *vla_of(Type *base, Node *expr);
 Type *new_type(TypeKind kind, int64_t size, int align);
+Node *assign_cast(Node *expr, Type *ty);
 void add_type(Node *node);
 Type *unqual(Type *ty);
 Type *new_qualified_type(Type *ty);
diff --git a/type.c b/type.c
index 7799651..f54ddb0 100644
--- a/type.c
+++ b/type.c
@@ -469,6 +469,16 @@ static void usual_arith_conv(Node **lhs, Node **rhs, bool handle_ptr) {
   *rhs = new_cast(*rhs, ty);
 }
 
+// Convert a value as if by assignment
+Node *assign_cast(Node *expr, Type *ty) {
+  if (ty->kind != TY_STRUCT && ty->kind != TY_UNION)
+    return new_cast(expr, ty);
+
+  if (expr->ty->kind != ty->kind || expr->ty->size != ty->size)
+    error_tok(expr->tok, "invalid conversion to a struct or union type");
+  return expr;
+}
+
 void add_type(Node *node) {
   if (!node || node->ty)
     return;
@@ -521,8 +531,7 @@ void add_type(Node *node) {
   case ND_ASSIGN:
     if (node->lhs->ty->kind == TY_ARRAY && !node->lhs->var->constexpr_data)
       error_tok(node->lhs->tok, "not an lvalue");
-    if (node->lhs->ty->kind != TY_STRUCT && node->lhs->ty->kind != TY_UNION)
-      node->rhs = new_cast(node->rhs, node->lhs->ty);
+    node->rhs = assign_cast(node->rhs, node->lhs->ty);
     node->ty = node->lhs->ty;
     return;
   case ND_EQ:
-- 
2.43.0


From f1078216b5b7b06e1608df594e8f702b997b5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 058/123] fix: arrays with a negative or too large size are
 diagnosed

---
 parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 506abef..2b2dbb0 100644
--- a/parse.c
+++ b/parse.c
@@ -1192,8 +1192,13 @@ static Type *array_dimensions(Token **rest, Token *tok, Type *ty) {
   *rest = tok;
 
   int64_t array_len;
-  if (ty->kind != TY_VLA && is_const_expr(expr, &array_len))
+  if (ty->kind != TY_VLA && is_const_expr(expr, &array_len)) {
+    if (array_len < 0 && !(expr->ty->is_unsigned && expr->ty->size == 8))
+      error_tok(expr->tok, "size of array is negative");
+    if (array_len < 0 || (ty->size > 0 && array_len > INT64_MAX / ty->size))
+      error_tok(expr->tok, "size of array is too large");
     return array_of(ty, array_len);
+  }
 
   if (is_constant_context())
     error_tok(tok, "variably-modified type in constant context");
-- 
2.43.0


From 01eed0943fc77d010d216f15c047f74bdf1c1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 059/123] fix: offsets in structs larger than 256 MiB

---
 codegen.c | 12 ++++++------
 parse.c   | 14 ++++++++------
 slimcc.h  |  2 +-
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/codegen.c b/codegen.c
index 251b659..f4f595a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -529,7 +529,7 @@ static void load_extend_int64(Type *ty, char *ofs, char *ptr, char *reg) {
 
 // Round up `n` to the nearest multiple of `align`. For instance,
 // align_to(5, 8) returns 8 and align_to(11, 8) returns 16.
-int align_to(int n, int align) {
+int64_t align_to(int64_t n, int align) {
   return (n + align - 1) / align * align;
 }
 
@@ -1664,7 +1664,7 @@ static void gen_funcall(Node *node) {
       Printftn("sub $%d, %%rsp", arg_stk_size);
       Printftn("and $-%d, %%rsp", arg_stk_align);
     } else {
-      Printftn("sub $%d, %%rsp", align_to(arg_stk_size, 16));
+      Printftn("sub $%d, %%rsp", (int)align_to(arg_stk_size, 16));
     }
   }
 
@@ -1698,7 +1698,7 @@ static void gen_funcall(Node *node) {
     if (arg_stk_align > 16)
       pop("%rsp");
     else
-      Printftn("add $%d, %%rsp", align_to(arg_stk_size, 16));
+      Printftn("add $%d, %%rsp", (int)align_to(arg_stk_size, 16));
   }
 }
 
@@ -2055,11 +2055,11 @@ static void gen_expr2(Node *node, bool is_void) {
     }
     Printstn("movq 8(%%rax), %%rdx"); // overflow_arg_area
     if (ty->align <= 8) {
-      Printftn("addq $%d, 8(%%rax)", align_to(ty->size, 8));
+      Printftn("addq $%d, 8(%%rax)", (int)align_to(ty->size, 8));
     } else {
       Printftn("addq $%d, %%rdx", ty->align - 1);
       Printftn("andq $-%d, %%rdx", ty->align);
-      Printftn("lea %d(%%rdx), %%rcx", align_to(ty->size, 8));
+      Printftn("lea %d(%%rdx), %%rcx", (int)align_to(ty->size, 8));
       Printstn("movq %%rcx, 8(%%rax)");
     }
     if (use_reg_save)
@@ -4330,7 +4330,7 @@ void emit_text(Obj *fn) {
   assert(tmp_stack.depth == 0);
 
   if (peak_stk_usage)
-    insrtln("sub $%d, %%rsp", stack_alloc_loc, align_to(peak_stk_usage, 16));
+    insrtln("sub $%d, %%rsp", stack_alloc_loc, (int)align_to(peak_stk_usage, 16));
 
   if (!strcmp(fn->name, "main"))
     Printstn("xor %%eax, %%eax");
diff --git a/parse.c b/parse.c
index 2b2dbb0..6b9ecc8 100644
--- a/parse.c
+++ b/parse.c
@@ -172,7 +172,7 @@ static Node *mul(Token **rest, Token *tok);
 static Node *cast(Token **rest, Token *tok);
 static Member *get_struct_member(Type *ty, Token *tok);
 static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind);
-static Type *struct_decl(Type *ty, int alt_align);
+static Type *struct_decl(Type *ty, int alt_align, Token *tok);
 static Type *union_decl(Type *ty, int alt_align);
 static Node *postfix(Node *node, Token **rest, Token *tok);
 static Node *funcall(Token **rest, Token *tok, Node *node);
@@ -185,7 +185,7 @@ static Node *compute_vla_size(Type *ty, Token *tok);
 static int64_t const_expr2(Token **rest, Token *tok, Type **ty);
 static Node *new_node(NodeKind kind, Token *tok);
 
-static int align_down(int n, int align) {
+static int64_t align_down(int64_t n, int align) {
   return align_to(n - align + 1, align);
 }
 
@@ -3910,7 +3910,7 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   *rest = tok;
 
   if (kind == TY_STRUCT)
-    ty = struct_decl(ty, alt_align);
+    ty = struct_decl(ty, alt_align, tok);
   else
     ty = union_decl(ty, alt_align);
 
@@ -3934,8 +3934,8 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   return ty;
 }
 
-static Type *struct_decl(Type *ty, int alt_align) {
-  int bits = 0;
+static Type *struct_decl(Type *ty, int alt_align, Token *tok) {
+  int64_t bits = 0;
   Member head = {0};
   Member *cur = &head;
 
@@ -3971,6 +3971,8 @@ static Type *struct_decl(Type *ty, int alt_align) {
       bits = align_to(bits, mem->ty->align * 8);
 
     mem->offset = bits / 8;
+    if (mem->ty->size > INT32_MAX - mem->offset)
+      error_tok(tok, "size of struct is too large");
     bits += mem->ty->size * 8;
   }
   cur->next = NULL;
@@ -3997,7 +3999,7 @@ static Type *union_decl(Type *ty, int alt_align) {
         alt_align = MAX(alt_align, mem->ty->align);
       alt_align = MAX(alt_align, mem->alt_align);
     }
-    int sz;
+    int64_t sz;
     if (mem->is_bitfield)
       sz = align_to(mem->bit_width, 8) / 8;
     else
diff --git a/slimcc.h b/slimcc.h
index 84a1781..16dcf95 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -665,7 +665,7 @@ Obj *eval_var_opt(Node *node, int *ofs, bool let_subarray, bool let_atomic);
 int codegen(Obj *prog, FILE *out);
 void prepare_funcall(Node *node, Scope *scope);
 void prepare_inline_asm(Node *node);
-int align_to(int n, int align);
+int64_t align_to(int64_t n, int align);
 bool va_arg_need_copy(Type *ty);
 void emit_text(Obj *fn);
 void *prepare_funcgen(void);
-- 
2.43.0


From 49e06b054764811f3cf9130a1880421800ca8b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:43 +0000
Subject: [PATCH 060/123] fix: definitions with incomplete or void type are
 diagnosed

---
 parse.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parse.c b/parse.c
index 6b9ecc8..c852e91 100644
--- a/parse.c
+++ b/parse.c
@@ -1187,6 +1187,9 @@ static Type *array_dimensions(Token **rest, Token *tok, Type *ty) {
     error_tok(tok, "size of array not integer");
   tok = skip(tok, "]");
 
+  if (ty->size < 0 || ty->kind == TY_VOID ||
+    (equal(tok, "[") && equal(tok->next, "]")))
+    error_tok(expr->tok, "array has incomplete element type");
   if (equal(tok, "["))
     ty = array_dimensions(&tok, tok->next, ty);
   *rest = tok;
@@ -1540,6 +1543,8 @@ static Node *declaration2(Token **rest, Token *tok, Type *basety, VarAttr *attr,
       gvar_initializer(&tok, tok->next, var);
       is_global_init_context = ctx;
     }
+    if (var->ty->size < 0)
+      error_tok(name, "variable has incomplete type");
     *rest = tok;
     return expr;
   }
@@ -4779,6 +4784,8 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
     bool is_definition = !attr->is_extern;
     if (!is_definition && equal(tok, "="))
       is_definition = true;
+    if (is_definition && ty->kind == TY_VOID)
+      error_tok(name, "variable declared void");
 
     VarScope *sc = find_var(name);
     Obj *var;
@@ -4880,6 +4887,10 @@ Obj *parse(Token *tok) {
     arena_off(&node_arena);
   }
 
+  for (Obj *var = globals; var; var = var->next)
+    if (var->is_definition && var->ty->size < 0 && !is_array(var->ty))
+      error("variable '%s' has incomplete type", var->name);
+
   for (Obj *var = globals; var; var = var->next)
     if (var->is_definition && var->ty->kind == TY_FUNC &&
       (var->is_referenced || !(var->is_static && var->is_inline)))
-- 
2.43.0


From e432d3aa78734b2da7f406f0c6956404c079896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 061/123] fix: constexpr pointers initialized with a null
 pointer

---
 parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.c b/parse.c
index c852e91..0ea4582 100644
--- a/parse.c
+++ b/parse.c
@@ -2221,6 +2221,9 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
     }
 
     switch (ty->kind) {
+    case TY_PTR:
+      memcpy(buf + offset, &(int64_t){eval(node)}, ty->size);
+      return cur;
     case TY_FLOAT:
       *(float *)(buf + offset) = eval_double(node);
       return cur;
-- 
2.43.0


From e6a08968a4a71dc612cc273f7e7d41bba97fc27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 062/123] fix: assignments to array members are diagnosed

---
 type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index f54ddb0..61ddabd 100644
--- a/type.c
+++ b/type.c
@@ -529,7 +529,8 @@ void add_type(Node *node) {
     node->ty = node->lhs->ty;
     return;
   case ND_ASSIGN:
-    if (node->lhs->ty->kind == TY_ARRAY && !node->lhs->var->constexpr_data)
+    if (node->lhs->ty->kind == TY_ARRAY &&
+      !(node->lhs->kind == ND_VAR && node->lhs->var->constexpr_data))
       error_tok(node->lhs->tok, "not an lvalue");
     node->rhs = assign_cast(node->rhs, node->lhs->ty);
     node->ty = node->lhs->ty;
-- 
2.43.0


From 4b73e76f7e037a6920ef7fabb6c2646839845357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 063/123] fix: struct members with incomplete type are
 diagnosed

---
 parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.c b/parse.c
index 0ea4582..c80860b 100644
--- a/parse.c
+++ b/parse.c
@@ -3848,6 +3848,10 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
         if (t->kind == TY_VLA)
           error_tok(tok, "members cannot be of variably-modified type");
 
+      if ((mem->ty->size < 0 && mem->ty->kind != TY_ARRAY) ||
+        mem->ty->kind == TY_VOID || mem->ty->kind == TY_FUNC)
+        error_tok(mem->name ? mem->name : tok, "member has incomplete or function type");
+
       if (consume(&tok, tok, ":")) {
         mem->is_bitfield = true;
         int64_t width = const_expr(&tok, tok);
-- 
2.43.0


From d024f210cb4505c8da12500dfeb625c1414dd66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 064/123] fix: arrays of incomplete types and of functions are
 diagnosed

---
 parse.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parse.c b/parse.c
index c80860b..a125298 100644
--- a/parse.c
+++ b/parse.c
@@ -1173,6 +1173,9 @@ static Type *func_params(Token **rest, Token *tok, Type *ty) {
 
 // array-dimensions = ("static" | "restrict")* const-expr? "]" type-suffix
 static Type *array_dimensions(Token **rest, Token *tok, Type *ty) {
+  if (ty->size < 0 || ty->kind == TY_VOID || ty->kind == TY_FUNC)
+    error_tok(tok, "array has invalid element type");
+
   if (consume(&tok, tok, "]") ||
       (equal(tok, "*") && consume(&tok, tok->next, "]"))) {
     if (equal(tok, "["))
@@ -1187,9 +1190,8 @@ static Type *array_dimensions(Token **rest, Token *tok, Type *ty) {
     error_tok(tok, "size of array not integer");
   tok = skip(tok, "]");
 
-  if (ty->size < 0 || ty->kind == TY_VOID ||
-    (equal(tok, "[") && equal(tok->next, "]")))
-    error_tok(expr->tok, "array has incomplete element type");
+  if (equal(tok, "[") && equal(tok->next, "]"))
+    error_tok(tok, "array has incomplete element type");
   if (equal(tok, "["))
     ty = array_dimensions(&tok, tok->next, ty);
   *rest = tok;
-- 
2.43.0


From b7707041269589a3b6ae3d8a8970d83a6e226c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 065/123] fix: shifts by a constant that does not fit the
 instruction assemble

---
 codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.c b/codegen.c
index f4f595a..849ca8e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2583,6 +2583,10 @@ static char *arith_ins(NodeKind kind) {
 }
 
 static void imm_arith2(NodeKind kind, char *op, char *tmp, int64_t val) {
+  // Out of range counts are undefined, but have to assemble
+  if (kind == ND_SHL || kind == ND_SHR || kind == ND_SAR)
+    val &= 63;
+
   if (in_imm_range(val)) {
     Printftn("%s $%"PRIi64", %s", arith_ins(kind), val, op);
     return;
-- 
2.43.0


From 07a4201c7e1cdd95031bdfa2155649ad445ff5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 066/123] fix: label addresses outside of functions are
 diagnosed

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index a125298..486be6f 100644
--- a/parse.c
+++ b/parse.c
@@ -3789,6 +3789,8 @@ static Node *unary(Token **rest, Token *tok) {
 
   // [GNU] labels-as-values
   if (equal(tok, "&&")) {
+    if (!current_fn)
+      error_tok(tok, "label address taken outside of a function");
     Node *node = new_node(ND_LABEL_VAL, tok);
     node->labels = ident_tok(rest, tok->next);
     node->goto_next = gotos;
-- 
2.43.0


From 969bd1354ceb04c0886d18f6e96587b4c70f766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 067/123] fix: declarations with linkage in inner scopes are
 not bound to locals

---
 parse.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/parse.c b/parse.c
index 486be6f..2fa4346 100644
--- a/parse.c
+++ b/parse.c
@@ -4691,10 +4691,32 @@ static void mark_fn_live(Obj *var) {
   }
 }
 
+// Find a file scope variable or function for a declaration with linkage,
+// and make it visible in the current scope.
+static Obj *find_linked(Token *name, bool is_func) {
+  char *name_str = get_ident(name);
+
+  VarScope *sc = find_var(name);
+  Obj *var = sc ? sc->var : NULL;
+  if (!(var && !var->is_local && !strcmp(var->name, name_str))) {
+    Scope *file_sc = scope;
+    while (file_sc->parent)
+      file_sc = file_sc->parent;
+
+    sc = hashmap_get(&file_sc->vars, name_str);
+    var = sc ? sc->var : NULL;
+    if (var)
+      push_scope(name_str)->var = var;
+  }
+  if (var && (var->ty->kind == TY_FUNC) != is_func)
+    error_tok(name, "redeclared as a different kind of symbol");
+  return var;
+}
+
 static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
   char *name_str = get_ident(name);
 
-  Obj *fn = find_func(name_str);
+  Obj *fn = find_linked(name, true);
   if (!fn) {
     fn = new_gvar(name_str, ty);
 
@@ -4798,16 +4820,14 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
     if (is_definition && ty->kind == TY_VOID)
       error_tok(name, "variable declared void");
 
-    VarScope *sc = find_var(name);
-    Obj *var;
-    if (sc && sc->var) {
-      symbol_attr(sc->var, attr, name, tok);
+    Obj *var = find_linked(name, false);
+    if (var) {
+      symbol_attr(var, attr, name, tok);
 
       if (!is_definition)
         continue;
-      if (sc->var->is_definition && !sc->var->is_tentative)
+      if (var->is_definition && !var->is_tentative)
         continue;
-      var = sc->var;
       var->is_tentative = false;
       var->ty = ty;
     } else {
-- 
2.43.0


From af2db8052fb2400a09cdcc29d174d129777fa1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 068/123] fix: redeclared arrays have the size that was
 declared

---
 parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 2fa4346..9ccc085 100644
--- a/parse.c
+++ b/parse.c
@@ -4824,12 +4824,17 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
     if (var) {
       symbol_attr(var, attr, name, tok);
 
+      // Once known, the size of an array stays
+      if (ty->size >= 0 || var->ty->size < 0) {
+        if (is_definition ? !(var->is_definition && !var->is_tentative) :
+          (var->ty->size < 0 && !scope->parent))
+          var->ty = ty;
+      }
       if (!is_definition)
         continue;
       if (var->is_definition && !var->is_tentative)
         continue;
       var->is_tentative = false;
-      var->ty = ty;
     } else {
       var = new_gvar(get_ident(name), ty);
       symbol_attr(var, attr, name, tok);
-- 
2.43.0


From 0dfac826f0265ea68dedb54a226b74ef378662a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 069/123] fix: a later prototype completes a declaration
 without parameters

---
 parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.c b/parse.c
index 9ccc085..e91e146 100644
--- a/parse.c
+++ b/parse.c
@@ -4732,6 +4732,10 @@ static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
 
     if (!fn->is_static && attr->is_static)
       error_tok(name, "static declaration follows a non-static declaration");
+
+    // A prototype takes the place of a declaration without parameters
+    if (fn->ty->is_oldstyle && !fn->is_definition && !ty->is_oldstyle && !scope->parent)
+      fn->ty = ty;
   }
   fn->is_inline |= attr->is_inline;
   return fn;
-- 
2.43.0


From 888cd174b84abf34673d21529ba1308f40a61f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 070/123] fix: missing inner array sizes are diagnosed

---
 parse.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parse.c b/parse.c
index e91e146..69a3952 100644
--- a/parse.c
+++ b/parse.c
@@ -181,6 +181,7 @@ static Node *primary(Token **rest, Token *tok);
 static Node *parse_typedef(Token **rest, Token *tok, Type *basety, VarAttr *attr);
 static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name);
 static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *attr);
+static Type *array_dimensions(Token **rest, Token *tok, Type *ty);
 static Node *compute_vla_size(Type *ty, Token *tok);
 static int64_t const_expr2(Token **rest, Token *tok, Type **ty);
 static Node *new_node(NodeKind kind, Token *tok);
@@ -1171,6 +1172,16 @@ static Type *func_params(Token **rest, Token *tok, Type *ty) {
   return fn_ty;
 }
 
+static Type *array_element(Token **rest, Token *tok, Type *ty) {
+  if (consume(&tok, tok, "[")) {
+    if (equal(tok, "]"))
+      error_tok(tok, "array has incomplete element type");
+    ty = array_dimensions(&tok, tok, ty);
+  }
+  *rest = tok;
+  return ty;
+}
+
 // array-dimensions = ("static" | "restrict")* const-expr? "]" type-suffix
 static Type *array_dimensions(Token **rest, Token *tok, Type *ty) {
   if (ty->size < 0 || ty->kind == TY_VOID || ty->kind == TY_FUNC)
@@ -1178,8 +1189,7 @@ static Type *array_dimensions(Token **rest, Token *tok, Type *ty) {
 
   if (consume(&tok, tok, "]") ||
       (equal(tok, "*") && consume(&tok, tok->next, "]"))) {
-    if (equal(tok, "["))
-      ty = array_dimensions(&tok, tok->next, ty);
+    ty = array_element(&tok, tok, ty);
     *rest = tok;
     return array_of(ty, -1);
   }
@@ -1190,10 +1200,7 @@ static Type *array_dimensions(Token **rest, Token *tok, Type *ty) {
     error_tok(tok, "size of array not integer");
   tok = skip(tok, "]");
 
-  if (equal(tok, "[") && equal(tok->next, "]"))
-    error_tok(tok, "array has incomplete element type");
-  if (equal(tok, "["))
-    ty = array_dimensions(&tok, tok->next, ty);
+  ty = array_element(&tok, tok, ty);
   *rest = tok;
 
   int64_t array_len;
@@ -1971,6 +1978,10 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
 }
 
 static Type *initializer(Token **rest, Initializer *init, Token *tok, Type *ty) {
+  for (Type *t = ty->kind == TY_ARRAY ? ty->base : NULL; t && t->kind == TY_ARRAY; t = t->base)
+    if (t->size < 0)
+      error_tok(tok, "array has incomplete element type");
+
   new_initializer(init, ty, true);
   initializer2(rest, tok, init);
 
-- 
2.43.0


From 157aa0f9f26068fcd4fbd883c14cb0b67efb20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 071/123] fix: string literals widened when joined keep their
 position

---
 preprocess.c | 7 +++++--
 tokenize.c   | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 6c3151c..d69625d 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1822,8 +1822,11 @@ static void join_adjacent_string_literals(Token *tok) {
 
   if (basety->size > 1)
     for (Token *t = tok; t != end; t = t->next)
-      if (t->ty->base->size == 1)
-        *t = *tokenize_string_literal(t, basety);
+      if (t->ty->base->size == 1) {
+        Token *t2 = tokenize_string_literal(t, basety);
+        t->ty = t2->ty;
+        t->str = t2->str;
+      }
 
   // Concatenate adjacent string literals.
   int len = tok->ty->array_len;
diff --git a/tokenize.c b/tokenize.c
index 86223d0..ef66811 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -646,12 +646,13 @@ static void add_line_numbers(Token *tok) {
 }
 
 Token *tokenize_string_literal(Token *tok, Type *basety) {
+  current_file = tok->file;
+
   Token *t;
   if (basety->size == 2)
     t = read_utf16_string_literal(tok->loc, tok->loc);
   else
     t = read_utf32_string_literal(tok->loc, tok->loc, basety);
-  t->next = tok->next;
   return t;
 }
 
-- 
2.43.0


From bb4c1726a806f9b0116c9fde6d791fad4a3f9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 072/123] fix: diagnostics at generated tokens name their
 position

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index ef66811..b899078 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -58,6 +58,8 @@ static void verror_at(char *filename, char *input, int line_no,
 }
 
 void verror_at_tok(Token *tok, char *fmt, va_list ap) {
+  while (tok->is_generated && tok->origin)
+    tok = tok->origin;
   if (tok->is_generated) {
     vfprintf(stderr, fmt, ap);
     return;
-- 
2.43.0


From a18b3851218be8f1a9a49d6249f786b652595c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 073/123] fix: label addresses in conditions

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 69a3952..ace18a5 100644
--- a/parse.c
+++ b/parse.c
@@ -3075,7 +3075,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
     if (ty->size != ty_intptr_t->size) {
       EvalContext ctx2= {.kind = EV_LABEL};
       if (eval_ctx(lhs, &ctx2, NULL) && ctx2.label) {
-        if (ty->kind == TY_BOOL && !ctx2.var->is_weak)
+        if (ty->kind == TY_BOOL && !(ctx2.var && ctx2.var->is_weak))
           return true;
         return eval_error(node->tok, "pointer cast to different size");
       }
-- 
2.43.0


From 214a1bcb79116f0fb93e1613ab0c9a5cac64e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 074/123] fix: a tag declared in a struct is not an anonymous
 member

---
 parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse.c b/parse.c
index ace18a5..c40a954 100644
--- a/parse.c
+++ b/parse.c
@@ -3832,6 +3832,11 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
     // Anonymous struct member
     if (equal(tok, ";") &&
       (basety->kind == TY_STRUCT || basety->kind == TY_UNION)) {
+      // A mere declaration of a tag
+      if (basety->size < 0) {
+        tok = tok->next;
+        continue;
+      }
       Member *mem = ast_arena_calloc(sizeof(Member));
       mem->ty = basety;
 
-- 
2.43.0


From 9d8aa5928fc364ddb8bf1f730081be965187b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 075/123] fix: flexible array members before the end of a
 struct are diagnosed

---
 parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.c b/parse.c
index c40a954..efbb643 100644
--- a/parse.c
+++ b/parse.c
@@ -3889,6 +3889,10 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
     }
   }
 
+  for (Member *mem = head.next; mem && mem != cur; mem = mem->next)
+    if (mem->ty->size < 0)
+      error_tok(mem->name ? mem->name : tok, "flexible array member is not the last member");
+
   // If the last element is an array of incomplete type, it's
   // called a "flexible array member". It should behave as if
   // if were a zero-sized array.
-- 
2.43.0


From 9b3017ff7625f3ca38853ed116f0161976901e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 076/123] fix: struct initializers that are not constant are
 diagnosed

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index efbb643..71f1c78 100644
--- a/parse.c
+++ b/parse.c
@@ -2251,6 +2251,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
       memcpy(buf + offset, &(int64_t){eval(node)}, ty->size);
       return cur;
     }
+    error_tok(node->tok, "invalid initializer");
   }
 
   internal_error();
-- 
2.43.0


From d2717df1f3ab3bb4767646b724260b3193c2181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 077/123] fix: the padding of long double initializers is not
 left to chance

---
 parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 71f1c78..417f7d2 100644
--- a/parse.c
+++ b/parse.c
@@ -2244,7 +2244,8 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
       *(double *)(buf + offset) = eval_double(node);
       return cur;
     case TY_LDOUBLE:
-      *(long double *)(buf + offset) = eval_double(node);
+      // The padding stays zero
+      memcpy(buf + offset, &(long double){eval_double(node)}, 10);
       return cur;
     }
     if (is_integer(ty)) {
-- 
2.43.0


From 5f8bfe7856350f6dd3fcbbf3a0ef75b31f75a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 078/123] fix: negative array designators are diagnosed

---
 parse.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parse.c b/parse.c
index 417f7d2..58c8d02 100644
--- a/parse.c
+++ b/parse.c
@@ -1758,16 +1758,18 @@ static bool is_str_tok(Token **rest, Token *tok, Token **str_tok) {
 //
 // The above initializer sets x.c to 5.
 static void array_designator(Token **rest, Token *tok, Type *ty, int *begin, int *end) {
-  *begin = const_expr(&tok, tok->next);
-  if (*begin >= ty->array_len)
+  int64_t idx = const_expr(&tok, tok->next);
+  if (idx < 0 || idx >= ty->array_len)
     error_tok(tok, "array designator index exceeds array bounds");
+  *begin = idx;
 
   if (equal(tok, "...")) {
-    *end = const_expr(&tok, tok->next);
-    if (*end >= ty->array_len)
+    idx = const_expr(&tok, tok->next);
+    if (idx >= ty->array_len)
       error_tok(tok, "array designator index exceeds array bounds");
-    if (*end < *begin)
-      error_tok(tok, "array designator range [%d, %d] is empty", *begin, *end);
+    *end = idx;
+    if (idx < *begin)
+      error_tok(tok, "array designator range [%d, %d] is empty", *begin, (int)idx);
   } else {
     *end = *begin;
   }
-- 
2.43.0


From 5cd9b49dc93da179944ce96a6445d0fe6221c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 079/123] fix: -fdata-sections leaves objects with a section of
 their own alone

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 849ca8e..b70acfa 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4125,7 +4125,7 @@ static void emit_data(Obj *var) {
   else
     Printfts(".section .%s", var->init_data ? "data" : "bss");
 
-  if (opt_data_sections)
+  if (opt_data_sections && !var->section_name)
     Printf(".\"%s\"", asm_name(var));
 
   if (var->is_tls)
-- 
2.43.0


From ddc4c5e133d14060293ce8014aa0b36210f39433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 080/123] fix: weak undefined objects are addressed through the
 GOT in PIE code

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index b70acfa..a65d072 100644
--- a/codegen.c
+++ b/codegen.c
@@ -214,7 +214,7 @@ static bool in_imm_range (int64_t val) {
 
 static bool use_rip(Obj *var) {
   return !(opt_fpic || opt_fpie) || var->is_static ||
-    (opt_fpie && (var->ty->kind != TY_FUNC || var->is_definition));
+    (opt_fpie && (var->is_definition || (var->ty->kind != TY_FUNC && !var->is_weak)));
 }
 
 static Node *skip_gp_cast(Node *node) {
-- 
2.43.0


From fd7f38d373d3003afdc40282860a5088e3dc5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 081/123] fix: % & | ^ on floating operands are rejected
 wherever they stand

---
 type.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/type.c b/type.c
index 61ddabd..3e0b76f 100644
--- a/type.c
+++ b/type.c
@@ -513,11 +513,16 @@ void add_type(Node *node) {
   }
   case ND_MUL:
   case ND_DIV:
+    usual_arith_conv(&node->lhs, &node->rhs, false);
+    node->ty = node->lhs->ty;
+    return;
   case ND_MOD:
   case ND_BITAND:
   case ND_BITOR:
   case ND_BITXOR:
     usual_arith_conv(&node->lhs, &node->rhs, false);
+    if (!is_integer(node->lhs->ty))
+      error_tok(node->tok, "invalid operands");
     node->ty = node->lhs->ty;
     return;
   case ND_POS:
-- 
2.43.0


From bf8dc0d43a2f86853171d0fbc6ecf41dacee8b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 082/123] fix: definitions and compound literals of incomplete
 type are diagnosed with their position

---
 parse.c  | 8 +++++++-
 slimcc.h | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 58c8d02..f9c33bc 100644
--- a/parse.c
+++ b/parse.c
@@ -4321,6 +4321,8 @@ static Node *primary(Token **rest, Token *tok) {
     Type *ty = typename(&tok, tok->next);
     if (ty->kind == TY_VLA)
       error_tok(tok, "compound literals cannot be VLA");
+    if (ty->size < 0 && ty->kind != TY_ARRAY)
+      error_tok(start, "compound literal has incomplete type");
     tok = skip(tok, ")");
 
     if (is_constant_context()) {
@@ -4870,6 +4872,10 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
     var->is_definition = is_definition;
     var->is_static = attr->is_static;
     var->is_tls = attr->is_tls;
+    if (is_definition && ty->size < 0) {
+      var->incomplete_tok = name;
+      name->is_live = true;
+    }
     if (alt_align)
       var->align = alt_align;
 
@@ -4953,7 +4959,7 @@ Obj *parse(Token *tok) {
 
   for (Obj *var = globals; var; var = var->next)
     if (var->is_definition && var->ty->size < 0 && !is_array(var->ty))
-      error("variable '%s' has incomplete type", var->name);
+      error_tok(var->incomplete_tok, "variable '%s' has incomplete type", var->name);
 
   for (Obj *var = globals; var; var = var->next)
     if (var->is_definition && var->ty->kind == TY_FUNC &&
diff --git a/slimcc.h b/slimcc.h
index 16dcf95..5161e3d 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -268,6 +268,7 @@ struct Obj {
   char *asm_name;
 
   // Global variable
+  Token *incomplete_tok; // Name in a definition of incomplete type
   bool is_tentative;
   bool is_tls;
   char *section_name;
-- 
2.43.0


From 07a97d834c7e17f09d037b172c90988ae36692d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 083/123] fix: directives that end too early are diagnosed at
 their own line

---
 preprocess.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index d69625d..3a2c239 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -253,6 +253,15 @@ static Token *split_line(Token **rest, Token *tok) {
   return head.next;
 }
 
+// Split the arguments of a directive. Errors about missing ones are
+// reported at the directive rather than at the line after it.
+static Token *split_directive(Token **rest, Token *directive) {
+  if (!directive->next->at_bol)
+    return split_line(rest, directive->next);
+  *rest = directive->next;
+  return new_eof(directive);
+}
+
 static Token *split_paren2(Token **rest, Token *tok, Token *next) {
   Token *start = tok;
   Token head = {0};
@@ -435,24 +444,35 @@ static Macro *new_macro(char *name, bool is_objlike) {
   return m;
 }
 
+static Token *skip_va_param_end(Token *start, Token *tok) {
+  if (tok->at_bol)
+    error_tok(start, "unterminated macro parameter list");
+  return skip(tok, ")");
+}
+
 static Macro *read_macro_params(char *name, Token **rest, Token *tok) {
   Token head = {0};
   Token *cur = &head;
+  Token *start = tok;
   Macro *m = new_macro(name, false);
 
-  while (!consume(rest, tok, ")")) {
-    if (m->arg_cnt++)
+  tok = tok->next;
+  while (tok->at_bol || !consume(rest, tok, ")")) {
+    if (!tok->at_bol && m->arg_cnt++)
       tok = skip(tok, ",");
 
+    if (tok->at_bol)
+      error_tok(start, "unterminated macro parameter list");
+
     if (tok->kind != TK_IDENT) {
-      *rest = skip(skip(tok, "..."), ")");
+      *rest = skip_va_param_end(start, skip(tok, "..."));
       static Token va_args = {.loc = "__VA_ARGS__", .len = 11, .is_generated = true};
       cur = cur->next = &va_args;
       m->has_va_arg = true;
       break;
     }
     if (equal(tok->next, "...")) {
-      *rest = skip(tok->next->next, ")");
+      *rest = skip_va_param_end(start, tok->next->next);
       cur = cur->next = tok;
       m->has_va_arg = true;
       break;
@@ -473,7 +493,7 @@ static Macro *read_macro_name(Token **rest, Token *tok) {
 
   Macro *m;
   if (!tok->has_space && equal(tok, "("))
-    m = read_macro_params(name, &tok, tok->next);
+    m = read_macro_params(name, &tok, tok);
   else
     m = new_macro(name, true);
   *rest = tok;
@@ -1316,14 +1336,14 @@ static Token *directives(Token **cur, Token *start) {
   if (equal(tok, "embed")) {
     Token *cont;
     bool is_dquote;
-    char *filename = read_filename(&tok, split_line(&cont, tok->next), &is_dquote);
+    char *filename = read_filename(&tok, split_directive(&cont, tok), &is_dquote);
     char *path = search_include_paths2(filename, start, is_dquote, NULL);
     return embed_file(cont, tok, path, start->next->next);
   }
 
   if (equal(tok, "include")) {
     bool is_dquote;
-    char *filename = read_include_filename(split_line(&tok, tok->next), &is_dquote);
+    char *filename = read_include_filename(split_directive(&tok, tok), &is_dquote);
     int incl_no = -1;
     char *path = search_include_paths2(filename, start, is_dquote, &incl_no);
     return include_file(tok, path, start->next->next, &incl_no);
@@ -1334,7 +1354,7 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(tok, "cannot infer #include_next search path");
 
     int incl_no = tok->file->incl_no + 1;
-    char *filename = read_include_filename(split_line(&tok, tok->next), &(bool){0});
+    char *filename = read_include_filename(split_directive(&tok, tok), &(bool){0});
     char *path = search_include_next(filename, start->file->name, &incl_no);
     return include_file(tok, path, start->next->next, &incl_no);
   }
@@ -1357,7 +1377,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "if")) {
-    bool active = eval_const_expr(split_line(&tok, tok->next));
+    bool active = eval_const_expr(split_directive(&tok, tok));
     push_cond_incl(start, active);
     if (!active)
       tok = skip_cond_incl(tok);
@@ -1388,7 +1408,7 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elif");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && eval_const_expr(split_line(&tok, tok->next))) {
+    if (!cond->been_active && eval_const_expr(split_directive(&tok, tok))) {
       cond->been_active = true;
       return tok;
     }
-- 
2.43.0


From 047ab7629811043accdc283c87015ab8a2533a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 084/123] fix: typedef combined with one other storage class is
 rejected

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index f9c33bc..765df35 100644
--- a/parse.c
+++ b/parse.c
@@ -815,7 +815,7 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
         attr->is_tls = true;
 
       if (attr->is_typedef &&
-          attr->is_static + attr->is_extern + attr->is_inline + attr->is_tls > 1)
+          attr->is_static + attr->is_extern + attr->is_inline + attr->is_tls > 0)
         error_tok(tok, "typedef may not be used together with static,"
                   " extern, inline, __thread or _Thread_local");
       tok = tok->next;
-- 
2.43.0


From 8d379bfdcc57e4660598e4d370dc22df79e575d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 085/123] fix: a file named by a line marker can still be
 included

---
 tokenize.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index b899078..5478415 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -959,15 +959,24 @@ File *add_input_file(char *path, char *contents, int *incl_no) {
   static HashMap input_files_map;
 
   File *file = hashmap_get(&input_files_map, path);
-  if (file)
+  if (file && (file->contents || !contents))
     return file;
 
+  // A name that only appeared in a line marker so far
+  bool is_named = file;
+
   static int file_no;
-  file = new_file(path, file_no + 1, contents);
+  if (is_named)
+    file->contents = contents;
+  else
+    file = new_file(path, file_no + 1, contents);
+
   if (incl_no) {
     file->is_input = true;
     file->incl_no = *incl_no;
   }
+  if (is_named)
+    return file;
 
   input_files = realloc(input_files, sizeof(File *) * (file_no + 2));
   input_files[file_no] = file;
-- 
2.43.0


From 9c1d6274338d3864ed914bfd399bddd2ce40a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 086/123] fix: line markers of -E output follow the tokens

---
 main.c       | 53 +++++++++++++++++++++++++++++++++++++++-------------
 preprocess.c | 22 +++++++++++++++-------
 2 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/main.c b/main.c
index 0c76bee..e317faf 100644
--- a/main.c
+++ b/main.c
@@ -673,30 +673,57 @@ static bool avoid_paste(Token *prev, Token *tok) {
   return false;
 }
 
+static void print_line_marker(FILE *out, int line_no, char *name) {
+  fprintf(out, "# %d \"", line_no);
+  for (char *p = strcmp(name, "-") ? name : "<stdin>"; *p; p++) {
+    if (*p == '"' || *p == '\\')
+      fputc('\\', out);
+    fputc(*p, out);
+  }
+  fprintf(out, "\"\n");
+}
+
 // Print tokens to stdout. Used for -E.
 static void print_tokens(Token *tok, char *path) {
   FILE *out = open_file(path);
 
-  int line = 1;
-  File *markerfile = NULL;
+  File **files = get_input_files();
+  int file_no = 0;  // The place that the next output line stands for
+  int line_no = 0;
+  bool at_bol = true;
+  bool is_directive = false;
   Token *prev = NULL;
 
   for (; tok->kind != TK_EOF; prev = tok, tok = tok->next) {
-    Token *orig = tok->origin ? tok->origin : tok;
-    if (!opt_P && markerfile != orig->file) {
-      markerfile = orig->file;
-      char *name = orig->file->name;
-      if (!strcmp(name, "-"))
-        name = "<stdin>";
-      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, name);
+    if (tok->at_bol) {
+      if (!at_bol) {
+        fprintf(out, "\n");
+        line_no++;
+      }
+      at_bol = true;
+      is_directive = equal(tok, "#");
+    }
+
+    if (!opt_P && (tok->at_bol || !is_directive) &&
+      (file_no != tok->display_file_no || line_no != tok->display_line_no)) {
+      if (file_no == tok->display_file_no && line_no < tok->display_line_no &&
+        tok->display_line_no - line_no <= 8) {
+        for (; line_no < tok->display_line_no; line_no++)
+          fprintf(out, "\n");
+      } else {
+        if (!at_bol)
+          fprintf(out, "\n");
+        file_no = tok->display_file_no;
+        line_no = tok->display_line_no;
+        print_line_marker(out, line_no, files[file_no - 1]->name);
+      }
+      at_bol = true;
     }
 
-    if (line > 1 && tok->at_bol)
-      fprintf(out, "\n");
-    if ((tok->has_space || avoid_paste(prev, tok)) && !tok->at_bol)
+    if (!at_bol && (tok->has_space || avoid_paste(prev, tok)))
       fprintf(out, " ");
     fprintf(out, "%.*s", tok->len, tok->loc);
-    line++;
+    at_bol = false;
   }
   fprintf(out, "\n");
 
diff --git a/preprocess.c b/preprocess.c
index 3a2c239..284e09a 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -75,6 +75,7 @@ static Token *preprocess3(Token *tok);
 static Macro *find_macro(Token *tok);
 static bool expand_macro(Token **rest, Token *tok, bool is_root);
 static Token *directives(Token **cur, Token *start);
+static void set_display_pos(Token *tok);
 static Token *subst(Token *tok, MacroContext *ctx);
 static bool is_supported_attr(bool is_bracket, Token *vendor, Token *tok);
 
@@ -987,6 +988,7 @@ static bool expand_macro(Token **rest, Token *tok, bool is_root) {
   // Built-in dynamic macro application such as __LINE__
   if (m->handler) {
     *rest = m->handler(tok);
+    (*rest)->origin = tok->origin ? tok->origin : tok;
     align_token(*rest, tok);
     return true;
   }
@@ -1289,6 +1291,17 @@ static void read_line_marker(Token **rest, Token *tok, Token *hash) {
   start->file->display_file = add_input_file(tok->str, NULL, NULL);
 }
 
+// Record the file and line that a token is reported to be at.
+static void set_display_pos(Token *tok) {
+  Token *orig = tok;
+  if (tok->origin) {
+    orig = orig->origin;
+    orig->is_root = true;
+  }
+  tok->display_file_no = orig->file->display_file->file_no;
+  tok->display_line_no = orig->line_no + orig->file->line_delta;
+}
+
 // Visit all tokens in `tok` while evaluating preprocessing
 // macros and directives.
 static Token *preprocess2(Token *tok) {
@@ -1306,13 +1319,7 @@ static Token *preprocess2(Token *tok) {
       continue;
     }
 
-    Token *orig = tok;
-    if (tok->origin) {
-      orig = orig->origin;
-      orig->is_root = true;
-    }
-    tok->display_file_no = orig->file->display_file->file_no;
-    tok->display_line_no = orig->line_no + orig->file->line_delta;
+    set_display_pos(tok);
     tok->is_root = true;
 
     cur = cur->next = tok;
@@ -1489,6 +1496,7 @@ static Token *directives(Token **cur, Token *start) {
 
   if (equal(tok, "pragma") && opt_E) {
     tok = start;
+    set_display_pos(tok);
     do {
       *cur = (**cur).next = tok;
       tok = tok->next;
-- 
2.43.0


From da6d4272a643fd6de8c193ba2808d356f0ad1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 087/123] fix: __FILE__ escapes quotes and backslashes

---
 preprocess.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 284e09a..f873ee3 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -209,6 +209,19 @@ static char *quote_string(char *str) {
   return buf;
 }
 
+// Escape characters that would end a string literal or start an escape.
+static char *escape_string(char *str) {
+  char *buf = malloc(strlen(str) * 2 + 1);
+  char *p = buf;
+  for (; *str; str++) {
+    if (*str == '"' || *str == '\\')
+      *p++ = '\\';
+    *p++ = *str;
+  }
+  *p = '\0';
+  return buf;
+}
+
 static Token *new_str_token(char *str, Token *tmpl) {
   char *buf = quote_string(str);
   return tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf), NULL);
@@ -1560,7 +1573,7 @@ static Token *file_macro(Token *start) {
   Token *tok = start;
   if (tok->origin)
     tok = tok->origin;
-  tok = new_str_token(tok->file->display_file->name, tok);
+  tok = new_str_token(escape_string(tok->file->display_file->name), tok);
   tok->next = start->next;
   return tok;
 }
@@ -1602,7 +1615,7 @@ static Token *timestamp_macro(Token *start) {
 }
 
 static Token *base_file_macro(Token *start) {
-  Token *tok = new_str_token(base_file, start);
+  Token *tok = new_str_token(escape_string(base_file), start);
   tok->next = start->next;
   return tok;
 }
-- 
2.43.0


From 639f4822ef399834afadb9f1e6605def3b40b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 088/123] fix: a # after a macro that expands to nothing is not
 a directive

---
 preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index f873ee3..6b8a33b 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1043,7 +1043,8 @@ static bool expand_macro(Token **rest, Token *tok, bool is_root) {
     push_macro_lock(m, stop_tok);
     align_token(*rest, tok);
   } else {
-    (*rest)->at_bol |= tok->at_bol;
+    // A '#' behind a macro does not start a directive
+    (*rest)->at_bol |= tok->at_bol && !equal(*rest, "#");
     (*rest)->has_space |= tok->has_space;
   }
 
-- 
2.43.0


From 993fdd49f21a9e06fb2794d83b81f8b06d17cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 089/123] fix: joined lines count for line numbers

---
 slimcc.h   |  1 +
 tokenize.c | 34 +++++++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/slimcc.h b/slimcc.h
index 5161e3d..1beb507 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -159,6 +159,7 @@ struct File {
   int file_no;
   int incl_no;
   char *contents;
+  char **splices; // Places in contents where lines were joined
 
   // For #line directive
   File *display_file;
diff --git a/tokenize.c b/tokenize.c
index 5478415..9609554 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -82,6 +82,8 @@ void error_at(char *loc, char *fmt, ...) {
   for (char *p = current_file->contents; p < loc; p++)
     if (*p == '\n')
       line_no++;
+  for (char **sp = current_file->splices; sp && *sp && *sp <= loc; sp++)
+    line_no++;
 
   va_list ap;
   va_start(ap, fmt);
@@ -635,9 +637,12 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
 // Initialize line info for all tokens.
 static void add_line_numbers(Token *tok) {
   char *p = current_file->contents;
+  char **sp = current_file->splices;
   int n = 1;
 
   do {
+    for (; sp && *sp == p; sp++)
+      n++;
     if (p == tok->loc) {
       tok->line_no = n;
       tok = tok->next;
@@ -893,9 +898,11 @@ static void canonicalize_newline(char *p) {
   }
 }
 
-// Removes backslashes followed by a newline.
-static void remove_backslash_newline(char *p) {
+// Removes backslashes followed by a newline. Returns a NULL-terminated
+// list of where that was done, as those newlines count for line numbers.
+static char **remove_backslash_newline(char *p) {
   char *first = strchr(p, '\\');
+  char **splices = NULL;
   if (first) {
     char *q = p = first;
     int n = 0;
@@ -903,18 +910,17 @@ static void remove_backslash_newline(char *p) {
     while (*p) {
       if (*p == '\\' && p[1] == '\n') {
         p += 2;
-        n++;
+        splices = realloc(splices, sizeof(char *) * (n + 2));
+        splices[n++] = q;
+        splices[n] = NULL;
         continue;
       }
-      if (*p == '\n') {
-        for (; n > 0; n--)
-          *q++ = '\n';
-      }
       *q++ = *p++;
     }
 
     *q = '\0';
   }
+  return splices;
 }
 
 static uint32_t read_universal_char(char *p, int len) {
@@ -928,10 +934,13 @@ static uint32_t read_universal_char(char *p, int len) {
 }
 
 // Replace \u or \U escape sequences with corresponding UTF-8 bytes.
-static void convert_universal_chars(char *p) {
+static void convert_universal_chars(char *p, char **splices) {
   char *q = p;
 
   while (*p) {
+    for (; splices && *splices && *splices <= p; splices++)
+      *splices = q;
+
     if (startswith2(p, '\\', 'u')) {
       uint32_t c = read_universal_char(p + 2, 4);
       if (c) {
@@ -1000,10 +1009,13 @@ Token *tokenize_file(char *path, Token **end, int *incl_no) {
     p += 3;
 
   canonicalize_newline(p);
-  remove_backslash_newline(p);
+  char **splices = remove_backslash_newline(p);
 
   if (opt_enable_universal_char)
-    convert_universal_chars(p);
+    convert_universal_chars(p, splices);
 
-  return tokenize(add_input_file(path, p, incl_no), end);
+  File *file = add_input_file(path, p, incl_no);
+  if (file->contents == p)
+    file->splices = splices;
+  return tokenize(file, end);
 }
-- 
2.43.0


From e9fde745d3722af0b2b3994817d490fdbecdc75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 090/123] fix: function prologues and same-line functions have
 their line in the line table; file names are quoted

---
 codegen.c    | 18 ++++++++++++------
 parse.c      |  1 +
 preprocess.c |  2 +-
 slimcc.h     |  1 +
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index a65d072..21e132d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -86,6 +86,8 @@ static char *tmpreg32[] = {"%edi", "%esi", "%r8d", "%r9d", "%r10d", "%r11d"};
 static char *tmpreg64[] = {"%rdi", "%rsi", "%r8", "%r9", "%r10", "%r11"};
 
 static Obj *current_fn;
+static int loc_file_no;
+static int loc_line_no;
 static char *lvar_ptr;
 static int va_gp_start;
 static int va_fp_start;
@@ -1536,15 +1538,13 @@ static void gen_defr(Node *node) {
 }
 
 static void print_loc(Token *tok) {
-  static int file_no, line_no;
-
-  if (file_no == tok->display_file_no && line_no == tok->display_line_no)
+  if (loc_file_no == tok->display_file_no && loc_line_no == tok->display_line_no)
     return;
 
   Printftn(".loc %d %d", tok->display_file_no, tok->display_line_no);
 
-  file_no = tok->display_file_no;
-  line_no = tok->display_line_no;
+  loc_file_no = tok->display_file_no;
+  loc_line_no = tok->display_line_no;
 }
 
 static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
@@ -4239,6 +4239,12 @@ void emit_text(Obj *fn) {
   current_fn = fn;
   rtn_label = count();
 
+  // Functions are not output in the order they are generated in
+  if (opt_g) {
+    loc_file_no = 0;
+    print_loc(fn->body->tok);
+  }
+
   // Prologue
   Printstn("push %%rbp");
   Printstn("mov %%rsp, %%rbp");
@@ -4426,7 +4432,7 @@ int codegen(Obj *prog, FILE *out) {
   if (opt_g) {
     File **files = get_input_files();
     for (int i = 0; files[i]; i++)
-      Printftn(".file %d \"%s\"", files[i]->file_no, files[i]->name);
+      Printftn(".file %d \"%s\"", files[i]->file_no, escape_string(files[i]->name));
   }
 
   for (Obj *var = prog; var; var = var->next) {
diff --git a/parse.c b/parse.c
index 765df35..60ed49f 100644
--- a/parse.c
+++ b/parse.c
@@ -4788,6 +4788,7 @@ static void func_definition(Token **rest, Token *tok, Obj *fn, Type *ty) {
   }
 
   fn->body = compound_stmt(rest, tok->next, ND_BLOCK);
+  fn->body->tok = tok;
 
   if (ty->pre_calc) {
     Node *calc = new_unary(ND_EXPR_STMT, ty->pre_calc, tok);
diff --git a/preprocess.c b/preprocess.c
index 6b8a33b..a676ce8 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -210,7 +210,7 @@ static char *quote_string(char *str) {
 }
 
 // Escape characters that would end a string literal or start an escape.
-static char *escape_string(char *str) {
+char *escape_string(char *str) {
   char *buf = malloc(strlen(str) * 2 + 1);
   char *p = buf;
   for (; *str; str++) {
diff --git a/slimcc.h b/slimcc.h
index 1beb507..0700a43 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -231,6 +231,7 @@ void define_macro(char *name, char *buf);
 void define_macro_cli(char *str);
 void undef_macro(char *name);
 Token *preprocess(Token *tok, char *input_file);
+char *escape_string(char *str);
 extern Token *last_alloc_tok;
 extern Token *tok_freelist;
 
-- 
2.43.0


From 0d34467680607003bd616ca983c1c8621360bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 091/123] fix: a #line ends with the inclusion it is in

---
 tokenize.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 9609554..7a46d41 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -1014,8 +1014,13 @@ Token *tokenize_file(char *path, Token **end, int *incl_no) {
   if (opt_enable_universal_char)
     convert_universal_chars(p, splices);
 
-  File *file = add_input_file(path, p, incl_no);
-  if (file->contents == p)
-    file->splices = splices;
+  // A #line holds for the inclusion it is in, not for the next one
+  File *input = add_input_file(path, p, incl_no);
+  File *file = malloc(sizeof(File));
+  *file = *input;
+  file->contents = p;
+  file->splices = splices;
+  file->display_file = input;
+  file->line_delta = 0;
   return tokenize(file, end);
 }
-- 
2.43.0


From 75fac56a53d38b958abf3ee8cd6b6c5dbcd8246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 092/123] fix: errors in writing output are reported

---
 main.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/main.c b/main.c
index e317faf..5371c7c 100644
--- a/main.c
+++ b/main.c
@@ -562,6 +562,16 @@ static FILE *open_file(char *path) {
   return out;
 }
 
+static void close_file(FILE *out, char *path) {
+  bool failed = ferror(out);
+  if (out == stdout)
+    failed |= fflush(out) != 0;
+  else
+    failed |= fclose(out) != 0;
+  if (failed)
+    error("cannot write output file: %s: %s", path ? path : "-", strerror(errno));
+}
+
 static bool endswith(char *p, char *q) {
   int len1 = strlen(p);
   int len2 = strlen(q);
@@ -727,10 +737,7 @@ static void print_tokens(Token *tok, char *path) {
   }
   fprintf(out, "\n");
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 bool in_sysincl_path(char *path) {
@@ -782,10 +789,7 @@ static void print_dependencies(char *input) {
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
   }
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 static Token *must_tokenize_file(char *path, Token **end) {
@@ -855,10 +859,7 @@ static void cc1(char *input_file, char *output_file, bool is_asm_pp) {
   FILE *out = open_file(output_file);
   codegen(prog, out);
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, output_file);
 }
 
 void run_assembler_gnustyle( StringArray *args, char *input, char *output) {
-- 
2.43.0


From 799d006b0f60b4b6d6d29508f471518c1016b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 093/123] fix: a directory is not read as an empty file

---
 main.c     | 4 ++--
 tokenize.c | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 5371c7c..af36b71 100644
--- a/main.c
+++ b/main.c
@@ -900,10 +900,10 @@ char *find_dir_w_file(char *pattern) {
   return path;
 }
 
-// Returns true if a given file exists.
+// Returns true if a given file exists. Directories are no files.
 bool file_exists(char *path) {
   struct stat st;
-  return !stat(path, &st);
+  return !stat(path, &st) && !S_ISDIR(st.st_mode);
 }
 
 char *source_dir(void) {
diff --git a/tokenize.c b/tokenize.c
index 7a46d41..c32a687 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -854,8 +854,14 @@ static char *read_file(char *path) {
     fwrite(buf2, 1, n, out);
   }
 
+  int err = ferror(fp) ? errno : 0;
   if (fp != stdin)
     fclose(fp);
+  if (err) {
+    fclose(out);
+    errno = err;
+    return NULL;
+  }
 
   // Make sure that the last line is properly terminated with '\n'.
   fflush(out);
-- 
2.43.0


From 35c1fbb3ecbd31754f2e980b911fa5c62e1ce024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 094/123] fix: dependency lists name the output and quote file
 names

---
 main.c       | 10 ++++++++--
 preprocess.c |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index af36b71..5472be4 100644
--- a/main.c
+++ b/main.c
@@ -757,6 +757,8 @@ static void print_dependencies(char *input) {
   char *path;
   if (opt_MF)
     path = opt_MF;
+  else if (opt_MD && opt_o && strchr(opt_o, '/'))
+    path = format("%s/%s", dirname(strdup(opt_o)), replace_extn(opt_o, ".d"));
   else if (opt_MD)
     path = replace_extn(opt_o ? opt_o : input, ".d");
   else if (opt_o)
@@ -767,6 +769,8 @@ static void print_dependencies(char *input) {
   FILE *out = open_file(path);
   if (opt_MT)
     fprintf(out, "%s:", opt_MT);
+  else if (opt_MD && opt_o && !opt_M && !opt_E)
+    fprintf(out, "%s:", quote_makefile(opt_o));
   else
     fprintf(out, "%s:", quote_makefile(replace_extn(input, ".o")));
 
@@ -776,14 +780,16 @@ static void print_dependencies(char *input) {
     char *name = files[i]->name;
     if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
       continue;
-    fprintf(out, " \\\n  %s", name);
+    fprintf(out, " \\\n  %s", quote_makefile(name));
   }
 
   fprintf(out, "\n\n");
 
   if (opt_MP) {
-    for (int i = 1; files[i]; i++) {
+    for (int i = 0; files[i]; i++) {
       char *name = files[i]->name;
+      if (!strcmp(name, input))
+        continue;
       if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
         continue;
       fprintf(out, "%s:\n\n", quote_makefile(name));
diff --git a/preprocess.c b/preprocess.c
index a676ce8..62a129e 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1200,7 +1200,7 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
     start->next->is_incl_guard = end->is_incl_guard = true;
 
   if (tok->file->is_syshdr || in_sysincl_path(end->file->name))
-    end->file->is_syshdr = true;
+    end->file->is_syshdr = end->file->display_file->is_syshdr = true;
 
   end->next = tok;
   return start;
-- 
2.43.0


From 37965a85557412e885a62277bdf5b94da32c4997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 095/123] fix: linker arguments keep their places among the
 inputs

---
 main.c | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/main.c b/main.c
index 5472be4..9b24b28 100644
--- a/main.c
+++ b/main.c
@@ -59,7 +59,6 @@ static char *opt_MT;
 static char *opt_o;
 
 static StringArray ld_paths;
-static StringArray ld_extra_args;
 static StringArray sysincl_paths;
 static StringArray input_paths;
 static StringArray tmpfiles;
@@ -111,6 +110,11 @@ static bool comma_arg(char *arg, StringArray *arr, char *str) {
   return false;
 }
 
+static void push_ld_arg(char *arg) {
+  strarray_push(&input_paths, "-Xlinker");
+  strarray_push(&input_paths, arg);
+}
+
 void add_include_path(StringArray *arr, char *path) {
   size_t orig_len = strlen(path);
   size_t len = orig_len;
@@ -300,23 +304,30 @@ static int parse_args(int argc, char **argv) {
       continue;
     }
 
-    if (comma_arg(argv[i], &as_args, "-Wa,") ||
-      comma_arg(argv[i], &ld_extra_args, "-Wl,"))
+    if (comma_arg(argv[i], &as_args, "-Wa,"))
       continue;
 
+    // Linker arguments keep their places among the input files
+    StringArray ld_args = {0};
+    if (comma_arg(argv[i], &ld_args, "-Wl,")) {
+      for (int j = 0; j < ld_args.len; j++)
+        push_ld_arg(ld_args.data[j]);
+      continue;
+    }
+
     if (take_arg_s(argv, &i, &arg, "-l")) {
-      strarray_push(&ld_extra_args, "-l");
-      strarray_push(&ld_extra_args, arg);
+      push_ld_arg("-l");
+      push_ld_arg(arg);
       continue;
     }
 
     if (take_arg(argv, &i, &arg, "-Xlinker")) {
-      strarray_push(&ld_extra_args, arg);
+      push_ld_arg(arg);
       continue;
     }
 
     if (!strcmp(argv[i], "-s")) {
-      strarray_push(&ld_extra_args, "-s");
+      push_ld_arg("-s");
       continue;
     }
 
@@ -465,11 +476,10 @@ static int parse_args(int argc, char **argv) {
         set_true(arg, "static-pie", &opt_static_pie) ||
         set_true(arg, "static-libgcc", &opt_static_libgcc) ||
         set_true(arg, "shared", &opt_shared) ||
-        set_true(arg, "pie", &opt_pie) ||
-        set_true(arg, "nopie", &opt_nopie))
+        set_true(arg, "pie", &opt_pie))
         continue;
 
-      if (!strcmp(arg, "no-pie")) {
+      if (!strcmp(arg, "no-pie") || !strcmp(arg, "nopie")) {
         opt_pie = false;
         opt_nopie = true;
         continue;
@@ -1119,6 +1129,7 @@ int main(int argc, char **argv) {
     error("cannot specify '-o' with '-c,' '-S' or '-E' with multiple files");
 
   bool no_fork = (input_cnt == 1);
+  bool need_link = false;
   StringArray ld_args = {0};
   FileType opt_x = FILE_NONE;
 
@@ -1127,6 +1138,10 @@ int main(int argc, char **argv) {
       opt_x = parse_opt_x(input_paths.data[++i]);
       continue;
     }
+    if (!strcmp(input_paths.data[i], "-Xlinker")) {
+      strarray_push(&ld_args, input_paths.data[++i]);
+      continue;
+    }
     char *input = input_paths.data[i];
 
     char *output;
@@ -1146,6 +1161,7 @@ int main(int argc, char **argv) {
     // Handle .o or .a
     if (type == FILE_OBJ || type == FILE_AR || type == FILE_DSO) {
       strarray_push(&ld_args, input);
+      need_link = !(opt_c || opt_S || opt_E || opt_M);
       continue;
     }
 
@@ -1162,6 +1178,7 @@ int main(int argc, char **argv) {
       char *tmp = create_tmpfile();
       run_assembler(&as_args, input, tmp);
       strarray_push(&ld_args, tmp);
+      need_link = true;
       continue;
     }
 
@@ -1182,6 +1199,7 @@ int main(int argc, char **argv) {
       run_cc1(input, tmp1, no_fork, true);
       run_assembler(&as_args, tmp1, tmp2);
       strarray_push(&ld_args, tmp2);
+      need_link = true;
       continue;
     }
 
@@ -1213,14 +1231,11 @@ int main(int argc, char **argv) {
     run_cc1(input, tmp1, no_fork, false);
     run_assembler(&as_args, tmp1, tmp2);
     strarray_push(&ld_args, tmp2);
+    need_link = true;
     continue;
   }
 
-  if (ld_args.len) {
-    for (int i = 0; i < ld_extra_args.len; i++)
-      strarray_push(&ld_args, ld_extra_args.data[i]);
-
+  if (need_link)
     run_linker(&ld_paths, &ld_args, opt_o ? opt_o : "a.out");
-  }
   return 0;
 }
-- 
2.43.0


From 16fafcfa33bd2b125132385d620c439cd62aab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 096/123] fix: names of any length can be addressed

---
 codegen.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index 21e132d..bd7e0dd 100644
--- a/codegen.c
+++ b/codegen.c
@@ -236,7 +236,7 @@ static bool eval_memop(Node *node, char *ofs, char **ptr, bool let_subarray, boo
       *ptr = var->ptr;
       return true;
     }
-    if (!var->is_tls && use_rip(var)) {
+    if (!var->is_tls && use_rip(var) && strlen(asm_name(var)) < STRBUF_SZ - 16) {
       if (offset)
         snprintf(ofs, STRBUF_SZ, "%d+\"%s\"", offset, asm_name(var));
       else
@@ -4080,9 +4080,8 @@ static void emit_data(Obj *var) {
   }
 
   if (opt_femulated_tls && var->is_tls) {
-    char name_t[STRBUF_SZ], name_v[STRBUF_SZ];
-    snprintf(name_t, STRBUF_SZ, "__emutls_t.%s", asm_name(var));
-    snprintf(name_v, STRBUF_SZ, "__emutls_v.%s", asm_name(var));
+    char *name_t = format("__emutls_t.%s", asm_name(var));
+    char *name_v = format("__emutls_v.%s", asm_name(var));
 
     Obj tmp_var = *var;
     tmp_var.is_tls = false;
-- 
2.43.0


From 16d57856974831d3c0b83197b00d8c10a97b498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 097/123] fix: tags and enumerators declared in an expression
 outlive it

---
 parse.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index 60ed49f..3da5b6c 100644
--- a/parse.c
+++ b/parse.c
@@ -406,9 +406,18 @@ static void apply_cv_qualifier(Node *node, Type *ty2) {
   node->ty = add_qualifiers(node->ty, &quals);
 }
 
+// A scope made for temporaries within an expression holds no names;
+// what is declared there belongs to the enclosing one.
+static Scope *naming_scope(void) {
+  Scope *sc = scope;
+  while (sc->is_temporary)
+    sc = sc->parent;
+  return sc;
+}
+
 static VarScope *push_scope(char *name) {
   VarScope *sc = ast_arena_calloc(sizeof(VarScope));
-  hashmap_put(&scope->vars, name, sc);
+  hashmap_put(&naming_scope()->vars, name, sc);
   return sc;
 }
 
@@ -549,7 +558,7 @@ static Token *str_tok(Token **rest, Token *tok) {
 }
 
 static void push_tag_scope(Token *tok, Type *ty) {
-  hashmap_put2(&scope->tags, tok->loc, tok->len, ty);
+  hashmap_put2(&naming_scope()->tags, tok->loc, tok->len, ty);
 }
 
 static void chain_expr(Node **lhs, Node *rhs) {
@@ -1361,7 +1370,7 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   tok = skip(tok, "{");
 
   if (tag) {
-    Type *ty2 = hashmap_get2(&scope->tags, tag->loc, tag->len);
+    Type *ty2 = hashmap_get2(&naming_scope()->tags, tag->loc, tag->len);
     if (ty2) {
       if (ty2->kind == TY_STRUCT || ty2->kind == TY_UNION)
         error_tok(tag, "not an enum tag");
@@ -3957,7 +3966,7 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   if (!tag)
     return ty;
 
-  Type *ty2 = hashmap_get2(&scope->tags, tag->loc, tag->len);
+  Type *ty2 = hashmap_get2(&naming_scope()->tags, tag->loc, tag->len);
   if (ty2) {
     for (Type *t = ty2; t; t = t->decl_next) {
       t->size = ty->size;
-- 
2.43.0


From c1d8016985f082905d35b9705e300d698f0d8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 098/123] fix: a tag being declared or defined is in scope in
 its own declaration

---
 parse.c | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/parse.c b/parse.c
index 3da5b6c..04daabe 100644
--- a/parse.c
+++ b/parse.c
@@ -171,7 +171,7 @@ static Node *new_sub(Node *lhs, Node *rhs, Token *tok);
 static Node *mul(Token **rest, Token *tok);
 static Node *cast(Token **rest, Token *tok);
 static Member *get_struct_member(Type *ty, Token *tok);
-static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind);
+static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind, VarAttr *attr);
 static Type *struct_decl(Type *ty, int alt_align, Token *tok);
 static Type *union_decl(Type *ty, int alt_align);
 static Node *postfix(Node *node, Token **rest, Token *tok);
@@ -917,9 +917,9 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
         (tok->next->kind == TK_IDENT && equal(tok->next->next, "{")));
 
       if (equal(tok, "struct"))
-        ty = struct_union_decl(&tok, tok->next, TY_STRUCT);
+        ty = struct_union_decl(&tok, tok->next, TY_STRUCT, attr);
       else if (equal(tok, "union"))
-        ty = struct_union_decl(&tok, tok->next, TY_UNION);
+        ty = struct_union_decl(&tok, tok->next, TY_UNION, attr);
       else if (equal(tok, "enum"))
         ty = enum_specifier(&tok, tok->next);
       else if (equal(tok, "typeof_unqual"))
@@ -1356,7 +1356,11 @@ static Type *enum_specifier(Token **rest, Token *tok) {
 
   if (tag && !equal(tok, "{")) {
     *rest = tok;
-    Type *ty2 = find_tag(tag);
+    Type *ty2;
+    if (ty && equal(tok, ";"))
+      ty2 = hashmap_get2(&naming_scope()->tags, tag->loc, tag->len);
+    else
+      ty2 = find_tag(tag);
     if (ty2) {
       if (ty2->kind == TY_STRUCT || ty2->kind == TY_UNION)
         error_tok(tag, "not an enum tag");
@@ -3921,7 +3925,7 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
 }
 
 // struct-union-decl = attribute? ident? ("{" struct-members)?
-static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
+static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind, VarAttr *attr) {
   Type *ty = new_type(kind, -1, 1);
 
   bool_attr(tok, TK_ATTR, "packed", &ty->is_packed);
@@ -3941,7 +3945,12 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   if (tag && !equal(tok, "{")) {
     *rest = tok;
 
-    Type *ty2 = find_tag(tag);
+    // A declaration of just the tag is of a type of this scope.
+    Type *ty2;
+    if (equal(tok, ";") && !(attr && attr->is_member))
+      ty2 = hashmap_get2(&naming_scope()->tags, tag->loc, tag->len);
+    else
+      ty2 = find_tag(tag);
     if (ty2)
       return ty2;
 
@@ -3949,6 +3958,10 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
     return ty;
   }
 
+  // The members may already refer to the type.
+  if (tag && !hashmap_get2(&naming_scope()->tags, tag->loc, tag->len))
+    push_tag_scope(tag, new_type(kind, -1, 1));
+
   tok = skip(tok, "{");
 
   // Construct a struct object.
@@ -3967,20 +3980,15 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
     return ty;
 
   Type *ty2 = hashmap_get2(&naming_scope()->tags, tag->loc, tag->len);
-  if (ty2) {
-    for (Type *t = ty2; t; t = t->decl_next) {
-      t->size = ty->size;
-      t->align = MAX(t->align, ty->align);
-      t->members = ty->members;
-      t->is_flexible = ty->is_flexible;
-      t->is_packed = ty->is_packed;
-      t->origin = ty;
-    }
-    return ty2;
-  }
-
-  push_tag_scope(tag, ty);
-  return ty;
+  for (Type *t = ty2; t; t = t->decl_next) {
+    t->size = ty->size;
+    t->align = MAX(t->align, ty->align);
+    t->members = ty->members;
+    t->is_flexible = ty->is_flexible;
+    t->is_packed = ty->is_packed;
+    t->origin = ty;
+  }
+  return ty2;
 }
 
 static Type *struct_decl(Type *ty, int alt_align, Token *tok) {
-- 
2.43.0


From 4f979a0ce51642db5ee25303939a10d059223067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 099/123] fix: a typedef name in parentheses is redeclared
 where a name is required

---
 parse.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parse.c b/parse.c
index 04daabe..b43c677 100644
--- a/parse.c
+++ b/parse.c
@@ -139,7 +139,7 @@ static Type *typename(Token **rest, Token *tok);
 static Type *enum_specifier(Token **rest, Token *tok);
 static Type *typeof_specifier(Token **rest, Token *tok);
 static Type *type_suffix(Token **rest, Token *tok, Type *ty);
-static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok);
+static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok, bool may_omit);
 static Node *declaration(Token **rest, Token *tok, Type *basety, VarAttr *attr);
 static void list_initializer(Token **rest, Token *tok, Initializer *init, int i);
 static void initializer2(Token **rest, Token *tok, Initializer *init);
@@ -1067,7 +1067,7 @@ static Type *func_params_old_style(Token **rest, Token *tok, Type *fn_ty) {
     Type *basety = declspec(&tok, tok, NULL);
     do {
       Token *name = NULL;
-      Type *ty = declarator(&tok, tok, basety, &name);
+      Type *ty = declarator(&tok, tok, basety, &name, false);
       if (!name)
         error_tok(tok, "expected identifier");
 
@@ -1153,7 +1153,7 @@ static Type *func_params(Token **rest, Token *tok, Type *ty) {
 
     Type *ty2 = declspec(&tok, tok, NULL);
     Token *name = NULL;
-    ty2 = declarator(&tok, tok, ty2, &name);
+    ty2 = declarator(&tok, tok, ty2, &name, true);
 
     chain_expr(&expr, compute_vla_size(ty2, tok));
 
@@ -1295,15 +1295,16 @@ Token *skip_paren(Token *tok) {
   return tok->next;
 }
 
-static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok) {
+static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok, bool may_omit) {
   ty = pointers(&tok, tok, ty);
 
   if (consume(&tok, tok, "(")) {
-    if (is_typename(tok) || equal(tok, ")"))
+    // Where a name is required, a typedef name in parentheses is redeclared.
+    if ((may_omit && is_typename(tok)) || equal(tok, ")"))
       return func_params(rest, tok, ty);
 
     ty = type_suffix(rest, skip_paren(tok), ty);
-    return declarator(&(Token *){NULL}, tok, ty, name_tok);
+    return declarator(&(Token *){NULL}, tok, ty, name_tok, may_omit);
   }
 
   if (name_tok && tok->kind == TK_IDENT) {
@@ -1314,7 +1315,7 @@ static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok) {
 }
 
 static Type *declarator2(Token **rest, Token *tok, Type *basety, Token **name, int *align) {
-  Type *ty = declarator(&tok, tok, basety, name);
+  Type *ty = declarator(&tok, tok, basety, name, false);
 
   if (*name) {
     attr_aligned(*name, align, TK_ATTR);
@@ -1328,7 +1329,7 @@ static Type *declarator2(Token **rest, Token *tok, Type *basety, Token **name, i
 // type-name = declspec abstract-declarator
 static Type *typename(Token **rest, Token *tok) {
   Type *ty = declspec(&tok, tok, NULL);
-  return declarator(rest, tok, ty, NULL);
+  return declarator(rest, tok, ty, NULL, true);
 }
 
 static void update_enum_ty(Type *decl_ty, Type *ty, bool is_unspec) {
@@ -3867,7 +3868,7 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
     for (; comma_list(&tok, &tok, ";", !first); first = false) {
       Member *mem = ast_arena_calloc(sizeof(Member));
       mem->alt_align = attr.align;
-      mem->ty = declarator(&tok, tok, basety, &mem->name);
+      mem->ty = declarator(&tok, tok, basety, &mem->name, false);
       if (mem->name) {
         if (mem->name != attr.record_end) {
           attr_aligned(mem->name, &mem->alt_align, TK_ATTR);
-- 
2.43.0


From 8547696001298b9fc8a9a8a1bae9e3c5d6c80fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 100/123] fix: embed parameters may be spelled __name__;
 repeated ones and negative limits are diagnosed

---
 preprocess.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 62a129e..12c1f55 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1206,28 +1206,33 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
   return start;
 }
 
+// Read an embed parameter `name(...)`, also spelled `__name__(...)`.
+static bool embed_param(Token **seq, Token **tok, char *name) {
+  if (!equal(*tok, name) && !equal(*tok, format("__%s__", name)))
+    return false;
+  if (*seq)
+    error_tok(*tok, "duplicated embed parameter");
+  *tok = skip_paren(*seq = skip((*tok)->next, "("));
+  return true;
+}
+
 static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
   Token *limit_seq = NULL;
   Token *if_empty_seq = NULL;
   Token *prefix_seq = NULL;
   Token *suffix_seq = NULL;
 
-  for (;;) {
-    if (equal(tok, "limit"))
-      tok = skip_paren(limit_seq = skip(tok->next, "("));
-    else if (equal(tok, "if_empty"))
-      tok = skip_paren(if_empty_seq = skip(tok->next, "("));
-    else if (equal(tok, "prefix"))
-      tok = skip_paren(prefix_seq = skip(tok->next, "("));
-    else if (equal(tok, "suffix"))
-      tok = skip_paren(suffix_seq = skip(tok->next, "("));
-    else
-      break;
-  }
+  while (embed_param(&limit_seq, &tok, "limit") ||
+    embed_param(&if_empty_seq, &tok, "if_empty") ||
+    embed_param(&prefix_seq, &tok, "prefix") ||
+    embed_param(&suffix_seq, &tok, "suffix"));
+
   Token *dummy;
   int64_t limit = 0;
   if (limit_seq)
     limit = eval_const_expr(split_paren2(&dummy, limit_seq, NULL));
+  if (limit < 0)
+    error_tok(limit_seq, "negative limit");
 
   if (!cont) {
     enum {
-- 
2.43.0


From 95041aa39f95942aa86bd6c7d51faa1c492f7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 101/123] fix: embedded files are dependencies

---
 preprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocess.c b/preprocess.c
index 12c1f55..a333648 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1260,6 +1260,9 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
   if (!path || !(fp = fopen(path, "r")))
     error_tok(start, "%s: cannot open file: %s", path, strerror(errno));
 
+  // It is a dependency
+  add_input_file(path, NULL, NULL)->is_input = true;
+
   Token head = {0};
   Token *cur = &head;
   for (; !limit_seq || limit > 0; limit--) {
-- 
2.43.0


From 3670a864f96444cd8c6fde29e404f7da98f5a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 102/123] fix: ATOMIC_FLAG_INIT is an initialiser, fences are
 expressions and atomic typedefs match their types

---
 include/stdatomic.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/stdatomic.h b/include/stdatomic.h
index a9324ec..ab5fc56 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -21,11 +21,12 @@ typedef enum {
   memory_order_seq_cst,
 } memory_order;
 
-#define ATOMIC_FLAG_INIT(x) (x)
+#define ATOMIC_FLAG_INIT 0
+#define ATOMIC_VAR_INIT(val) (val)
 #define atomic_init(addr, val) (*(addr) = (val))
 #define kill_dependency(x) (x)
-#define atomic_thread_fence(order)
-#define atomic_signal_fence(order)
+#define atomic_thread_fence(order) ((void)(order))
+#define atomic_signal_fence(order) ((void)(order))
 #define atomic_is_lock_free(x) 1
 
 #define atomic_load(addr) (*(addr))
@@ -81,7 +82,7 @@ typedef _Atomic long long atomic_llong;
 typedef _Atomic unsigned long long atomic_ullong;
 typedef _Atomic unsigned short atomic_char16_t;
 typedef _Atomic unsigned atomic_char32_t;
-typedef _Atomic unsigned atomic_wchar_t;
+typedef _Atomic int atomic_wchar_t;
 typedef _Atomic signed char atomic_int_least8_t;
 typedef _Atomic unsigned char atomic_uint_least8_t;
 typedef _Atomic short atomic_int_least16_t;
@@ -92,10 +93,10 @@ typedef _Atomic long atomic_int_least64_t;
 typedef _Atomic unsigned long atomic_uint_least64_t;
 typedef _Atomic signed char atomic_int_fast8_t;
 typedef _Atomic unsigned char atomic_uint_fast8_t;
-typedef _Atomic short atomic_int_fast16_t;
-typedef _Atomic unsigned short atomic_uint_fast16_t;
-typedef _Atomic int atomic_int_fast32_t;
-typedef _Atomic unsigned int atomic_uint_fast32_t;
+typedef _Atomic long atomic_int_fast16_t;
+typedef _Atomic unsigned long atomic_uint_fast16_t;
+typedef _Atomic long atomic_int_fast32_t;
+typedef _Atomic unsigned long atomic_uint_fast32_t;
 typedef _Atomic long atomic_int_fast64_t;
 typedef _Atomic unsigned long atomic_uint_fast64_t;
 typedef _Atomic long atomic_intptr_t;
-- 
2.43.0


From 9d3410e12c062e5b9629780acf6434045d098be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 103/123] fix: a compare-exchange keeps both of its pointers

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index bd7e0dd..b2ff0ea 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1970,7 +1970,7 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->cas_new);
 
     char *old = pop_inreg(tmpreg64[0]);
-    char *addr = pop_inreg(tmpreg64[1]);
+    char *addr = pop_inreg("%rcx");
 
     Type *ty = node->cas_addr->ty->base;
     char *ax = reg_ax(ty->size);
-- 
2.43.0


From 8474fa6be49313ac36ee76073e710f829383a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 104/123] fix: ++ and -- on atomic pointers do not crash the
 compiler

---
 parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index b43c677..0d37dc0 100644
--- a/parse.c
+++ b/parse.c
@@ -3335,6 +3335,9 @@ static Node *atomic_op(Node *binary, bool return_old) {
   Node head = {0};
   Node *cur = &head;
 
+  add_type(binary->lhs);
+  add_type(binary->rhs);
+
   Obj *addr = new_lvar(NULL, pointer_to(binary->lhs->ty));
   Obj *val = new_lvar(NULL, binary->rhs->ty);
   Obj *old = new_lvar(NULL, binary->lhs->ty);
@@ -4465,8 +4468,6 @@ static Node *primary(Token **rest, Token *tok) {
     else
       error_tok(start, "unsupported atomic fetch op");
 
-    add_type(binary->lhs);
-    add_type(binary->rhs);
     return atomic_op(binary, true);
   }
 
-- 
2.43.0


From deba4edf4adf1ccea6d37ba9e1bcf64d406cbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 105/123] fix: operands of atomic assignments, exchanges and
 compare-exchanges are converted to the type of the object

---
 codegen.c | 21 ++++++++++++++++-----
 parse.c   | 27 ++++++++++++++++++++-------
 type.c    | 27 ++++++++++++++++++---------
 3 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/codegen.c b/codegen.c
index b2ff0ea..28dccef 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1976,9 +1976,6 @@ static void gen_expr2(Node *node, bool is_void) {
     char *ax = reg_ax(ty->size);
     char *dx = reg_dx(ty->size);
 
-    if (!is_scalar(ty) || ty->kind == TY_LDOUBLE)
-      error_tok(node->tok, "unsupported type for atomic CAS");
-
     switch (ty->kind) {
     case TY_DOUBLE: Printftn("movq %%xmm0, %s", dx); break;
     case TY_FLOAT: Printftn("movd %%xmm0, %s", dx); break;
@@ -2000,8 +1997,22 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->rhs);
     char *reg = pop_inreg(tmpreg64[0]);
 
-    int sz = node->lhs->ty->base->size;
-    Printftn("xchg %s, (%s)", reg_ax(sz), reg);
+    Type *ty = node->lhs->ty->base;
+    switch (ty->kind) {
+    case TY_DOUBLE: Printstn("movq %%xmm0, %%rax"); break;
+    case TY_FLOAT: Printstn("movd %%xmm0, %%eax"); break;
+    }
+
+    Printftn("xchg %s, (%s)", reg_ax(ty->size), reg);
+
+    switch (ty->kind) {
+    case TY_DOUBLE: Printstn("movq %%rax, %%xmm0"); return;
+    case TY_FLOAT: Printstn("movd %%eax, %%xmm0"); return;
+    }
+    switch (ty->size) {
+    case 1: Printftn("%s", ty->is_unsigned ? i32u8 : i32i8); return;
+    case 2: Printftn("%s", ty->is_unsigned ? i32u16 : i32i16); return;
+    }
     return;
   }
   case ND_ALLOCA:
diff --git a/parse.c b/parse.c
index 0d37dc0..ded454f 100644
--- a/parse.c
+++ b/parse.c
@@ -3340,8 +3340,8 @@ static Node *atomic_op(Node *binary, bool return_old) {
 
   Obj *addr = new_lvar(NULL, pointer_to(binary->lhs->ty));
   Obj *val = new_lvar(NULL, binary->rhs->ty);
-  Obj *old = new_lvar(NULL, binary->lhs->ty);
-  Obj *new = new_lvar(NULL, binary->lhs->ty);
+  Obj *old = new_lvar(NULL, unqual(binary->lhs->ty));
+  Obj *new = new_lvar(NULL, unqual(binary->lhs->ty));
 
   cur = cur->next =
     new_unary(ND_EXPR_STMT,
@@ -3413,12 +3413,25 @@ static Node *assign(Token **rest, Token *tok) {
   // Convert A = B to (tmp = B, atomic_exchange(&A, tmp), tmp)
   if (equal(tok, "=") && node->ty->is_atomic) {
     Node *rhs = assign(rest, tok->next);
-    add_type(rhs);
-    Obj *tmp = new_lvar(NULL, rhs->ty);
+    Obj *tmp = new_lvar(NULL, unqual(node->ty));
+    Node *addr = new_unary(ND_ADDR, node, tok);
+    Node *val = new_var_node(tmp, tok);
+
+    if (node->ty->kind == TY_STRUCT || node->ty->kind == TY_UNION) {
+      Type *ty = NULL;
+      switch (node->ty->size) {
+      case 1: ty = ty_uchar; break;
+      case 2: ty = ty_ushort; break;
+      case 4: ty = ty_uint; break;
+      case 8: ty = ty_ulong; break;
+      default: error_tok(tok, "unsupported type for atomic assignment");
+      }
+      addr = new_cast(addr, pointer_to(ty));
+      val = new_unary(ND_ADDR, val, tok);
+      val = new_unary(ND_DEREF, new_cast(val, pointer_to(ty)), tok);
+    }
     Node *expr = new_binary(ND_ASSIGN, new_var_node(tmp, tok), rhs, tok);
-    chain_expr(&expr, new_binary(ND_EXCH, new_unary(ND_ADDR, node, tok),
-                                          new_var_node(tmp, tok),
-                                          tok));
+    chain_expr(&expr, new_binary(ND_EXCH, addr, val, tok));
     chain_expr(&expr, new_var_node(tmp, tok));
     return expr;
   }
diff --git a/type.c b/type.c
index 3e0b76f..bae4e9f 100644
--- a/type.c
+++ b/type.c
@@ -479,6 +479,20 @@ Node *assign_cast(Node *expr, Type *ty) {
   return expr;
 }
 
+// Check the pointer operand of an atomic operation and return the
+// type of the object it points to.
+static Type *atomic_operand(Node **ptr) {
+  if ((*ptr)->ty->kind == TY_ARRAY)
+    *ptr = new_cast(*ptr, array_to_pointer((*ptr)->ty));
+  if ((*ptr)->ty->kind != TY_PTR)
+    error_tok((*ptr)->tok, "pointer expected");
+
+  Type *ty = unqual((*ptr)->ty->base);
+  if (!is_integer(ty) && ty->kind != TY_FLOAT && ty->kind != TY_DOUBLE && ty->kind != TY_PTR)
+    error_tok((*ptr)->tok, "unsupported type for atomic operation");
+  return ty;
+}
+
 void add_type(Node *node) {
   if (!node || node->ty)
     return;
@@ -627,18 +641,13 @@ void add_type(Node *node) {
   case ND_CAS:
     add_type(node->cas_addr);
     add_type(node->cas_old);
-    add_type(node->cas_new);
+    atomic_operand(&node->cas_old);
+    node->cas_new = new_cast(node->cas_new, atomic_operand(&node->cas_addr));
     node->ty = ty_bool;
-
-    if (node->cas_addr->ty->kind != TY_PTR)
-      error_tok(node->cas_addr->tok, "pointer expected");
-    if (node->cas_old->ty->kind != TY_PTR)
-      error_tok(node->cas_old->tok, "pointer expected");
     return;
   case ND_EXCH:
-    if (node->lhs->ty->kind != TY_PTR)
-      error_tok(node->cas_addr->tok, "pointer expected");
-    node->ty = node->lhs->ty->base;
+    node->ty = atomic_operand(&node->lhs);
+    node->rhs = new_cast(node->rhs, node->ty);
     return;
   case ND_VA_START:
   case ND_VA_COPY:
-- 
2.43.0


From b8043e2305293cc90b061cc7886c5a878059fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 106/123] fix: inline functions that are declared external are
 defined for other files

---
 codegen.c |  8 ++++----
 parse.c   | 14 ++++++++++++--
 slimcc.h  |  2 ++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/codegen.c b/codegen.c
index 28dccef..50a82a9 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4063,7 +4063,7 @@ static int assign_lvar_offsets(Scope *sc, int bottom) {
 }
 
 static void emit_symbol(Obj *var) {
-  if (var->is_static)
+  if (var->is_static || (var->ty->kind == TY_FUNC && is_local_inline(var)))
     Printftn(".local \"%s\"", asm_name(var));
   else if (var->is_weak)
     Printftn(".weak \"%s\"", asm_name(var));
@@ -4230,8 +4230,6 @@ void emit_text(Obj *fn) {
   for (Obj *var = fn->static_lvars; var; var = var->next)
     emit_data(var);
 
-  emit_symbol(fn);
-
   if (opt_func_sections)
     Printftn(".section .text.\"%s\",\"ax\",@progbits", asm_name(fn));
   else
@@ -4456,8 +4454,10 @@ int codegen(Obj *prog, FILE *out) {
       continue;
     }
     if (var->ty->kind == TY_FUNC) {
-      if (var->is_live)
+      if (var->is_live) {
+        emit_symbol(var);
         fwrite(((FuncObj *)var->output)->buf, 1, ((FuncObj *)var->output)->buflen, out);
+      }
       continue;
     }
     emit_data(var);
diff --git a/parse.c b/parse.c
index ded454f..8e8e34a 100644
--- a/parse.c
+++ b/parse.c
@@ -740,6 +740,8 @@ static void func_attr(Obj *fn, VarAttr *attr, Token *name, Token *tok) {
     bool is_gnu_inline = attr->is_gnu_inline;
     DeclAttr(bool_attr, "gnu_inline", &is_gnu_inline);
     fn->only_inline = is_gnu_inline && attr->is_inline && attr->is_extern;
+    if (is_gnu_inline && attr->is_inline)
+      fn->is_external = true;
   }
 }
 
@@ -4737,6 +4739,12 @@ static Obj *find_func(char *name) {
   return NULL;
 }
 
+// An inline function that no declaration makes external is a copy
+// for this translation unit.
+bool is_local_inline(Obj *fn) {
+  return fn->is_inline && (fn->is_static || !fn->is_external);
+}
+
 static void mark_fn_live(Obj *var) {
   if (var->is_live)
     return;
@@ -4778,7 +4786,7 @@ static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
   if (!fn) {
     fn = new_gvar(name_str, ty);
 
-    if (attr->is_static || (attr->is_inline && !attr->is_extern))
+    if (attr->is_static)
       fn->is_static = true;
 
     if (strstr(name_str, "setjmp") || strstr(name_str, "savectx") ||
@@ -4796,6 +4804,8 @@ static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
       fn->ty = ty;
   }
   fn->is_inline |= attr->is_inline;
+  if (!scope->parent && (!attr->is_inline || attr->is_extern))
+    fn->is_external = true;
   return fn;
 }
 
@@ -4996,7 +5006,7 @@ Obj *parse(Token *tok) {
 
   for (Obj *var = globals; var; var = var->next)
     if (var->is_definition && var->ty->kind == TY_FUNC &&
-      (var->is_referenced || !(var->is_static && var->is_inline)))
+      (var->is_referenced || !is_local_inline(var)))
       mark_fn_live(var);
 
   cur->next = globals;
diff --git a/slimcc.h b/slimcc.h
index 0700a43..3f62e80 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -282,6 +282,7 @@ struct Obj {
 
   // Function
   bool is_inline;
+  bool is_external; // declared at file scope without `inline` or with `extern`
   bool only_inline;
   bool returns_twice;
   bool dont_reuse_stk;
@@ -517,6 +518,7 @@ struct Scope {
 Node *new_cast(Node *expr, Type *ty);
 int64_t const_expr(Token **rest, Token *tok);
 Obj *parse(Token *tok);
+bool is_local_inline(Obj *fn);
 Token *skip_paren(Token *tok);
 Obj *new_lvar(char *name, Type *ty);
 bool is_const_var(Obj *var);
-- 
2.43.0


From b6f6f64d6e9665837671f81b17b7d7d37886aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 107/123] fix: the section attribute applies to functions

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 50a82a9..e33886c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4230,7 +4230,9 @@ void emit_text(Obj *fn) {
   for (Obj *var = fn->static_lvars; var; var = var->next)
     emit_data(var);
 
-  if (opt_func_sections)
+  if (fn->section_name)
+    Printftn(".section \"%s\",\"ax\",@progbits", fn->section_name);
+  else if (opt_func_sections)
     Printftn(".section .text.\"%s\",\"ax\",@progbits", asm_name(fn));
   else
     Printstn(".text");
-- 
2.43.0


From 4add89ea0c1cccfbb867bf97e8cfde307f8fa211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 108/123] fix: section names of -ffunction-sections and
 -fdata-sections hold no quotes

---
 codegen.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/codegen.c b/codegen.c
index e33886c..713bef5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4125,25 +4125,25 @@ static void emit_data(Obj *var) {
   bool use_rodata = is_const_var(var) && !((opt_fpic || opt_fpie) && var->rel);
 
   if (var->section_name)
-    Printfts(".section \"%s\"", var->section_name);
+    Printfts(".section \"%s", var->section_name);
   else if (var->is_tls)
-    Printfts(".section .%s", var->init_data ? "tdata" : "tbss");
+    Printfts(".section \".%s", var->init_data ? "tdata" : "tbss");
   else if (use_rodata)
-    Printsts(".section .rodata");
+    Printsts(".section \".rodata");
   else if ((opt_fpic || opt_fpie) && var->rel)
-    Printfts(".section .data.rel%s%s", (is_const_var(var) ? ".ro" : ""), (opt_fpie ? ".local" : ""));
+    Printfts(".section \".data.rel%s%s", (is_const_var(var) ? ".ro" : ""), (opt_fpie ? ".local" : ""));
   else
-    Printfts(".section .%s", var->init_data ? "data" : "bss");
+    Printfts(".section \".%s", var->init_data ? "data" : "bss");
 
   if (opt_data_sections && !var->section_name)
-    Printf(".\"%s\"", asm_name(var));
+    Printf(".%s", asm_name(var));
 
   if (var->is_tls)
-    Prints(",\"awT\"");
+    Prints("\",\"awT\"");
   else if (use_rodata)
-    Prints(",\"a\"");
+    Prints("\",\"a\"");
   else
-    Prints(",\"aw\"");
+    Prints("\",\"aw\"");
 
   if (!var->init_data && !use_rodata)
     Printssn(",@nobits");
@@ -4233,7 +4233,7 @@ void emit_text(Obj *fn) {
   if (fn->section_name)
     Printftn(".section \"%s\",\"ax\",@progbits", fn->section_name);
   else if (opt_func_sections)
-    Printftn(".section .text.\"%s\",\"ax\",@progbits", asm_name(fn));
+    Printftn(".section \".text.%s\",\"ax\",@progbits", asm_name(fn));
   else
     Printstn(".text");
   Printftn(".type \"%s\", @function", asm_name(fn));
-- 
2.43.0


From fdcf82e210c3281441849f56b957a21b139832d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 109/123] fix: objects in named sections have contents; aliases
 use assembler names

---
 codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 713bef5..8fa4414 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4071,7 +4071,7 @@ static void emit_symbol(Obj *var) {
     Printftn(".globl \"%s\"", asm_name(var));
 
   if (var->alias_name)
-    Printftn(".set \"%s\", \"%s\"", var->name, var->alias_name);
+    Printftn(".set \"%s\", \"%s\"", asm_name(var), var->alias_name);
 
   char *vis_mode = var->visibility ? var->visibility : opt_visibility;
   if (vis_mode && (!strcmp(vis_mode, "hidden") ||
@@ -4145,7 +4145,9 @@ static void emit_data(Obj *var) {
   else
     Prints("\",\"aw\"");
 
-  if (!var->init_data && !use_rodata)
+  // All objects of a named section have to agree on its type
+  if (!var->init_data && !use_rodata &&
+    (!var->section_name || !strncmp(var->section_name, ".bss", 4)))
     Printssn(",@nobits");
   else
     Printssn(",@progbits");
-- 
2.43.0


From 9edbe40292682b3f17319651168dac8fedc475f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 110/123] fix: initialisers refer to functions by their
 assembler names

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 8e8e34a..48032f7 100644
--- a/parse.c
+++ b/parse.c
@@ -3185,7 +3185,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
 
       if (var) {
         ctx->var = var;
-        ctx->label = &var->name;
+        ctx->label = var->asm_name ? &var->asm_name : &var->name;
         return ofs;
       }
     }
-- 
2.43.0


From caf41f568de2429b61bd5684c9b664befc16d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 111/123] fix: asm goto restores registers and leaves scopes on
 its way to a label

---
 codegen.c | 51 ++++++++++++++++++++++++++++++++++++---------------
 parse.c   |  1 +
 slimcc.h  |  2 +-
 3 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index 8fa4414..cb42875 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3205,7 +3205,7 @@ static void asm_fill_ops2(Node *node) {
       asm_ops_push(ap);
 
   for (AsmParam *ap = node->asm_labels; ap; ap = ap->next)
-    ap->label_id = asm_ops_push(ap);
+    asm_ops_push(ap);
 }
 
 static bool is_gp_reg(Reg reg) {
@@ -3515,7 +3515,7 @@ void prepare_inline_asm(Node *node) {
   if (asm_use.in[REG_BX] || asm_use.out[REG_BX])
     node->alt_frame_ptr2 = acquire_gp(asm_use.in, asm_use.out, node->tok);
 
-  if (node->asm_outputs) {
+  if (node->asm_outputs || node->asm_labels) {
     if (node->alt_frame_ptr && !asm_use.out[REG_BP])
       node->output_tmp_gp = REG_BP;
     else if (node->alt_frame_ptr2 && !asm_use.out[REG_BX])
@@ -3838,8 +3838,8 @@ static void asm_body(Node *node) {
       if (!ap->arg->unique_label)
         error_tok(ap->arg->tok, "not a label");
 
-      if (node->asm_outputs)
-        Printf("%df", ap->label_id);
+      if (ap->label_id)
+        Printf(".L.asm.%"PRIi64, ap->label_id);
       else
         Printf("%s", local_label(ap->arg->unique_label));
       continue;
@@ -3981,20 +3981,35 @@ static void gen_asm(Node *node) {
   asm_gp_inputs();
 
   asm_fill_ops2(node);
+
+  // Jumps have to store outputs, restore registers and leave scopes on their way
+  bool is_indirect_goto = node->asm_labels && (node->asm_outputs || x87_depth ||
+    node->clobber_mask || node->alt_frame_ptr || node->alt_frame_ptr2);
+  for (AsmParam *ap = node->asm_labels; ap; ap = ap->next)
+    is_indirect_goto |= has_defr(ap->arg);
+  for (AsmParam *ap = node->asm_labels; ap; ap = ap->next)
+    ap->label_id = is_indirect_goto ? count() : 0;
+
   asm_body(node);
 
-  int fallthrough_label = asm_ops.cnt;
-  int meet_label = asm_ops.cnt + 1;
-  bool is_goto_with_output = node->asm_outputs && node->asm_labels;
-  if (is_goto_with_output) {
+  int64_t end_label = 0;
+  if (is_indirect_goto) {
     char *tmp_gp = regs[node->output_tmp_gp][3];
-    Printftn("lea %df(%%rip), %s; jmp %df", fallthrough_label, tmp_gp, meet_label);
+    int64_t meet_label = count();
+    end_label = count();
+    Printftn("lea .L.asm.%"PRIi64"(%%rip), %s", end_label, tmp_gp);
+    Printftn("jmp .L.asm.%"PRIi64, meet_label);
     for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
-      Printftn("%d:", ap->label_id);
-      Printftn("lea %s(%%rip), %s", local_label(ap->arg->unique_label), tmp_gp);
-      Printftn("jmp %df", meet_label);
+      Printfsn(".L.asm.%"PRIi64":", ap->label_id);
+      if (has_defr(ap->arg)) {
+        ap->label_id = count();
+        Printftn("lea .L.asm.%"PRIi64"(%%rip), %s", ap->label_id, tmp_gp);
+      } else {
+        Printftn("lea %s(%%rip), %s", local_label(ap->arg->unique_label), tmp_gp);
+      }
+      Printftn("jmp .L.asm.%"PRIi64, meet_label);
     }
-    Printftn("%d:", meet_label);
+    Printfsn(".L.asm.%"PRIi64":", meet_label);
     Printftn("push %s", tmp_gp);
   }
 
@@ -4005,10 +4020,16 @@ static void gen_asm(Node *node) {
   asm_pop_frame_ptr(node, prev_lvar_ptr);
   asm_pop_clobbers(node);
 
-  if (is_goto_with_output) {
+  if (is_indirect_goto) {
     Printstn("pop %%rax");
     Printstn("jmp *%%rax");
-    Printftn("%d:", fallthrough_label);
+    for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
+      if (has_defr(ap->arg)) {
+        Printfsn(".L.asm.%"PRIi64":", ap->label_id);
+        gen_stmt(ap->arg);
+      }
+    }
+    Printfsn(".L.asm.%"PRIi64":", end_label);
   }
 }
 
diff --git a/parse.c b/parse.c
index 48032f7..646b04d 100644
--- a/parse.c
+++ b/parse.c
@@ -2378,6 +2378,7 @@ static AsmParam *asm_labels(Token **rest, Token *tok) {
     Node *node = new_node(ND_GOTO, tok);
     node->labels = ident_tok(&tok, tok);
     node->goto_next = gotos;
+    node->defr_start = current_defr;
     gotos = node;
 
     cur = cur->next = arena_calloc(&ast_arena, sizeof(AsmParam));
diff --git a/slimcc.h b/slimcc.h
index 3f62e80..e94f0a9 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -347,7 +347,7 @@ struct AsmParam {
   Obj *ptr;
   Obj *var;
   int64_t val;
-  int label_id;
+  int64_t label_id;
   int reg;
   bool is_mem;
   bool is_gp;
-- 
2.43.0


From f251d72bc073c49ec679317cddf2977268da1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 112/123] fix: bit-fields as asm operands that are read or
 receive flags, and packed ones

---
 codegen.c | 73 +++++++++++++++++++++++++++++++------------------------
 slimcc.h  |  1 +
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/codegen.c b/codegen.c
index cb42875..a1f3010 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3496,6 +3496,21 @@ static void ptr_transfrom(Node **node) {
     *node = new_cast(arg, pointer_to(arg->ty));
 }
 
+// Bit-field outputs go through a variable
+static void asm_bitfield_var(AsmParam *ap) {
+  if ((ap->kind != ASMOP_REG && ap->kind != ASMOP_FLAG) || !is_bitfield(ap->arg))
+    return;
+  Node *var = arena_calloc(&ast_arena, sizeof(Node));
+  var->kind = ND_VAR;
+  var->tok = ap->arg->tok;
+  var->var = new_lvar(NULL, ap->arg->ty);
+  add_type(var);
+
+  ap->bitfield = ap->arg;
+  ap->arg = var;
+  ap->ptr = new_lvar(NULL, pointer_to(ap->bitfield->lhs->ty));
+}
+
 void prepare_inline_asm(Node *node) {
   for (int i = 0; i < REG_END; i++)
     asm_use.in[i] = asm_use.out[i] = false;
@@ -3529,6 +3544,7 @@ void prepare_inline_asm(Node *node) {
       node->clobber_mask |= 1U << r;
 
   for (AsmParam *ap = node->asm_outputs; ap; ap = ap->next) {
+    asm_bitfield_var(ap);
     if (ap->kind == ASMOP_REG)
       ptr_transfrom(&ap->arg);
     if (has_memop(ap->arg))
@@ -3569,9 +3585,30 @@ static char *reg_sz(Reg reg, int sz) {
   internal_error();
 }
 
+static void asm_bitfield_copy(AsmParam *ap, bool is_store) {
+  Token *tok = ap->arg->tok;
+  Node ptr = {.kind = ND_VAR, .var = ap->ptr, .tok = tok};
+  Node deref = {.kind = ND_DEREF, .lhs = &ptr, .tok = tok};
+  Node member = {.kind = ND_MEMBER, .lhs = &deref, .member = ap->bitfield->member, .tok = tok};
+  if (is_store) {
+    Node assign = {.kind = ND_ASSIGN, .lhs = &member, .rhs = ap->arg, .tok = tok};
+    add_type(&assign);
+    gen_void_assign(&assign);
+  } else {
+    gen_var_assign(ap->arg->var, &member);
+  }
+}
+
 static void asm_gen_operands(void) {
   for (int i = 0; i < asm_ops.cnt; i++) {
     AsmParam *ap = asm_ops.data[i];
+    if (ap->bitfield) {
+      Node addr_node = {.kind = ND_ADDR, .lhs = ap->bitfield->lhs, .tok = ap->arg->tok};
+      gen_var_assign(ap->ptr, &addr_node);
+      if (*ap->constraint->str == '+')
+        asm_bitfield_copy(ap, false);
+      continue;
+    }
     if (ap->ptr) {
       Node addr_node = {.kind = ND_ADDR, .lhs = ap->arg, .tok = ap->arg->tok};
       gen_var_assign(ap->ptr, &addr_node);
@@ -3667,36 +3704,6 @@ static void asm_reg_output(AsmParam *ap, Reg tmpreg) {
   error_tok(ap->arg->tok, "unsupported operand size");
 }
 
-static bool asm_bitfield_out(AsmParam *ap, Reg tmpreg) {
-  if (!is_bitfield(ap->arg))
-    return false;
-
-  Member *mem = ap->arg->member;
-  char *val = regs[ap->reg][3];
-  char *tmp = regs[tmpreg][3];
-
-  Printftn("shl $%d, %s", (64 - mem->bit_width), val);
-  Printftn("shr $%d, %s", (64 - mem->bit_width - mem->bit_offset), val);
-
-  if (mem->bit_width + mem->bit_offset != 64) {
-    Printftn("movq %d(%s), %s", ap->ptr->ofs, alt_ptr(ap->ptr->ptr), tmp);
-    Printftn("mov (%s), %s", tmp, reg_sz(tmpreg, mem->ty->size));
-    Printftn("shr $%d, %s", (mem->bit_width + mem->bit_offset), tmp);
-    Printftn("shl $%d, %s", (mem->bit_width + mem->bit_offset), tmp);
-    Printftn("or %s, %s", tmp, val);
-  }
-  if (mem->bit_offset) {
-    Printftn("movq %d(%s), %s", ap->ptr->ofs, alt_ptr(ap->ptr->ptr), tmp);
-    Printftn("mov (%s), %s", tmp, reg_sz(tmpreg, mem->ty->size));
-    Printftn("shl $%d, %s", (64 - mem->bit_offset), tmp);
-    Printftn("shr $%d, %s", (64 - mem->bit_offset), tmp);
-    Printftn("or %s, %s", tmp, val);
-  }
-  Printftn("movq %d(%s), %s", ap->ptr->ofs, alt_ptr(ap->ptr->ptr), tmp);
-  Printftn("mov %s, (%s)", reg_sz(ap->reg, mem->ty->size), tmp);
-  return true;
-}
-
 static Reg get_input_reg(AsmParam *ap) {
   if (ap->kind == ASMOP_REG && *ap->constraint->str != '=')
     return ap->reg;
@@ -3769,8 +3776,6 @@ static void asm_outputs(Node *node) {
     if (ap->kind == ASMOP_REG) {
       if (is_x87_reg(ap->reg))
         continue;
-      if (asm_bitfield_out(ap, freereg))
-        continue;
       asm_reg_output(ap, freereg);
       continue;
     }
@@ -4020,6 +4025,10 @@ static void gen_asm(Node *node) {
   asm_pop_frame_ptr(node, prev_lvar_ptr);
   asm_pop_clobbers(node);
 
+  for (AsmParam *ap = node->asm_outputs; ap; ap = ap->next)
+    if (ap->bitfield)
+      asm_bitfield_copy(ap, true);
+
   if (is_indirect_goto) {
     Printstn("pop %%rax");
     Printstn("jmp *%%rax");
diff --git a/slimcc.h b/slimcc.h
index e94f0a9..7798a4b 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -344,6 +344,7 @@ struct AsmParam {
   char *flag;
   AsmParam *match;
   Node *arg;
+  Node *bitfield;
   Obj *ptr;
   Obj *var;
   int64_t val;
-- 
2.43.0


From 1ee9d4561112210040b693ceb39bf791bc7179df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 113/123] fix: asm constraints that allow both symbols and
 registers

---
 codegen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index a1f3010..0b77a1b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3323,6 +3323,11 @@ static void fixed_reg(Reg *reg, Reg spec, Token *tok) {
   *reg = spec;
 }
 
+static bool has_symbol(Node *node) {
+  char ofs[STRBUF_SZ], *ptr;
+  return is_memop_ptr(node, ofs, &ptr) && !strcmp(ptr, "%rip");
+}
+
 static void asm_constraint(AsmParam *ap, int x87_clobber) {
   for (; ap; ap = ap->next) {
     Reg reg = REG_NULL;
@@ -3385,7 +3390,7 @@ static void asm_constraint(AsmParam *ap, int x87_clobber) {
       ap->kind = ASMOP_NUM;
       continue;
     }
-    if (is_symbolic) {
+    if (is_symbolic && (has_symbol(ap->arg) || !(ap->is_gp || ap->is_mem || reg))) {
       ap->kind = ASMOP_SYMBOLIC;
       continue;
     }
@@ -3875,8 +3880,7 @@ static void asm_body(Node *node) {
           continue;
         }
         char ofs[STRBUF_SZ], *ptr;
-        if (ap->arg->kind == ND_ADDR &&
-          is_memop(ap->arg->lhs, ofs, &ptr, true) && !strcmp(ptr, "%rip")) {
+        if (is_memop_ptr(ap->arg, ofs, &ptr) && !strcmp(ptr, "%rip")) {
           Printf("%s%s", punct, ofs);
           continue;
         }
-- 
2.43.0


From 834247fe889cea85c6cab1da25e0f918fd79982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 114/123] fix: temporaries of asm operands do not overlap those
 of calls inside

---
 parse.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 646b04d..940a627 100644
--- a/parse.c
+++ b/parse.c
@@ -2713,9 +2713,8 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
   }
 
   if (equal_kw(tok, "asm") || equal(tok, "__asm") || equal(tok, "__asm__")) {
-    Node *node = asm_stmt(&tok, tok);
-
     enter_tmp_scope();
+    Node *node = asm_stmt(&tok, tok);
     prepare_inline_asm(node);
     leave_scope();
 
-- 
2.43.0


From db6d3d463b3e2c7ef20e1374beeeb9c060b40137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 115/123] fix: attribute lists may have empty elements

---
 preprocess.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index a333648..5c5e5fb 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1934,11 +1934,16 @@ static bool is_supported_attr(bool is_bracket, Token *vendor, Token *tok) {
 }
 
 static void filter_attr(Token *tok, Token **lst, bool is_bracket) {
-  bool first = true;
-  for (; tok->kind != TK_EOF; first = false) {
-    if (!first)
+  for (bool first = true;; first = false) {
+    if (!first && tok->kind != TK_EOF)
       tok = skip(tok, ",");
 
+    // Attributes between commas may be omitted
+    while (equal(tok, ","))
+      tok = tok->next;
+    if (tok->kind == TK_EOF)
+      break;
+
     Token *vendor = NULL;
     if (tok->kind == TK_IDENT && equal(tok->next, ":")) {
       vendor = tok;
-- 
2.43.0


From b2327cea58da3905b22c4a2ccf03dd7e1d20eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 116/123] fix: attributes with the prefix __gnu__ were ignored

---
 preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 5c5e5fb..1826123 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1925,7 +1925,8 @@ static bool is_supported_attr(bool is_bracket, Token *vendor, Token *tok) {
   if (tok->kind != TK_IDENT)
     error_tok(tok, "expected attribute name");
 
-  bool gnu_if_battr = !is_bracket || (vendor && equal(vendor, "gnu"));
+  bool gnu_if_battr = !is_bracket ||
+    (vendor && (equal(vendor, "gnu") || equal(vendor, "__gnu__")));
 
   if (gnu_if_battr && is_gnu_attr(tok))
     return true;
-- 
2.43.0


From d20d05b57db7846a0f0440dddfe137f47d8f9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 117/123] fix: "--std" without an argument crashed the driver

---
 main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 9b24b28..a894a89 100644
--- a/main.c
+++ b/main.c
@@ -415,8 +415,8 @@ static int parse_args(int argc, char **argv) {
       startswith(argv[i], &arg, "--std=c")) {
       set_std(strtoul(arg, NULL, 10));
       continue;
-    } else if (!strcmp(argv[i], "--std")) {
-      if (startswith(argv[++i], &arg, "c")) {
+    } else if (take_arg(argv, &i, &arg, "--std")) {
+      if (startswith(arg, &arg, "c")) {
         set_std(strtoul(arg, NULL, 10));
         continue;
       }
-- 
2.43.0


From 7da7b7855929c9ea321e6bf9a7afdb9a0ff71905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 118/123] fix: #include of a macro expanding to nothing crashed

---
 preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 1826123..43e2e9f 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1121,7 +1121,7 @@ static char *read_filename(Token **rest, Token *tok, bool *is_dquote) {
   bool is_expanded = false;
   if (tok->kind == TK_IDENT) {
     tok = expand_tok(tok);
-    for (Token *t = tok->next; t->kind != TK_EOF; t = t->next)
+    for (Token *t = tok; t->kind != TK_EOF; t = t->next)
       t->has_space = false;
     is_expanded = true;
   }
-- 
2.43.0


From dd2fe5bdbbebea2bf877beb1e5043c74a018765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:35 +0000
Subject: [PATCH 119/123] fix: #embed of a file not found passed a null pointer
 to printf

---
 preprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 43e2e9f..59a6340 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1256,8 +1256,11 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
   if (tok->kind != TK_EOF)
     error_tok(start, "unknown embed parameter");
 
-  FILE *fp;
-  if (!path || !(fp = fopen(path, "r")))
+  if (!path)
+    error_tok(start, "file not found");
+
+  FILE *fp = fopen(path, "r");
+  if (!fp)
     error_tok(start, "%s: cannot open file: %s", path, strerror(errno));
 
   // It is a dependency
-- 
2.43.0


From 121337fdad1605646c7d9f62c1869093f4f850a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:57 +0000
Subject: [PATCH 120/123] fix: an element initialised by an expression that
 starts with a string literal

---
 parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 940a627..b48ea25 100644
--- a/parse.c
+++ b/parse.c
@@ -1910,8 +1910,11 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
       }
       tok = start;
     }
-    if (is_str_tok(rest, tok, &str_tok)) {
+    Token *str_end;
+    if (is_str_tok(&str_end, tok, &str_tok) &&
+      (equal(str_end, ",") || equal(str_end, "}") || equal(str_end, ";") || equal(str_end, ")"))) {
       string_initializer(str_tok, init);
+      *rest = str_end;
       return;
     }
   }
-- 
2.43.0


From 83eac877ffe0c2b514b9be53887c4d8a188b7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 121/123] fix: a diagnostic at __STDC_VERSION__ recursed
 without end

---
 preprocess.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 59a6340..1ae807a 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1632,17 +1632,17 @@ static Token *base_file_macro(Token *start) {
   return tok;
 }
 
-static Token *stdver_macro(Token *tok) {
-  tok->kind = TK_PP_NUM;
-  tok->len = 7;
-
+static Token *stdver_macro(Token *start) {
+  char *str;
   switch (opt_std) {
-  case STD_C99: tok->loc = "199901L"; break;
-  case STD_C11: tok->loc = "201112L"; break;
-  case STD_C17: tok->loc = "201710L"; break;
-  case STD_C23: tok->loc = "202311L"; break;
-  default: tok->loc = "201710L";
+  case STD_C99: str = "199901L\n"; break;
+  case STD_C11: str = "201112L\n"; break;
+  case STD_C17: str = "201710L\n"; break;
+  case STD_C23: str = "202311L\n"; break;
+  default: str = "201710L\n";
   }
+  Token *tok = make_token(str, start);
+  tok->next = start->next;
   return tok;
 }
 
-- 
2.43.0


From b14e485b5d765cf793cbb96acfd5c415a286c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 122/123] fix: _Pragma inside a line or a macro was left in the
 program

---
 main.c       |  4 ++--
 preprocess.c | 33 ++++++++++++++++++++++++---------
 slimcc.h     |  1 +
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/main.c b/main.c
index a894a89..7efbf7d 100644
--- a/main.c
+++ b/main.c
@@ -715,13 +715,13 @@ static void print_tokens(Token *tok, char *path) {
   Token *prev = NULL;
 
   for (; tok->kind != TK_EOF; prev = tok, tok = tok->next) {
-    if (tok->at_bol) {
+    if (tok->at_bol || tok->kind == TK_PRAGMA || (prev && prev->kind == TK_PRAGMA)) {
       if (!at_bol) {
         fprintf(out, "\n");
         line_no++;
       }
       at_bol = true;
-      is_directive = equal(tok, "#");
+      is_directive = tok->at_bol && equal(tok, "#");
     }
 
     if (!opt_P && (tok->at_bol || !is_directive) &&
diff --git a/preprocess.c b/preprocess.c
index 1ae807a..ed9a6ff 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1344,6 +1344,13 @@ static Token *preprocess2(Token *tok) {
       continue;
     }
 
+    if (tok->kind == TK_PRAGMA && !opt_E) {
+      if (equal(tok, "#pragma once"))
+        hashmap_put(&pragma_once, file_id(tok->file->name), (void *)1);
+      tok = tok->next;
+      continue;
+    }
+
     set_display_pos(tok);
     tok->is_root = true;
 
@@ -1669,18 +1676,26 @@ static Token *pragma_macro(Token *start) {
       continue;
     case 2:
       tok = skip(tok, ")");
-      tok->at_bol = true;
     }
     break;
   }
-  char *buf = calloc(1, str->len + 7);
-  memcpy(buf, "#pragma ", 8);
-  memcpy(buf + 8, str->loc + 1, str->len - 2);
-
-  Token *end;
-  Token *hash = tokenize(new_file(start->file->name, start->file->file_no, buf), &end);
-  end->next = tok;
-  return hash;
+  // Destringize. The result is one opaque token, so that the pragma is
+  // kept whole wherever the operator is, macro arguments included.
+  char *end = str->loc + str->len - 1;
+  char *buf = calloc(1, str->len + 9);
+  char *q = stpcpy(buf, "#pragma ");
+  for (char *p = strchr(str->loc, '"') + 1; p < end; p++) {
+    if (p[0] == '\\' && (p[1] == '"' || p[1] == '\\'))
+      p++;
+    *q++ = *p;
+  }
+
+  Token *prag = make_token("\n", start);
+  prag->kind = TK_PRAGMA;
+  prag->loc = buf;
+  prag->len = q - buf;
+  prag->next = tok;
+  return prag;
 }
 
 static Token *has_include_macro(Token *start) {
diff --git a/slimcc.h b/slimcc.h
index 7798a4b..40d40c0 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -148,6 +148,7 @@ typedef enum {
   TK_PP_NUM,  // Preprocessing numbers
   TK_INVALID, // Invalid tokens
   TK_PMARK,   // Placermarkers
+  TK_PRAGMA,  // Pragmas made by _Pragma
   TK_ATTR,    // GNU attribute
   TK_BATTR,   // C23 attribute
   TK_EOF,     // End-of-file markers
-- 
2.43.0


From bab25acb66479fa6d8a227dab867f18e370de614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 123/123] fix: a _Pragma operator keeps its spelling as the
 operand of "#"

---
 preprocess.c | 51 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index ed9a6ff..fc116be 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -77,6 +77,7 @@ static bool expand_macro(Token **rest, Token *tok, bool is_root);
 static Token *directives(Token **cur, Token *start);
 static void set_display_pos(Token *tok);
 static Token *subst(Token *tok, MacroContext *ctx);
+static void destringize_pragma(Token *tok);
 static bool is_supported_attr(bool is_bracket, Token *vendor, Token *tok);
 
 static bool is_hash(Token *tok) {
@@ -673,7 +674,7 @@ static char *join_tokens(Token *tok, Token *end, bool add_slash) {
     if ((t->has_space || t->at_bol) && len != 1)
       len++;
 
-    if (add_slash && (t->kind == TK_STR || t->kind == TK_INT_NUM))
+    if (add_slash && (t->kind == TK_STR || t->kind == TK_INT_NUM || t->kind == TK_PRAGMA))
       for (int i = 0; i < t->len; i++)
         if (t->loc[i] == '\\' || t->loc[i] == '"')
           len++;
@@ -689,7 +690,7 @@ static char *join_tokens(Token *tok, Token *end, bool add_slash) {
     if ((t->has_space || t->at_bol) && pos != 0)
       buf[pos++] = ' ';
 
-    if (add_slash && (t->kind == TK_STR || t->kind == TK_INT_NUM)) {
+    if (add_slash && (t->kind == TK_STR || t->kind == TK_INT_NUM || t->kind == TK_PRAGMA)) {
       for (int i = 0; i < t->len; i++) {
         if (t->loc[i] == '\\' || t->loc[i] == '"')
           buf[pos++] = '\\';
@@ -1344,11 +1345,14 @@ static Token *preprocess2(Token *tok) {
       continue;
     }
 
-    if (tok->kind == TK_PRAGMA && !opt_E) {
+    if (tok->kind == TK_PRAGMA) {
+      destringize_pragma(tok);
       if (equal(tok, "#pragma once"))
         hashmap_put(&pragma_once, file_id(tok->file->name), (void *)1);
-      tok = tok->next;
-      continue;
+      if (!opt_E) {
+        tok = tok->next;
+        continue;
+      }
     }
 
     set_display_pos(tok);
@@ -1653,9 +1657,11 @@ static Token *stdver_macro(Token *start) {
   return tok;
 }
 
+// The operator becomes one opaque token that keeps its spelling, for it may
+// be the operand of a '#'; it is destringized when expansion is complete.
 static Token *pragma_macro(Token *start) {
   Token *tok = start->next;
-  Token *str;
+  Token *part[3];
   for (int progress = 0;;) {
     if (tok->kind == TK_EOF)
       error_tok(start, "unterminated _Pragma sequence");
@@ -1664,6 +1670,7 @@ static Token *pragma_macro(Token *start) {
     if (expand_macro(&tok, tok, false))
       continue;
 
+    part[progress] = tok;
     switch (progress++) {
     case 0:
       tok = skip(tok, "(");
@@ -1671,7 +1678,6 @@ static Token *pragma_macro(Token *start) {
     case 1:
       if (tok->kind != TK_STR || tok->len < 2)
         error_tok(tok, "expected string literal");
-      str = tok;
       tok = tok->next;
       continue;
     case 2:
@@ -1679,25 +1685,34 @@ static Token *pragma_macro(Token *start) {
     }
     break;
   }
-  // Destringize. The result is one opaque token, so that the pragma is
-  // kept whole wherever the operator is, macro arguments included.
-  char *end = str->loc + str->len - 1;
-  char *buf = calloc(1, str->len + 9);
-  char *q = stpcpy(buf, "#pragma ");
-  for (char *p = strchr(str->loc, '"') + 1; p < end; p++) {
-    if (p[0] == '\\' && (p[1] == '"' || p[1] == '\\'))
-      p++;
-    *q++ = *p;
-  }
+  char *buf = "_Pragma";
+  for (int i = 0; i < 3; i++)
+    buf = format("%s%s%.*s", buf, (part[i]->has_space || part[i]->at_bol) ? " " : "",
+      part[i]->len, part[i]->loc);
 
   Token *prag = make_token("\n", start);
   prag->kind = TK_PRAGMA;
   prag->loc = buf;
-  prag->len = q - buf;
+  prag->len = strlen(buf);
   prag->next = tok;
   return prag;
 }
 
+static void destringize_pragma(Token *tok) {
+  char *end = tok->loc + tok->len;
+  while (*--end != '"');
+
+  char *buf = calloc(1, tok->len + 9);
+  char *q = stpcpy(buf, "#pragma ");
+  for (char *p = strchr(tok->loc, '"') + 1; p < end; p++) {
+    if (p[0] == '\\' && (p[1] == '"' || p[1] == '\\'))
+      p++;
+    *q++ = *p;
+  }
+  tok->loc = buf;
+  tok->len = q - buf;
+}
+
 static Token *has_include_macro(Token *start) {
   Token *tok = skip(start->next, "(");
 
-- 
2.43.0

