From a6cd75238122a52df19a7412fbc35ab42152a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 001/170] fix: va_start skips the hidden return pointer and
 stack-passed struct parameters

---
 src/cc/builtin.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/cc/builtin.c b/src/cc/builtin.c
index 8be2b3e..94adb39 100644
--- a/src/cc/builtin.c
+++ b/src/cc/builtin.c
@@ -158,7 +158,8 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     return NULL;
   }
 
-  int gn = 0;
+  // The hidden pointer to a returned struct occupies the first integer register.
+  int gn = is_stack_param(curfunc->type->func.ret) ? 1 : 0;
   for (int i = 0; i < params->len; ++i) {
     VarInfo *info = params->data[i];
     const Type *t = info->type;
@@ -226,16 +227,19 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     return NULL;
   }
 
-  int gn = 0, fn = 0;
+  // The hidden pointer to a returned struct occupies the first integer register.
+  int gn = is_stack_param(curfunc->type->func.ret) ? 1 : 0, fn = 0;
+  size_t stack_offset = 0;  // Total size of named parameters passed on the stack.
   for (int i = 0; i < params->len; ++i) {
     VarInfo *info = params->data[i];
     const Type *t = info->type;
-    if (t->kind != TY_STRUCT) {
-      if (is_flonum(t))
-        ++fn;
-      else
-        ++gn;
-    }
+    size_t size = 0;
+    if (is_stack_param(t))
+      size = ALIGN(type_size(t), TARGET_POINTER_SIZE);
+    else if (is_flonum(t) ? fn++ >= MAX_FREG_ARGS : gn++ >= MAX_REG_ARGS)
+      size = TARGET_POINTER_SIZE;
+    if (size > 0)
+      stack_offset = ALIGN(stack_offset, align_size(t)) + size;
   }
 
   // ap->gp_offset = gn * TARGET_POINTER_SIZE
@@ -261,11 +265,8 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     FuncBackend *fnbe = curfunc->extra;
     FrameInfo *fi = &fnbe->vaarg_frame_info;
     VReg *p = new_ir_bofs(fi)->dst;
-    int gs = MAX(gn - MAX_REG_ARGS, 0), fs = MAX(fn - MAX_FREG_ARGS, 0);
-    if (gs > 0 || fs > 0) {
-      p = new_ir_bop(IR_ADD, p, new_const_vreg((gs + fs) * TARGET_POINTER_SIZE, vsize), vsize,
-                     IRF_UNSIGNED);
-    }
+    if (stack_offset > 0)
+      p = new_ir_bop(IR_ADD, p, new_const_vreg(stack_offset, vsize), vsize, IRF_UNSIGNED);
     new_ir_store(overflow_arg_area, p, 0);
   }
 
-- 
2.43.0


From 5aaa2b44eb207acb782650109e12972115289bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 002/170] fix: increment/decrement of a bit-field whose storage
 unit differs from its declared type, or above bit 30

---
 src/cc/frontend/fe_misc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b97f692..ecbd858 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1156,14 +1156,14 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
   Expr *val_assign, *after;
   if (post) {
     Expr *before = extract_bitfield_value(src, minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, before);
-    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, before, new_expr_fixlit(type, NULL, 1));
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, before);
+    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, vtype, tok, val, new_expr_fixlit(vtype, NULL, 1));
   } else {
     Expr *tmp = extract_bitfield_value(
         new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, src,
-                     new_expr_fixlit(type, NULL, 1 << minfo->bitfield.position)),
+                     new_expr_fixlit(type, NULL, (Fixnum)1 << minfo->bitfield.position)),
         minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, tmp);
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, tmp);
     after = val;
   }
   Expr *store = assign_bitfield_member(tok, dst, src, after, minfo);
-- 
2.43.0


From a9c26f93da49a4ccb51c9829c15dc1551070bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 003/170] fix: mask of a 64-bit wide bit-field

---
 src/cc/frontend/cc_misc.c | 3 ++-
 src/cc/frontend/fe_misc.c | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index f0be4f0..3641092 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -3,6 +3,7 @@
 
 #include <assert.h>
 #include <inttypes.h>  // PRId64
+#include <limits.h>  // CHAR_BIT
 
 #include "ast.h"
 #include "fe_misc.h"
@@ -86,7 +87,7 @@ static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initial
       continue;  // 0
     assert(mem_init->kind == IK_SINGLE && mem_init->single->kind == EX_FIXNUM);
 
-    Fixnum mask = (1LL << member->bitfield.width) - 1;
+    UFixnum mask = (UFixnum)-1 >> (sizeof(UFixnum) * CHAR_BIT - member->bitfield.width);
     x |= (mem_init->single->fixnum & mask) << member->bitfield.position;
   }
   *pi = i - 1;
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index ecbd858..9a33985 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -2,6 +2,7 @@
 #include "fe_misc.h"
 
 #include <assert.h>
+#include <limits.h>  // CHAR_BIT
 #include <stdarg.h>
 #include <stdlib.h>  // exit
 #include <string.h>
@@ -1071,7 +1072,7 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
     if (minfo->bitfield.position > 0)
       tmp = new_expr_bop(EX_RSHIFT, tmp->type, tmp->token, tmp,
                          new_expr_fixlit(tmp->type, tmp->token, minfo->bitfield.position));
-    UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+    UFixnum mask = (UFixnum)-1 >> (sizeof(UFixnum) * CHAR_BIT - minfo->bitfield.width);
     tmp = new_expr_bop(EX_BITAND, tmp->type, tmp->token, tmp,
                        new_expr_fixlit(tmp->type, tmp->token, mask));
   } else {
@@ -1093,7 +1094,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
   Type *type = dst->type;
   Type *vtype = val->type;
 
-  UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+  UFixnum mask = (UFixnum)-1 >> (sizeof(UFixnum) * CHAR_BIT - minfo->bitfield.width);
   Expr *val_masked = new_expr_bop(EX_BITAND, vtype, tok, val, new_expr_fixlit(vtype, tok, mask));
   val_masked = make_cast(type, tok, val_masked, false);
   if (minfo->bitfield.position > 0)
-- 
2.43.0


From 1f668a6c1605d7c754c0b96c8b741c415be33798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 004/170] fix: value of an assignment to a bit-field is the
 stored (truncated) value

---
 src/cc/frontend/fe_misc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 9a33985..34f777b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1108,7 +1108,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
 }
 
 Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInfo *minfo) {
-  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), val)
+  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), (*ptr >> bitpos) & mask)
 
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned, 0);
 
@@ -1117,15 +1117,16 @@ Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInf
   Expr *ptr = alloc_tmp_var(curscope, ptype);
   Expr *ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(lhs->token, lhs));
 
-  Type *vtype = rhs->type;
+  Type *vtype = minfo->type;
   Expr *val = alloc_tmp_var(curscope, vtype);
-  Expr *val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, rhs);
+  Expr *val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, make_cast(vtype, tok, rhs, false));
 
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
   Expr *assign = assign_bitfield_member(tok, dst, dst, val, minfo);
   return new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                       new_expr_bop(EX_COMMA, vtype, tok, val_assign,
-                                   new_expr_bop(EX_COMMA, vtype, tok, assign, val)));
+                                   new_expr_bop(EX_COMMA, vtype, tok, assign,
+                                                extract_bitfield_value(dst, minfo))));
 }
 
 static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, const Token *tok,
-- 
2.43.0


From 0365f421e2ed10357f62fccf39cc5a04fdab9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 005/170] fix: type of a compound assignment to a bit-field

---
 src/cc/frontend/fe_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 34f777b..2e2e2f2 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1636,10 +1636,10 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
   Expr *tmp = extract_bitfield_value(src, minfo);
-  tmp = calc_assign_with(tok, tmp, rhs);
+  tmp = make_cast(minfo->type, tok, calc_assign_with(tok, tmp, rhs), false);
   Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
 
-  Type *vtype = rhs->type;
+  Type *vtype = minfo->type;
   return new_expr_bop(EX_COMMA, vtype, tok,
                       new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                                    new_expr_bop(EX_COMMA, vtype, tok, src_assign, store)),
-- 
2.43.0


From e861612afb6c8a87e9bc7d6f24b33246ed49e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 006/170] fix: _Bool bit-fields

---
 src/cc/frontend/type.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 912887f..5c48fbe 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -52,6 +52,14 @@ void set_fixnum_size(enum FixnumKind kind, size_t size, int align) {
 }
 
 #ifndef __NO_BITFIELD
+static enum FixnumKind get_bitfield_base_kind(const Type *type) {
+  switch (type->fixnum.kind) {
+  case FX_ENUM:  return FX_INT;
+  case FX_BOOL:  return FX_CHAR;
+  default:       return type->fixnum.kind;
+  }
+}
+
 static size_t calc_bitfield_size(StructInfo *sinfo, int *pi, size_t size, size_t *palign) {
   // Detect initial fixnum kind.
   int i = *pi;
@@ -65,9 +73,7 @@ static size_t calc_bitfield_size(StructInfo *sinfo, int *pi, size_t size, size_t
     size_t align = align_size(minfo->type);
     size_t remain = size % align;
     if (remain == 0) {
-      kind = minfo->type->fixnum.kind;
-      if (kind == FX_ENUM)
-        kind = FX_INT;
+      kind = get_bitfield_base_kind(minfo->type);
     } else {
       // Detect LSB.
       ssize_t s;
@@ -166,7 +172,7 @@ static void calc_struct_size(StructInfo *sinfo) {
 #ifndef __NO_BITFIELD
       if (minfo->bitfield.width > 0) {
         minfo->bitfield.position = 0;
-        minfo->bitfield.base_kind = minfo->type->fixnum.kind;
+        minfo->bitfield.base_kind = get_bitfield_base_kind(minfo->type);
       } else
 #endif
       {
-- 
2.43.0


From b8018944d7dda4007cd5fe356eb7bd6f38549eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 007/170] fix: unnamed bit-fields take no initializer

---
 src/cc/frontend/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c2260f3..909a1ae 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -254,7 +254,7 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
             }
             MemberInfo *member = &sinfo->members[last_index];
 #ifndef __NO_BITFIELD
-            if (member->bitfield.active && member->bitfield.width == 0) {  // Initializer not assigned to zero width bitfield.
+            if (member->bitfield.active && member->name == NULL) {  // Initializer not assigned to unnamed bitfield.
               ++last_index;
               indices->data[depth - 1] = INT2VOIDP(last_index);
               continue;
-- 
2.43.0


From 199384b5f2fa95cdd5994dd9e081033b7ee66820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 008/170] fix: usual arithmetic conversions when folding a
 constant sum or difference

---
 src/cc/frontend/fe_misc.c | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 2e2e2f2..4758dde 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -926,11 +926,13 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
   assert(ltype != NULL);
   assert(rtype != NULL);
   if (is_number(ltype) && is_number(rtype)) {
+    cast_numbers(&lhs, &rhs, true);
+    type = lhs->type;
     if (is_const(lhs) && is_const(rhs)) {
 #ifndef __NO_FLONUM
-      if (is_flonum(lhs->type) || is_flonum(rhs->type)) {
-        Flonum lval = is_flonum(lhs->type) ? lhs->flonum : lhs->fixnum;
-        Flonum rval = is_flonum(rhs->type) ? rhs->flonum : rhs->fixnum;
+      if (is_flonum(type)) {
+        Flonum lval = lhs->flonum;
+        Flonum rval = rhs->flonum;
         Flonum value;
         switch (kind) {
         case EX_ADD:     value = lval + rval; break;
@@ -940,28 +942,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
           value = -1;  // Dummy
           break;
         }
-        Type *type = lhs->type;
-        if (is_flonum(rhs->type))
-          type = rhs->type;
-        if (is_flonum(type)) {
-          return new_expr_flolit(type, lhs->token, value);
-        } else {
-          Fixnum fixnum = value;
-          return new_expr_fixlit(type, lhs->token, fixnum);
-        }
+        return new_expr_flolit(type, lhs->token, value);
       }
 #endif
-      enum FixnumKind lnt = ltype->fixnum.kind;
-      enum FixnumKind rnt = rtype->fixnum.kind;
-      if (lnt >= FX_ENUM) {
-        ltype = &tyInt;
-        lnt = FX_INT;
-      }
-      if (rnt >= FX_ENUM) {
-        rtype = &tyInt;
-        rnt = FX_INT;
-      }
-
       Fixnum lval = lhs->fixnum;
       Fixnum rval = rhs->fixnum;
       Fixnum value;
@@ -973,15 +956,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
         value = -1;
         break;
       }
-      Type *type = lnt >= rnt ? ltype : rtype;
-      if (type->fixnum.kind < FX_INT)
-        type = &tyInt;
       return new_expr_fixlit(type, lhs->token,
                              wrap_value(value, type_size(type), type->fixnum.is_unsigned));
     }
-
-    cast_numbers(&lhs, &rhs, true);
-    type = lhs->type;
   } else if (ptr_or_array(ltype)) {
     if (is_fixnum(rtype->kind)) {
       type = ltype;
-- 
2.43.0


From 3d3b3d928dbdb0b89a320a59bb51f39fa01144a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 009/170] fix: floating constants are rounded to the precision
 of their type

---
 src/cc/frontend/ast.c     |  4 ++++
 src/cc/frontend/fe_misc.c | 16 +++++++---------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index d71075a..2fbece7 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -100,6 +100,10 @@ Expr *new_expr_fixlit(Type *type, const Token *token, Fixnum fixnum) {
 Expr *new_expr_flolit(Type *type, const Token *token, Flonum flonum) {
   assert(type->kind == TY_FLONUM);
   Expr *expr = new_expr(EX_FLONUM, type, token);
+  switch (type->flonum.kind) {  // Round to the precision of the type.
+  case FL_FLOAT:   flonum = (float)flonum; break;
+  case FL_DOUBLE: case FL_LDOUBLE:  flonum = (double)flonum; break;
+  }
   expr->flonum = flonum;
   return expr;
 }
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 4758dde..d2baa80 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -363,9 +363,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
           fixnum = wrap_value(sub->flonum, type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
-      assert(type->kind == TY_FLONUM);
-      sub->type = type;
-      return sub;
+      return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
         Flonum flonum = (sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned)
@@ -755,9 +753,9 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
 #ifndef __NO_FLONUM
         if (is_flonum(lhs->type)) {
           assert(is_flonum(rhs->type));
-          Flonum lval = lhs->flonum;
-          Flonum rval = rhs->flonum;
-          Flonum value;
+          double lval = lhs->flonum;
+          double rval = rhs->flonum;
+          double value;
           switch (kind) {
           case EX_MUL:     value = lval * rval; break;
           case EX_DIV:     value = lval / rval; break;
@@ -931,9 +929,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
     if (is_const(lhs) && is_const(rhs)) {
 #ifndef __NO_FLONUM
       if (is_flonum(type)) {
-        Flonum lval = lhs->flonum;
-        Flonum rval = rhs->flonum;
-        Flonum value;
+        double lval = lhs->flonum;
+        double rval = rhs->flonum;
+        double value;
         switch (kind) {
         case EX_ADD:     value = lval + rval; break;
         case EX_SUB:     value = lval - rval; break;
-- 
2.43.0


From 305a6e44f919c02e62d6b233a3fd90328876fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 010/170] fix: compound assignment to a bit-field keeps what
 its right operand did to neighbouring fields

---
 src/cc/frontend/fe_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index d2baa80..bce883d 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1612,7 +1612,7 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
 
   Expr *tmp = extract_bitfield_value(src, minfo);
   tmp = make_cast(minfo->type, tok, calc_assign_with(tok, tmp, rhs), false);
-  Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
+  Expr *store = assign_bitfield_member(tok, dst, dst, tmp, minfo);
 
   Type *vtype = minfo->type;
   return new_expr_bop(EX_COMMA, vtype, tok,
-- 
2.43.0


From 175829852b8b27accb3b359c61354d7fbcee35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 011/170] fix: usual arithmetic conversions in the conditional
 operator

---
 src/cc/frontend/fe_misc.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index bce883d..37f4dc5 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1548,22 +1548,21 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   } else if (ftype->kind == TY_PTR) {
     return choose_ternary_result_type(fval, tval);  // Make ttype to pointer, and check again.
   } else if (is_number(ttype) && is_number(ftype)) {
-    if (is_flonum(ttype)) {
-      // TODO: Choose lager one.
-      // if (is_flonum(ftype)) {
-      //   return ttype;
-      // }
-      return ttype;
-    } else if (is_flonum(ftype)) {
-      return ftype;
-    }
+    // Usual arithmetic conversions.
+    bool tflo = is_flonum(ttype), fflo = is_flonum(ftype);
+    if (tflo && fflo)
+      return ttype->flonum.kind >= ftype->flonum.kind ? ttype : ftype;
+    if (tflo || fflo)
+      return tflo ? ttype : ftype;
     assert(is_fixnum(ttype->kind));
     assert(is_fixnum(ftype->kind));
-    if (ttype->fixnum.kind >= FX_ENUM)
+    if (ttype->fixnum.kind < FX_INT || ttype->fixnum.kind >= FX_ENUM)
       ttype = &tyInt;
-    if (ftype->fixnum.kind >= FX_ENUM)
+    if (ftype->fixnum.kind < FX_INT || ftype->fixnum.kind >= FX_ENUM)
       ftype = &tyInt;
-    return ttype->fixnum.kind > ftype->fixnum.kind ? ttype : ftype;
+    int t = (type_size(ttype) << 1) | (ttype->fixnum.is_unsigned ? 1 : 0);
+    int f = (type_size(ftype) << 1) | (ftype->fixnum.is_unsigned ? 1 : 0);
+    return t > f || (t == f && ttype->fixnum.kind >= ftype->fixnum.kind) ? ttype : ftype;
   }
   return NULL;
 }
-- 
2.43.0


From 9e689b9fc8973556b0ccf9779dbfb3619fed320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:03 +0000
Subject: [PATCH 012/170] fix: conversion from floating point to unsigned
 64-bit integer above INT64_MAX, evaluated once

---
 src/cc/frontend/fe_misc.c     | 12 +++++++++++-
 src/cc/frontend/parser_expr.c |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 37f4dc5..3e0c662 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -360,7 +360,9 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         if (is_bool(type))
           fixnum = sub->flonum != 0;
         else
-          fixnum = wrap_value(sub->flonum, type_size(type), type->fixnum.is_unsigned);
+          fixnum = wrap_value(type->fixnum.is_unsigned && sub->flonum > 0
+                                  ? (Fixnum)(UFixnum)sub->flonum : (Fixnum)sub->flonum,
+                              type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       return new_expr_flolit(type, sub->token, sub->flonum);
@@ -400,6 +402,12 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     // Transform from (uint64_t)flonum
     //   to: (flonum <= INT64_MAX) ? (int64_t)flonum
     //                             : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
+    Expr *tmp_assign = NULL;
+    if (sub->kind != EX_VAR && !is_global_scope(curscope)) {  // Avoid evaluating more than once.
+      Expr *tmp = alloc_tmp_var(curscope, sub->type);
+      tmp_assign = new_expr_bop(EX_ASSIGN, sub->type, token, tmp, sub);
+      sub = tmp;
+    }
     Type *i64t = get_fixnum_type_from_size(dst_size);
     Expr *cond = new_expr_bop(EX_LE, &tyBool, token, sub,
                               new_expr_flolit(sub->type, sub->token, INT64_MAX));
@@ -409,6 +417,8 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     Expr *xorred = new_expr_bop(EX_BITXOR, i64t, token, make_cast(i64t, token, offsetted, false),
                                 new_expr_fixlit(i64t, token, (uint64_t)1 << 63));
     sub = new_expr_ternary(token, cond, make_cast(i64t, token, sub, false), xorred, i64t);
+    if (tmp_assign != NULL)
+      sub = new_expr_bop(EX_COMMA, i64t, token, tmp_assign, sub);
   }
 #endif
 
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 7e23cf1..3efacd4 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -644,7 +644,7 @@ static Expr *lparen(Token *tok) {
   // Do not reduce cast expression using `make_cast`
   // because it ignores `(int)x = 1`.
 
-  if (type->kind != TY_VOID && is_const(sub))
+  if ((type->kind != TY_VOID && is_const(sub)) || (is_flonum(sub->type) && is_fixnum(type->kind)))
     return make_cast(type, token, sub, true);
   return sub->type->kind != TY_VOID ? new_expr_cast(type, token, sub) : sub;
 }
-- 
2.43.0


From 9ebe01ee239986061d281b2052b393b711f18b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:03 +0000
Subject: [PATCH 013/170] fix: do not fold a floating product with 0.0 (sign,
 NaN and infinity)

---
 src/cc/frontend/fe_misc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 3e0c662..4fee507 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -823,8 +823,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum rval = rhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (rval == 0.0)
-              return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);  // 0.0
             if (rval == -1.0)
               return new_expr_unary(EX_NEG, lhs->type, lhs->token, lhs);  // -lhs
             // Fallthrough.
@@ -869,8 +867,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum lval = lhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (lval == 0.0)
-              return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0.0
             if (lval == 1.0)
               return rhs;  // no effect.
             if (lval == -1.0)
-- 
2.43.0


From a2d301e947a0410f87ce7131e20fe7ac5ed310e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:35 +0000
Subject: [PATCH 014/170] fix: cast of a constant-folded value to a floating
 type

---
 src/cc/backend/codegen_expr.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 3849bcd..708c4e8 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -188,20 +188,23 @@ static VReg *gen_cast(Expr *expr) {
 
   size_t dst_size = type_size(dst_type);
   if (vreg->flag & VRF_CONST) {
-    assert(!(vreg->flag & VRF_FLONUM));  // No const vreg for flonum.
-    Fixnum value = vreg->fixnum;
-    if (dst_size < (1U << vreg->vsize) && dst_size < sizeof(Fixnum)) {
-      // Assume that integer is represented in Two's complement
-      size_t bit = dst_size * TARGET_CHAR_BIT;
-      UFixnum mask = (-1UL) << bit;
-      if (!is_unsigned(dst_type) && (value & ((Fixnum)1 << (bit - 1))))    // signed && negative
-        value |= mask;
+    enum VRegSize vsize = to_vsize(dst_type);
+#ifndef __NO_FLONUM
+    if (is_flonum(dst_type)) {
+      double value;
+      if (vreg->flag & VRF_FLONUM)
+        value = dst_type->flonum.kind == FL_FLOAT ? (float)vreg->flonum.value : vreg->flonum.value;
+      else if (is_unsigned(src->type))
+        value = dst_type->flonum.kind == FL_FLOAT ? (float)(UFixnum)vreg->fixnum : (double)(UFixnum)vreg->fixnum;
       else
-        value &= ~mask;
+        value = dst_type->flonum.kind == FL_FLOAT ? (float)vreg->fixnum : (double)vreg->fixnum;
+      return new_const_vfreg(value, vsize);
+    }
+#endif
+    if (!(vreg->flag & VRF_FLONUM)) {
+      // Assume that integer is represented in Two's complement
+      return new_const_vreg(wrap_value(vreg->fixnum, dst_size, is_unsigned(dst_type)), vsize);
     }
-
-    enum VRegSize vsize = to_vsize(dst_type);
-    return new_const_vreg(value, vsize);
   }
 
   size_t src_size = 1U << vreg->vsize;
-- 
2.43.0


From 230a9e2837ee2ee890cf513fce47152fabdb57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 015/170] fix: switch promotes its value, and cases of unsigned
 or 64-bit width are ordered and compared without overflow

---
 src/cc/backend/codegen.c | 11 +++++++----
 src/cc/frontend/parser.c |  5 +++--
 src/wcc/gen_wasm.c       | 16 +++++++---------
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 5e26fe7..ab860e4 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -391,8 +391,11 @@ static int compare_cases(const void *pa, const void *pb) {
     return 1;
   if (cb->case_.value == NULL)
     return -1;
-  Fixnum d = ca->case_.value->fixnum - cb->case_.value->fixnum;
-  return d > 0 ? 1 : d < 0 ? -1 : 0;
+  Fixnum a = ca->case_.value->fixnum;
+  Fixnum b = cb->case_.value->fixnum;
+  if (is_unsigned(ca->case_.value->type))
+    return (UFixnum)a > (UFixnum)b ? 1 : (UFixnum)a < (UFixnum)b ? -1 : 0;
+  return a > b ? 1 : a < b ? -1 : 0;
 }
 
 static void gen_switch_cond_table_jump(Stmt *swtch, VReg *vreg, Stmt **cases, int len, int cond_flag) {
@@ -435,8 +438,8 @@ static void gen_switch_cond_recur(Stmt *swtch, VReg *vreg, Stmt **cases, int len
   } else {
     Stmt *min = cases[0];
     Stmt *max = cases[len - 1];
-    Fixnum range = max->case_.value->fixnum - min->case_.value->fixnum + 1;
-    if (range >= 4 && len > (range >> 1)) {
+    UFixnum range = (UFixnum)max->case_.value->fixnum - (UFixnum)min->case_.value->fixnum;
+    if (range >= 3 && (UFixnum)len > (range >> 1)) {
       gen_switch_cond_table_jump(swtch, vreg, cases, len, cond_flag);
       return;
     }
diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 8430c04..ccd928e 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -345,6 +345,8 @@ static Stmt *parse_switch(const Token *tok) {
   mark_var_used(value);
   not_void(value->type, value->token);
   consume(TK_RPAR, "`)' expected");
+  if (is_fixnum(value->type->kind))
+    value = promote_to_int(value);
 
   Stmt *stmt = new_stmt_switch(tok, value);
   SAVE_LOOP_SCOPE(save, stmt, NULL);
@@ -382,10 +384,9 @@ static Stmt *parse_case(const Token *tok) {
   }
 
   if (value != NULL) {
+    value = make_cast(swtch->switch_.value->type, value->token, value, false);
     if (find_case(swtch, value->fixnum) >= 0) {
       parse_error(PE_NOFATAL, tok, "Case value `%" PRId64 "' already defined", value->fixnum);
-    } else {
-      value = make_cast(swtch->switch_.value->type, value->token, value, false);
     }
   } else {
     if (swtch->switch_.default_ != NULL) {
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 10efbb4..1e4d8ff 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1128,14 +1128,12 @@ static void gen_switch_table_jump(Stmt *stmt, Expr *value, Fixnum min, Fixnum ma
   }
 
   gen_expr(value, true);
-  bool is_i64 = type_size(value->type) > I32_SIZE;
+  assert(type_size(value->type) <= I32_SIZE);  // BR_TABLE takes i32.
   if (min != 0) {
-    ADD_CODE(is_i64 ? OP_I64_CONST : OP_I32_CONST);
-    ADD_LEB128(min);
-    ADD_CODE(is_i64 ? OP_I64_SUB : OP_I32_SUB);
+    ADD_CODE(OP_I32_CONST);
+    ADD_LEB128((int32_t)min);
+    ADD_CODE(OP_I32_SUB);
   }
-  if (is_i64)
-    ADD_CODE(OP_I32_WRAP_I64);
   ADD_CODE(OP_BR_TABLE);
   ADD_ULEB128(vrange);
   for (unsigned int i = 0; i < vrange; ++i)
@@ -1207,10 +1205,10 @@ static void gen_switch(Stmt *stmt) {
       max = v;
   }
 
-  if (case_count >= 4 && (max - min) / 2 <= case_count) {
+  bool is_i64 = type_size(value->type) > I32_SIZE;
+  if (!is_i64 && case_count >= 4 && (max - min) / 2 <= case_count) {
     gen_switch_table_jump(stmt, value, min, max, default_index);
   } else {
-    bool is_i64 = type_size(value->type) > I32_SIZE;
     unsigned char op_const = is_i64 ? OP_I64_CONST : OP_I32_CONST;
     unsigned char op_eq = is_i64 ? OP_I64_EQ : OP_I32_EQ;
     for (int i = 0; i < case_count; ++i) {
@@ -1219,7 +1217,7 @@ static void gen_switch(Stmt *stmt) {
         continue;
       gen_expr(value, true);
       ADD_CODE(op_const);
-      ADD_LEB128(c->case_.value->fixnum);
+      ADD_LEB128(is_i64 ? c->case_.value->fixnum : (int32_t)c->case_.value->fixnum);
       ADD_CODE(op_eq, OP_BR_IF);
       int index = c->case_.block_index;
       if (index < 0)
-- 
2.43.0


From fa662071735e7f6823d38ecfa03115ea1ee98b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 016/170] fix: SSA optimisation drops vanished flows, folds
 table jumps and folds constants at their own width

---
 src/cc/backend/optimize.c | 72 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index a6580df..67f5dd6 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -268,8 +268,10 @@ static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   } else
 #endif
   {
-    int64_t n1 = opr1->fixnum;
-    int64_t n2 = opr2->fixnum;
+    // The same bit pattern might have been used as the other signedness.
+    bool is_unsigned = (cond & COND_UNSIGNED) != 0;
+    int64_t n1 = wrap_value(opr1->fixnum, 1 << opr1->vsize, is_unsigned);
+    int64_t n2 = wrap_value(opr2->fixnum, 1 << opr2->vsize, is_unsigned);
     switch ((int)cond) {
     case COND_EQ | COND_UNSIGNED:  // Fallthrough
     case COND_EQ:  return n1 == n2;
@@ -355,12 +357,13 @@ static int64_t calc_const_expr(IR *ir) {
 
   int64_t value = 0;
   if (ir->flag & IRF_UNSIGNED) {
-    uint64_t opr1 = ir->opr1->fixnum;
-    uint64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    // The same bit pattern might have been used as signed.
+    uint64_t opr1 = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, true);
+    uint64_t opr2 = ir->opr2 != NULL ? wrap_value(ir->opr2->fixnum, 1 << ir->opr2->vsize, true) : 0;
     CALC_CONST(ir->kind);
   } else {
-    int64_t opr1 = ir->opr1->fixnum;
-    int64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    int64_t opr1 = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, false);
+    int64_t opr2 = ir->opr2 != NULL ? wrap_value(ir->opr2->fixnum, 1 << ir->opr2->vsize, false) : 0;
     CALC_CONST(ir->kind);
   }
 #undef CALC
@@ -464,8 +467,8 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
 #endif
         {
           value = ir->opr1->fixnum;
-          if (ir->dst->vsize > ir->opr1->vsize)
-            value = wrap_value(value, 1 << ir->opr1->vsize, ir->flag & IRF_UNSIGNED);
+          int vsize = MIN(ir->dst->vsize, ir->opr1->vsize);
+          value = wrap_value(value, 1 << vsize, ir->flag & IRF_UNSIGNED);
         }
         // Replace to MOV.
         ir->kind = IR_MOV;
@@ -480,6 +483,18 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       return replace_const_jmp(ir);
     }
     break;
+  case IR_TJMP:
+    if (ir->opr1->flag & VRF_CONST) {
+      // Out of range cannot be reached, because it is checked beforehand.
+      uint64_t index = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, true);
+      BB *dst = ir->tjmp.bbs[index < ir->tjmp.len ? index : 0];
+      ir->kind = IR_JMP;
+      ir->jmp.cond = COND_ANY;
+      ir->jmp.bb = dst;
+      ir->opr1 = ir->opr2 = NULL;
+      return true;
+    }
+    break;
 
   default: break;
   }
@@ -632,6 +647,46 @@ static void copy_propagation(RegAlloc *ra, BBContainer *bbcon) {
   } while (again);
 }
 
+// Constant jumps might make some flows vanish: Remove unreachable BBs' contents and phi's parameters
+// which come from vanished flows.
+static void remove_vanished_flows(BBContainer *bbcon) {
+  // Keep current ones, because they are corresponding to phi's parameters.
+  Vector **prev_froms = malloc_or_die(sizeof(*prev_froms) * bbcon->len);
+  for (int i = 0; i < bbcon->len; ++i) {
+    BB *bb = bbcon->data[i];
+    prev_froms[i] = bb->from_bbs;
+    bb->from_bbs = new_vector();
+  }
+
+  detect_from_bbs(bbcon);
+
+  for (int i = 0; i < bbcon->len; ++i) {
+    BB *bb = bbcon->data[i];
+    Vector *prev = prev_froms[i];
+    if (i > 0 && bb->from_bbs->len == 0) {  // Unreachable.
+      vec_clear(bb->irs);
+      if (bb->phis != NULL)
+        vec_clear(bb->phis);
+      vec_clear(prev);
+    }
+    for (int j = 0; j < prev->len; ++j) {
+      if (vec_contains(bb->from_bbs, prev->data[j]))
+        continue;
+      vec_remove_at(prev, j);
+      if (bb->phis != NULL) {
+        for (int k = 0; k < bb->phis->len; ++k) {
+          Phi *phi = bb->phis->data[k];
+          vec_remove_at(phi->params, j);
+        }
+      }
+      --j;
+    }
+    free_vector(bb->from_bbs);
+    bb->from_bbs = prev;
+  }
+  free(prev_froms);
+}
+
 //
 
 void optimize(RegAlloc *ra, BBContainer *bbcon) {
@@ -651,6 +706,7 @@ void optimize(RegAlloc *ra, BBContainer *bbcon) {
   if (apply_ssa) {
     make_ssa(ra, bbcon);
     copy_propagation(ra, bbcon);
+    remove_vanished_flows(bbcon);
     remove_unused_vregs(ra, bbcon);
     if (!keep_phi) {
       resolve_phis(ra, bbcon);
-- 
2.43.0


From 2c3f0ec40d41562cff9b783727a360a4474615eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 017/170] fix: SSA constant folding rounds float values to
 their precision

---
 src/cc/backend/optimize.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index 67f5dd6..82a8d76 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -388,7 +388,7 @@ static double calc_fconst_expr(IR *ir) {
   default: assert(false); break;
   }
 
-  return value;
+  return ir->dst->vsize == VRegSize4 ? (float)value : value;
 }
 #endif
 
@@ -447,9 +447,16 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       if (ir->dst->flag & VRF_FLONUM) {
         double value;
         if (!(ir->opr1->flag & VRF_FLONUM)) {
-          value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)ir->opr1->fixnum : (double)ir->opr1->fixnum;
+          int64_t fixnum = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, ir->flag & IRF_UNSIGNED);
+          bool is_float = ir->dst->vsize == VRegSize4;
+          if (ir->flag & IRF_UNSIGNED)
+            value = is_float ? (float)(uint64_t)fixnum : (double)(uint64_t)fixnum;
+          else
+            value = is_float ? (float)fixnum : (double)fixnum;
         } else {
           value = ir->opr1->flonum.value;
+          if (ir->dst->vsize == VRegSize4)
+            value = (float)value;
         }
         // Replace to MOV.
         ir->kind = IR_MOV;
-- 
2.43.0


From b5fdf595443fbf8f152770f2d7f692f3bdea9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:12 +0000
Subject: [PATCH 018/170] fix: shift count type when storing into a _Bool
 bit-field

---
 src/cc/frontend/fe_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 4fee507..85c94b3 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1080,7 +1080,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
   val_masked = make_cast(type, tok, val_masked, false);
   if (minfo->bitfield.position > 0)
     val_masked = new_expr_bop(EX_LSHIFT, type, tok, val_masked,
-                              new_expr_fixlit(vtype, tok, minfo->bitfield.position));
+                              new_expr_fixlit(type, tok, minfo->bitfield.position));
   val_masked = make_cast(type, tok, val_masked, false);
   Expr *src_masked = new_expr_bop(EX_BITAND, type, tok, src,
                                   new_expr_fixlit(type, tok, ~(mask << minfo->bitfield.position)));
-- 
2.43.0


From 8774009491d00c1f6777db26cfc81a5ecbe0af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:45 +0000
Subject: [PATCH 019/170] fix: conversions between unsigned 32/64-bit integers
 and floating point on x64

---
 src/cc/arch/x64/ir_x64.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 257d166..e623309 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -683,6 +683,7 @@ static void ei_cast(IR *ir) {
         }
       } else if (pows < 3) {
         const char *s64 = kReg64s[ir->opr1->phys];
+        MOV(s, s);  // Clear upper 32 bits.
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(s64, d); break;
         case SZ_DOUBLE:  CVTSI2SD(s64, d); break;
@@ -690,9 +691,10 @@ static void ei_cast(IR *ir) {
         }
       } else {
         // x64 support signed 64bit-signed-int to double only, so pass half value
-        // (precision is lost anyway).
+        // (keep the lowest bit as sticky for rounding).
         const Name *neglabel = alloc_label();
         const Name *skiplabel = alloc_label();
+        const Name *evenlabel = alloc_label();
         TEST(s, s);
         JS(fmt_name(neglabel));
         switch (ir->dst->vsize) {
@@ -705,6 +707,9 @@ static void ei_cast(IR *ir) {
         PUSH(RAX);  // Push %rax to avoid Break
         MOV(s, RAX);
         SHR(IM(1), RAX);
+        JAE(fmt_name(evenlabel));
+        OR(IM(1), RAX);
+        EMIT_LABEL(fmt_name(evenlabel));
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(RAX, d); ADDSS(d, d); break;
         case SZ_DOUBLE:  CVTSI2SD(RAX, d); ADDSD(d, d); break;
@@ -720,6 +725,8 @@ static void ei_cast(IR *ir) {
     int powd = ir->dst->vsize;
     if (powd < 2)
       powd = 2;
+    if (powd == 2 && (ir->flag & IRF_UNSIGNED))
+      powd = 3;  // CVTT* handles signed only.
     switch (ir->opr1->vsize) {
     case SZ_FLOAT:   CVTTSS2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
     case SZ_DOUBLE:  CVTTSD2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
-- 
2.43.0


From 6e73afad8990dfa4c7802ac8956f2f6c4cd7b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:56 +0000
Subject: [PATCH 020/170] fix: a bit-field narrower than int promotes to int

---
 src/cc/frontend/fe_misc.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 85c94b3..4949f6b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -447,9 +447,28 @@ const MemberInfo *search_from_anonymous(const Type *type, const Name *name, cons
   return NULL;
 }
 
+#ifndef __NO_BITFIELD
+// A bit-field promotes to int if an int can represent all of its values.
+static Expr *promote_bitfield_value(Expr *expr, const MemberInfo *minfo) {
+  int width = minfo->bitfield.width;
+  if (width > 0 && width < (int)(type_size(&tyInt) * CHAR_BIT) && is_fixnum(expr->type->kind) &&
+      !same_type_without_qualifier(expr->type, &tyInt, true))
+    return make_cast(&tyInt, expr->token, expr, false);
+  return expr;
+}
+#endif
+
+static Expr *promote_bitfield(Expr *expr) {
+#ifndef __NO_BITFIELD
+  if (expr->kind == EX_MEMBER)
+    return promote_bitfield_value(expr, expr->member.info);
+#endif
+  return expr;
+}
+
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
-  Expr *lhs = *pLhs;
-  Expr *rhs = *pRhs;
+  Expr *lhs = *pLhs = promote_bitfield(*pLhs);
+  Expr *rhs = *pRhs = promote_bitfield(*pRhs);
   Type *ltype = lhs->type;
   Type *rtype = rhs->type;
   assert(ltype != NULL);
@@ -748,6 +767,7 @@ Expr *make_refer(const Token *tok, Expr *expr) {
 
 Expr *promote_to_int(Expr *expr) {
   assert(expr->type->kind == TY_FIXNUM);
+  expr = promote_bitfield(expr);
   enum FixnumKind kind = expr->type->fixnum.kind;
   if (kind >= FX_INT && kind <= FX_LLONG)
     return expr;
@@ -1522,6 +1542,8 @@ static Type *apply_ptr_qualifier(Type *type, Type *ptype) {
 }
 
 Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
+  tval = promote_bitfield(tval);
+  fval = promote_bitfield(fval);
   Type *ttype = tval->type;
   Type *ftype = fval->type;
 
@@ -1615,7 +1637,7 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *src = alloc_tmp_var(curscope, type);
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
-  Expr *tmp = extract_bitfield_value(src, minfo);
+  Expr *tmp = promote_bitfield_value(extract_bitfield_value(src, minfo), minfo);
   tmp = make_cast(minfo->type, tok, calc_assign_with(tok, tmp, rhs), false);
   Expr *store = assign_bitfield_member(tok, dst, dst, tmp, minfo);
 
-- 
2.43.0


From 4df555a7a9ae0adb8b397a211c9ab4f572dd7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:35 +0000
Subject: [PATCH 021/170] fix: register allocation keeps a value alive that
 enters a block before its first instruction

---
 src/cc/backend/regalloc.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cc/backend/regalloc.c b/src/cc/backend/regalloc.c
index 488762c..9952278 100644
--- a/src/cc/backend/regalloc.c
+++ b/src/cc/backend/regalloc.c
@@ -163,7 +163,7 @@ static void expire_old_intervals(PhysicalRegisterSet *p, int start) {
   p->using_bits = using_bits;
 }
 
-static void set_inout_interval(Vector *vregs, LiveInterval *intervals, int nip) {
+static void set_inout_interval(Vector *vregs, LiveInterval *intervals, int start, int nip) {
   for (int j = 0; j < vregs->len; ++j) {
     VReg *vreg = vregs->data[j];
     LiveInterval *li = &intervals[vreg->virt];
@@ -171,8 +171,8 @@ static void set_inout_interval(Vector *vregs, LiveInterval *intervals, int nip)
       // If the vreg is register parameter for function,
       // it is given a priori and keep live interval start as is.
     } else {
-      if (li->start < 0 || li->start > nip)
-        li->start = nip;
+      if (li->start < 0 || li->start > start)
+        li->start = start;
     }
     if (li->end < nip)
       li->end = nip;
@@ -193,7 +193,8 @@ static void check_live_interval(BBContainer *bbcon, int vreg_count, LiveInterval
   for (int i = 0; i < bbcon->len; ++i) {
     BB *bb = bbcon->data[i];
 
-    set_inout_interval(bb->in_regs, intervals, nip);
+    // Incoming registers are alive before the first instruction, differ from ones defined there.
+    set_inout_interval(bb->in_regs, intervals, nip > 0 ? nip - 1 : 0, nip);
 
     for (int j = 0; j < bb->irs->len; ++j, ++nip) {
       IR *ir = bb->irs->data[j];
@@ -210,7 +211,7 @@ static void check_live_interval(BBContainer *bbcon, int vreg_count, LiveInterval
       }
     }
 
-    set_inout_interval(bb->out_regs, intervals, nip);
+    set_inout_interval(bb->out_regs, intervals, nip, nip);
   }
 }
 
-- 
2.43.0


From 5bbfd8ed284109b7de5ed5703d7a6b4a5d02a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:53 +0000
Subject: [PATCH 022/170] fix: ternary in integer constant expressions, and the
 type of long integer literals

---
 src/cc/frontend/parser_expr.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 3efacd4..9d68e3f 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -283,12 +283,11 @@ static Expr *literal(Token *tok) {
         UFixnum value = tok->fixnum.value;
         while (fx < FX_LLONG) {
           Type *type = get_fixnum_type(fx, u, 0);
-          int bits = type_size(type) * TARGET_CHAR_BIT - (u ? 0 : 1);
-          if ((value <= (((UFixnum)1U << bits) - 1U)) &&
-              (u || (Fixnum)value >= -((Fixnum)1 << (bits - 1))))
+          // Maximum value of unsigned and signed type: avoid shifting by full width.
+          UFixnum umax = (UFixnum)-1 >> ((sizeof(UFixnum) - type_size(type)) * TARGET_CHAR_BIT);
+          if (value <= (u ? umax : umax >> 1))
             break;
-          if (!u && value <= ((UFixnum)1U << (bits + 1)) - 1U &&
-              (tok->fixnum.flag & TKF_KIND_MASK) != 0) {
+          if (!u && value <= umax && (tok->fixnum.flag & TKF_KIND_MASK) != 0) {
             u = true;
             break;
           }
@@ -824,7 +823,7 @@ Expr *parse_assign(void) {
 
 Expr *parse_const_fixnum(void) {
   parsing_stmt = false;
-  Expr *expr = parse_precedence(PREC_LOGIOR);
+  Expr *expr = parse_precedence(PREC_TERNARY);
   if (expr == NULL)
     return NULL;  // Error is already reported.
   if (is_const(expr) && is_fixnum(expr->type->kind))
-- 
2.43.0


From 66870983e5d973e1fa82b955daf6b8853dc31477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:35 +0000
Subject: [PATCH 023/170] fix: a character constant has type int

---
 src/cc/frontend/parser_expr.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 9d68e3f..d0279bb 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -267,13 +267,7 @@ static Expr *literal(Token *tok) {
       enum FixnumKind fx;
       bool u = flag & TKF_UNSIGNED;
       if (flag & TKF_CHAR) {
-#ifndef __NO_WCHAR
-        static const enum FixnumKind kCharTable[] = { FX_CHAR, FX_INT };
-        assert(long_count < (int)ARRAY_SIZE(kCharTable));
-        fx = kCharTable[long_count];
-#else
-        fx = FX_CHAR;
-#endif
+        fx = FX_INT;
       } else {
         static const enum FixnumKind kFxTable[] = { FX_INT, FX_LONG, FX_LLONG };
         assert(long_count < (int)ARRAY_SIZE(kFxTable));
-- 
2.43.0


From 3a78b62158af3ef0cbb650dd165efcd7ac2d3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 024/170] fix: static floating initializer from an unsigned
 constant

---
 src/cc/frontend/initializer.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 909a1ae..a0f2305 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -635,10 +635,7 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
     if (init->kind == IK_SINGLE) {
       switch (init->single->kind) {
       case EX_FIXNUM:
-        {
-          Fixnum fixnum = init->single->fixnum;
-          init->single = new_expr_flolit(type, init->single->token, fixnum);
-        }
+        init->single = make_cast(type, init->single->token, init->single, false);
         // Fallthrough
       case EX_FLONUM:
         return init;
-- 
2.43.0


From 9fe34fffc1b1c55672ffb6c0698f37b8506ace7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 025/170] fix: a static variable referred only in a while
 condition is emitted

---
 src/cc/frontend/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index ccd928e..5d2fe1a 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -411,8 +411,9 @@ static Stmt *parse_case(const Token *tok) {
 
 static Stmt *parse_while(const Token *tok) {
   consume(TK_LPAR, "`(' expected");
-  Expr *cond = make_cond(parse_expr());
+  Expr *cond = parse_expr();
   mark_var_used(cond);
+  cond = make_cond(cond);
   consume(TK_RPAR, "`)' expected");
 
   Stmt *stmt = new_stmt_while(tok, cond, NULL);
-- 
2.43.0


From 39a1c4764c25d5d2a9b8fb66fd8c7d5a882c8414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 026/170] fix: negation of a constant floating register

---
 src/cc/backend/ir.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/backend/ir.c b/src/cc/backend/ir.c
index 907be7c..462dc28 100644
--- a/src/cc/backend/ir.c
+++ b/src/cc/backend/ir.c
@@ -216,6 +216,12 @@ VReg *new_ir_bop(enum IrKind kind, VReg *opr1, VReg *opr2, enum VRegSize vsize,
 
 VReg *new_ir_unary(enum IrKind kind, VReg *opr, enum VRegSize vsize, int flag) {
   assert(kind != IR_LOAD);
+#ifndef __NO_FLONUM
+  if ((opr->flag & (VRF_CONST | VRF_FLONUM)) == (VRF_CONST | VRF_FLONUM)) {
+    assert(kind == IR_NEG);
+    return new_const_vfreg(-opr->flonum.value, vsize);
+  }
+#endif
   if (opr->flag & VRF_CONST) {
     int64_t value = 0;
     switch (kind) {
-- 
2.43.0


From 0d0b23d2f32b118ae4efcc9441c6598488de3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 027/170] fix: increment, decrement and shift assignment of
 _Bool, and the type of a comma expression used as a condition

---
 src/cc/frontend/fe_misc.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 4949f6b..adff325 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1179,6 +1179,26 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
 }
 #endif
 
+static Expr *transform_incdec_of_bool(enum ExprKind kind, Expr *target, const Token *tok) {
+  // Transform expression to
+  // (ptr = &target, old = *ptr, *ptr = old + 1 (or old - 1) as bool), and `, old` if postfix.
+  bool dec = (kind - EX_PREINC) & 1;
+  bool post = kind >= EX_POSTINC;
+  Type *type = target->type;
+  Type *ptype = ptrof(type);
+  assert(!is_global_scope(curscope));
+  Expr *ptr = alloc_tmp_var(curscope, ptype);
+  Expr *ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(target->token, target));
+  Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
+  Expr *old = alloc_tmp_var(curscope, type);
+  Expr *old_assign = new_expr_bop(EX_ASSIGN, type, tok, old, dst);
+  Expr *val = new_expr_addsub(dec ? EX_SUB : EX_ADD, tok, old, new_expr_fixlit(&tyInt, tok, 1));
+  Expr *store = new_expr_bop(EX_ASSIGN, type, tok, dst, make_cast(type, tok, val, false));
+  Expr *result = new_expr_bop(EX_COMMA, type, tok, ptr_assign,
+                              new_expr_bop(EX_COMMA, type, tok, old_assign, store));
+  return post ? new_expr_bop(EX_COMMA, type, tok, result, old) : result;
+}
+
 Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
   check_referable(tok, target, "lvalue expected");
 #ifndef __NO_BITFIELD
@@ -1188,6 +1208,8 @@ Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
       return transform_incdec_of_bitfield(kind, target, tok, minfo);
   }
 #endif
+  if (is_bool(target->type))
+    return transform_incdec_of_bool(kind, target, tok);
   return new_expr_unary(kind, target->type, tok, target);
 }
 
@@ -1425,7 +1447,10 @@ Expr *make_cond(Expr *expr) {
   case EX_LOGIOR:
     break;
   case EX_COMMA:
-    expr->bop.rhs = make_cond(expr->bop.rhs);
+    {
+      Expr *cond = make_cond(expr->bop.rhs);
+      expr = new_expr_bop(EX_COMMA, cond->type, expr->token, expr->bop.lhs, cond);
+    }
     break;
   default:
     switch (expr->type->kind) {
@@ -1614,7 +1639,8 @@ static Expr *calc_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
       if (!is_fixnum(ltype->kind) || !is_fixnum(rtype->kind))
         parse_error(PE_FATAL, tok, "Cannot use `%.*s' except numbers.",
                     (int)(tok->end - tok->begin), tok->begin);
-      return new_expr_bop(kind, ltype, tok, lhs, rhs);
+      lhs = promote_to_int(lhs);
+      return new_expr_bop(kind, lhs->type, tok, lhs, rhs);
     }
   }
 }
-- 
2.43.0


From e24da6b6140b9c0d7f7905f69ce72dfa90898135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:26 +0000
Subject: [PATCH 028/170] fix: a conditional expression of two _Bool operands
 has type int

---
 src/cc/frontend/parser_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index d0279bb..0f99d54 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -497,7 +497,7 @@ static Expr *ternary(Expr *expr, Token *tok) {
     parse_error(PE_NOFATAL, tok, "lhs and rhs must be same type");
     type = tval->type;  // Dummy to continue.
   } else {
-    if (is_fixnum(type->kind) && type->fixnum.kind < FX_INT)
+    if (is_fixnum(type->kind) && (type->fixnum.kind < FX_INT || is_bool(type)))
       type = &tyInt;
     if (type->kind != TY_VOID) {
       tval = make_cast(type, tval->token, tval, false);
-- 
2.43.0


From fd8e06278b7832b7379b5f0b32046cb29968614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:53 +0000
Subject: [PATCH 029/170] fix: a cast of a bit-field to its own type is not a
 bit-field

---
 src/cc/frontend/fe_misc.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index adff325..efc9453 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -344,9 +344,23 @@ bool check_cast(const Type *dst, const Type *src, bool zero, bool is_explicit, c
   return true;
 }
 
+#ifndef __NO_BITFIELD
+// A bit-field promotes to int if an int can represent all of its values.
+static bool bitfield_promotes_to_int(const MemberInfo *minfo) {
+  int width = minfo->bitfield.width;
+  return width > 0 && width < (int)(type_size(&tyInt) * CHAR_BIT) &&
+         !same_type_without_qualifier(minfo->type, &tyInt, true);
+}
+#endif
+
 Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
   check_cast(type, sub->type, is_zero(sub), is_explicit, token);
   if (same_type(type, sub->type)) {
+#ifndef __NO_BITFIELD
+    // The result is not a bit-field, so it isn't promoted to int any longer.
+    if (sub->kind == EX_MEMBER && bitfield_promotes_to_int(sub->member.info))
+      return new_expr_cast(type, token, sub);
+#endif
     sub->type = type;
     return sub;
   }
@@ -448,13 +462,8 @@ const MemberInfo *search_from_anonymous(const Type *type, const Name *name, cons
 }
 
 #ifndef __NO_BITFIELD
-// A bit-field promotes to int if an int can represent all of its values.
 static Expr *promote_bitfield_value(Expr *expr, const MemberInfo *minfo) {
-  int width = minfo->bitfield.width;
-  if (width > 0 && width < (int)(type_size(&tyInt) * CHAR_BIT) && is_fixnum(expr->type->kind) &&
-      !same_type_without_qualifier(expr->type, &tyInt, true))
-    return make_cast(&tyInt, expr->token, expr, false);
-  return expr;
+  return bitfield_promotes_to_int(minfo) ? make_cast(&tyInt, expr->token, expr, false) : expr;
 }
 #endif
 
-- 
2.43.0


From 3bf1802b0ff455761d535952b6df2e0b6a5c7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:03 +0000
Subject: [PATCH 030/170] fix: logical negation of a floating comparison is not
 the inverse comparison (NaN)

---
 src/cc/frontend/fe_misc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index efc9453..8b1c7f4 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1371,8 +1371,11 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
           p->kind = (EX_EQ + EX_NE) - p->kind;  // EQ <-> NE
         return p;
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
-        if (k == EX_EQ)
+        if (k == EX_EQ) {
+          if (is_flonum(p->bop.lhs->type))
+            break;  // Not invertible because of NaN.
           p->kind = EX_LT + ((p->kind - EX_LT) ^ 2);  // LT <-> GE, LE <-> GT
+        }
         return p;
       case EX_LOGAND: case EX_LOGIOR:
         if (k == EX_EQ)
-- 
2.43.0


From a922b08b36e87bc96ae509710c420bc9de95599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:03 +0000
Subject: [PATCH 031/170] fix: SSA does not invert the condition of a floating
 comparison (NaN)

---
 src/cc/backend/ssa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index d95b630..cd697c6 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -223,6 +223,15 @@ static int insert_unconditional_bb(BBContainer *bbcon, int ito, int ifrom, IR* l
     if (last->jmp.bb == to) {
       assert(last->jmp.cond != COND_ANY);
       if (fallthrough) {
+        if (last->jmp.cond & COND_FLONUM) {
+          // Inverse of a floating-point comparison is not a comparison (NaN): put the result in a
+          // register, and invert the test of it.
+          IR *cond = new_ir_cond(last->opr1, last->opr2, last->jmp.cond);
+          vec_insert(from->irs, from->irs->len - 1, cond);
+          last->opr1 = cond->dst;
+          last->opr2 = reg_alloc_spawn_const(curra, 0, cond->dst->vsize);
+          last->jmp.cond = COND_NE;
+        }
         last->jmp.bb = from->next;
         last->jmp.cond = invert_cond(last->jmp.cond);
       } else {
-- 
2.43.0


From fafe0d8c8d6d3096a3dc8709aa80f93c2f079618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:08 +0000
Subject: [PATCH 032/170] fix: floating literals are rounded once, to their own
 type

---
 src/cc/frontend/lexer.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index c466523..f971dd6 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -393,17 +393,15 @@ static const char *skip_whitespace_or_comment(const char *p) {
 static Token *read_flonum(const char **pp, int base) {
   const char *start = *pp;
   char *next;
-#ifdef __XCC
-  // long double in XCC is same as double, and if the target platform uses
-  // system library, it makes discrepancy.
+  // long double in XCC is same as double: Converting through a wider type rounds the value twice.
   Flonum val = strtod(start, &next);
-#else
-  Flonum val = strtold(start, &next);
-#endif
   enum TokenKind tk = TK_DOUBLELIT;
   switch (tolower(*next)) {
   case 'f':
     tk = TK_FLOATLIT;
+#ifndef __XCC
+    val = strtof(start, NULL);
+#endif
     ++next;
     break;
   case 'l':
-- 
2.43.0


From 5026834a979b9f40cc118a9b43df8ca712e3de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:26 +0000
Subject: [PATCH 033/170] fix: value stored into a bit-field wider than its
 declared type does not leak into its neighbours

---
 src/cc/frontend/fe_misc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 8b1c7f4..41e47f5 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1102,11 +1102,11 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
 Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
                              const MemberInfo *minfo) {
   Type *type = dst->type;
-  Type *vtype = val->type;
 
   UFixnum mask = (UFixnum)-1 >> (sizeof(UFixnum) * CHAR_BIT - minfo->bitfield.width);
-  Expr *val_masked = new_expr_bop(EX_BITAND, vtype, tok, val, new_expr_fixlit(vtype, tok, mask));
-  val_masked = make_cast(type, tok, val_masked, false);
+  // Mask in the type of the storage unit: The type of the value might be narrower, and signed.
+  Expr *val_masked = new_expr_bop(EX_BITAND, type, tok, make_cast(type, tok, val, false),
+                                  new_expr_fixlit(type, tok, mask));
   if (minfo->bitfield.position > 0)
     val_masked = new_expr_bop(EX_LSHIFT, type, tok, val_masked,
                               new_expr_fixlit(type, tok, minfo->bitfield.position));
-- 
2.43.0


From 9417d8c72cdee60f19d1ec813b7ab3af55c44764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 034/170] fix: stpcpy and stpncpy return the address of the
 terminator, and stpncpy pads with zeros

---
 libsrc/string/stpcpy.c  | 2 +-
 libsrc/string/stpncpy.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/stpcpy.c b/libsrc/string/stpcpy.c
index 0eb7f51..39127de 100644
--- a/libsrc/string/stpcpy.c
+++ b/libsrc/string/stpcpy.c
@@ -1,7 +1,7 @@
 #include "string.h"
 
 char *stpcpy(char *dst, const char *src) {
-  while ((*dst++ = *src++) != '\0')
+  for (; (*dst = *src) != '\0'; ++dst, ++src)
     ;
   return dst;
 }
diff --git a/libsrc/string/stpncpy.c b/libsrc/string/stpncpy.c
index a6d7894..33a8623 100644
--- a/libsrc/string/stpncpy.c
+++ b/libsrc/string/stpncpy.c
@@ -1,7 +1,8 @@
 #include "string.h"
 
 char *stpncpy(char *dst, const char *src, size_t n) {
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
+  for (; n > 0 && (*dst = *src) != '\0'; --n, ++dst, ++src)
     ;
+  memset(dst, '\0', n);
   return dst;
 }
-- 
2.43.0


From a9799f9543c824234aabef0fd2a9044c8882860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 035/170] fix: strncpy pads with zeros

---
 libsrc/string/strncpy.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libsrc/string/strncpy.c b/libsrc/string/strncpy.c
index 9dcceae..6433a8b 100644
--- a/libsrc/string/strncpy.c
+++ b/libsrc/string/strncpy.c
@@ -1,8 +1,6 @@
 #include "string.h"
 
 char *strncpy(char *dst, const char *src, size_t n) {
-  char *os = dst;
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
-  return os;
+  stpncpy(dst, src, n);
+  return dst;
 }
-- 
2.43.0


From 52678709f2e79b1388a6b260734be79c7e610eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 036/170] fix: memccpy copies the searched byte and returns the
 address after it

---
 libsrc/string/memccpy.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libsrc/string/memccpy.c b/libsrc/string/memccpy.c
index 427d8f7..f64ee12 100644
--- a/libsrc/string/memccpy.c
+++ b/libsrc/string/memccpy.c
@@ -1,8 +1,12 @@
 #include "string.h"
 
 void *memccpy(void *dst, const void *src, int c, size_t n) {
-  char *b = memchr(src, c, n);
-  if (b != NULL)
-    n = b - (char *)src;
-  return memcpy(dst, src, n);
+  const char *b = memchr(src, c, n);
+  if (b == NULL) {
+    memcpy(dst, src, n);
+    return NULL;
+  }
+  n = b + 1 - (const char*)src;
+  memcpy(dst, src, n);
+  return (char*)dst + n;
 }
-- 
2.43.0


From e107d1f67ac9091817a659997c07177d04042280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 037/170] fix: strstr finds the empty string at the end

---
 libsrc/string/strstr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/strstr.c b/libsrc/string/strstr.c
index f8fa574..d542608 100644
--- a/libsrc/string/strstr.c
+++ b/libsrc/string/strstr.c
@@ -1,9 +1,10 @@
 #include "string.h"
 
 char *strstr(const char *s1, const char *s2) {
-  for (size_t len = strlen(s2); *s1 != '\0'; ++s1) {
+  for (size_t len = strlen(s2); ; ++s1) {
     if (strncmp(s1, s2, len) == 0)
       return (char*)s1;
+    if (*s1 == '\0')
+      return NULL;
   }
-  return NULL;
 }
-- 
2.43.0


From 68d475308406346be93f29e35e71ddc3ed99d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 038/170] fix: strcasecmp ignores case

---
 libsrc/string/strcasecmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/string/strcasecmp.c b/libsrc/string/strcasecmp.c
index ed94ec0..42bcdf2 100644
--- a/libsrc/string/strcasecmp.c
+++ b/libsrc/string/strcasecmp.c
@@ -3,9 +3,9 @@
 
 int strcasecmp(const char *p, const char *q) {
   for (;; ++p, ++q) {
-    unsigned char c1 = *(unsigned char*)p;
-    unsigned char c2 = *(unsigned char*)q;
-    int d = (int)c1 - (int)c2;
+    int c1 = tolower(*(unsigned char*)p);
+    int c2 = tolower(*(unsigned char*)q);
+    int d = c1 - c2;
     if (d != 0)
       return d;
     if (c1 == 0)
-- 
2.43.0


From 64c9774b9943150041b9c79274675d6ad42d1ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 039/170] fix: strndup does not read beyond the end of the
 string

---
 libsrc/string/strndup.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/string/strndup.c b/libsrc/string/strndup.c
index ce14001..f366b53 100644
--- a/libsrc/string/strndup.c
+++ b/libsrc/string/strndup.c
@@ -2,6 +2,7 @@
 #include "stdlib.h"  // malloc
 
 char *strndup(const char *str, size_t size) {
+  size = strnlen(str, size);
   char *dup = malloc(size + 1);
   if (dup != NULL) {
     memcpy(dup, str, size);
-- 
2.43.0


From da6a234c860085c1bbe35bce9d9ec146a84bd284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 040/170] fix: strtok does not go beyond the end of the string
 after its last token

---
 libsrc/string/strtok_r.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/strtok_r.c b/libsrc/string/strtok_r.c
index 07a17d7..b373f54 100644
--- a/libsrc/string/strtok_r.c
+++ b/libsrc/string/strtok_r.c
@@ -8,7 +8,10 @@ char *strtok_r(char *src, const char *delim, char **ptr) {
     return NULL;
   char *r = *ptr;
   size_t n = strcspn(r, delim);
-  r[n] = '\0';
-  *ptr += n + 1;
+  *ptr = r + n;
+  if (r[n] != '\0') {
+    r[n] = '\0';
+    ++*ptr;
+  }
   return r;
 }
-- 
2.43.0


From b216883fabe2fee29325f89edd1d4e5ad7628f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 041/170] fix: memchr, strchr and strrchr convert the searched
 character to char

---
 libsrc/string/memchr.c  | 2 +-
 libsrc/string/strchr.c  | 2 +-
 libsrc/string/strrchr.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/string/memchr.c b/libsrc/string/memchr.c
index ab1e6e7..5c9669c 100644
--- a/libsrc/string/memchr.c
+++ b/libsrc/string/memchr.c
@@ -2,7 +2,7 @@
 
 void *memchr(const void *buf, int c, size_t n) {
   for (const char *p = buf, *e = p + n; p < e; ++p) {
-    if (*p == c)
+    if (*p == (char)c)
       return (void*)p;
   }
   return NULL;
diff --git a/libsrc/string/strchr.c b/libsrc/string/strchr.c
index 296b9c0..3f80fbc 100644
--- a/libsrc/string/strchr.c
+++ b/libsrc/string/strchr.c
@@ -2,7 +2,7 @@
 
 char *strchr(const char *s, int c) {
   for (;; ++s) {
-    if (*s == c)
+    if (*s == (char)c)
       return (char*)s;
     if (*s == '\0')
       return NULL;
diff --git a/libsrc/string/strrchr.c b/libsrc/string/strrchr.c
index b6bc79a..ae15d11 100644
--- a/libsrc/string/strrchr.c
+++ b/libsrc/string/strrchr.c
@@ -3,7 +3,7 @@
 char *strrchr(const char *s, int c) {
   char *last = NULL;
   for (;; ++s) {
-    if (*s == c)
+    if (*s == (char)c)
       last = (char*)s;
     if (*s == '\0')
       return last;
-- 
2.43.0


From 0b7f9af7ca689b3638eabd3e0c162d0614cead26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:02 +0000
Subject: [PATCH 042/170] fix: basename and dirname of paths with trailing
 slashes or without a parent

---
 libsrc/misc/basename.c | 15 +++++++++------
 libsrc/misc/dirname.c  | 21 ++++++++++++++-------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/libsrc/misc/basename.c b/libsrc/misc/basename.c
index 4419ae0..0620377 100644
--- a/libsrc/misc/basename.c
+++ b/libsrc/misc/basename.c
@@ -1,10 +1,13 @@
 #include "libgen.h"
-#include "string.h"  // strrchr
+#include "string.h"  // strlen
 
 char *basename(char *path) {
-  char *p = strrchr(path, '/');
-  if (p != NULL)
-    return p + 1;
-  else
-    return path;
+  if (path == NULL || *path == '\0')
+    return ".";
+  size_t n = strlen(path);
+  while (n > 1 && path[n - 1] == '/')  // Trailing slashes.
+    path[--n] = '\0';
+  while (n > 1 && path[n - 2] != '/')
+    --n;
+  return &path[n - 1];
 }
diff --git a/libsrc/misc/dirname.c b/libsrc/misc/dirname.c
index 64b76ac..d7f8faa 100644
--- a/libsrc/misc/dirname.c
+++ b/libsrc/misc/dirname.c
@@ -1,11 +1,18 @@
 #include "libgen.h"
-#include "string.h"  // strrchr
+#include "string.h"  // strlen
 
 char *dirname(char *path) {
-  char *p = strrchr(path, '/');
-  if (p != NULL) {
-    *p = '\0';
-    return path;
-  }
-  return ".";
+  if (path == NULL)
+    return ".";
+  size_t n = strlen(path);
+  while (n > 1 && path[n - 1] == '/')  // Trailing slashes.
+    --n;
+  while (n > 0 && path[n - 1] != '/')  // Last component.
+    --n;
+  if (n == 0)
+    return ".";
+  while (n > 1 && path[n - 1] == '/')  // Slashes before it.
+    --n;
+  path[n] = '\0';
+  return path;
 }
-- 
2.43.0


From dd674f8ddafdc76579c10aa53583fc5f288c2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 043/170] fix: strtol family: base 0, and the prefix 0x in base
 16

---
 libsrc/stdlib/_strtoull_sub.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libsrc/stdlib/_strtoull_sub.c b/libsrc/stdlib/_strtoull_sub.c
index 016c418..03a328e 100644
--- a/libsrc/stdlib/_strtoull_sub.c
+++ b/libsrc/stdlib/_strtoull_sub.c
@@ -1,6 +1,13 @@
-#include "ctype.h"  // isspace, tolower
+#include "ctype.h"  // isxdigit, tolower
 
 unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max) {
+  if ((base == 0 || base == 16) && p[0] == '0' && tolower(p[1]) == 'x' && isxdigit(p[2])) {
+    p += 2;
+    base = 16;
+  } else if (base == 0) {
+    base = *p == '0' ? 8 : 10;
+  }
+
   char digimax = '0' + (base <= 10 ? base : 10);
   char hexmax = 'a' - 10 + base;
   unsigned long long premax = max / base;
-- 
2.43.0


From c05e4a64122d061a3ecd22f5f3f7bdeabd6ef5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 044/170] fix: strtoul and strtoull skip white space and take a
 sign

---
 libsrc/stdlib/strtoul.c  | 12 ++++++++++--
 libsrc/stdlib/strtoull.c |  7 +++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/libsrc/stdlib/strtoul.c b/libsrc/stdlib/strtoul.c
index d29abbf..3ab5fdb 100644
--- a/libsrc/stdlib/strtoul.c
+++ b/libsrc/stdlib/strtoul.c
@@ -1,13 +1,21 @@
 #include "stdlib.h"
+#include "ctype.h"  // isspace
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long strtoul(const char *p, char **pp, int base) {
   const char *orig = p;
-  if (*p == '+')
-    ++p;
+
+  for (; isspace(*p); ++p)
+    ;
+
+  bool neg = _parse_sign(&p);
   char *q;
   unsigned long result = _strtoull_sub(p, &q, base, -1UL);
+  if (neg && result != -1UL)
+    result = -result;
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
   return result;
diff --git a/libsrc/stdlib/strtoull.c b/libsrc/stdlib/strtoull.c
index 5de6a7b..8234c18 100644
--- a/libsrc/stdlib/strtoull.c
+++ b/libsrc/stdlib/strtoull.c
@@ -1,6 +1,8 @@
 #include "stdlib.h"
 #include "ctype.h"  // isspace
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long long strtoull(const char *p, char **pp, int base) {
@@ -9,10 +11,11 @@ unsigned long long strtoull(const char *p, char **pp, int base) {
   for (; isspace(*p); ++p)
     ;
 
-  if (*p == '+')
-    ++p;
+  bool neg = _parse_sign(&p);
   char *q;
   unsigned long long result = _strtoull_sub(p, &q, base, -1ULL);
+  if (neg && result != -1ULL)
+    result = -result;
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
   return result;
-- 
2.43.0


From a829c96524a759f4c18c2d8800a16aa801ad4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:06 +0000
Subject: [PATCH 045/170] fix: strtod takes 0x as a prefix only before a
 hexadecimal digit

---
 libsrc/stdlib/strtod.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libsrc/stdlib/strtod.c b/libsrc/stdlib/strtod.c
index 9957d7c..a70eddf 100644
--- a/libsrc/stdlib/strtod.c
+++ b/libsrc/stdlib/strtod.c
@@ -1,5 +1,5 @@
 #include "stdlib.h"
-#include "ctype.h"  // isspace, tolower
+#include "ctype.h"  // isspace, isxdigit, tolower
 #include "stdbool.h"
 #include "string.h"
 #include "stdint.h"
@@ -50,13 +50,19 @@ static double strtod_i2(const char *p, const char **pp) {
   return result;
 }
 
-#define strtod_h(p, pp)  strtoull(p, (char**)(pp), 16)
+static double strtod_h(const char *p, const char **pp) {
+  double result = 0;
+  for (; isxdigit(*p); ++p)
+    result = result * 16 + (isdigit(*p) ? *p - '0' : tolower(*p) - 'a' + 10);
+  *pp = p;
+  return result;
+}
 
 static double strtod_hex(const char *p, const char **pp) {
   double result = strtod_h(p, &p);
   if (*p == '.') {
     const char *q = p + 1;
-    unsigned long long frac = strtod_h(q, &p);
+    double frac = strtod_h(q, &p);
     long order = p - q;
     result += frac * ipow(1.0f / 16, order);
   }
@@ -108,7 +114,7 @@ double strtod(const char * restrict p_, char ** restrict pp) {
 
   const char *op;
   double result;
-  if (p[0] == '0' && tolower(p[1]) == 'x') {
+  if (p[0] == '0' && tolower(p[1]) == 'x' && isxdigit(p[p[2] == '.' ? 3 : 2])) {
     op = p += 2;
     result = strtod_hex(p, &p);
   } else {
-- 
2.43.0


From a58f04642b42eb7ed26b5b30a74e11990c5ef9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 046/170] fix: strtod leaves an exponent without digits unread

---
 libsrc/stdlib/strtod.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libsrc/stdlib/strtod.c b/libsrc/stdlib/strtod.c
index a70eddf..ed993f0 100644
--- a/libsrc/stdlib/strtod.c
+++ b/libsrc/stdlib/strtod.c
@@ -67,11 +67,11 @@ static double strtod_hex(const char *p, const char **pp) {
     result += frac * ipow(1.0f / 16, order);
   }
   if (tolower(*p) == 'p') {
-    const char *q = p + 1;
+    const char *e = p, *q = p + 1;
     bool neg2 = _parse_sign(&q);
     double order = strtod_i(q, &p);
     if (q == p) {
-      // Error.
+      p = e;
     } else {
       double k = ipow(2, order);
       if (neg2)
@@ -126,11 +126,11 @@ double strtod(const char * restrict p_, char ** restrict pp) {
       result += frac;
     }
     if (tolower(*p) == 'e') {
-      const char *q = p + 1;
+      const char *e = p, *q = p + 1;
       bool neg2 = _parse_sign(&q);
       double order = strtod_i(q, &p);
       if (q == p) {
-        // Error.
+        p = e;
       } else {
         double k = ipow(10, order);
         if (neg2)
-- 
2.43.0


From d58a4fe5ab5aed534b894f424e3e5b5115936b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:37 +0000
Subject: [PATCH 047/170] fix: printf flags, width and precision, and exact
 conversion of floating point

---
 libsrc/stdio/vfprintf.c | 526 +++++++++++++++++++++-------------------
 1 file changed, 277 insertions(+), 249 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 177faa9..f933ae0 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -12,19 +12,11 @@
 
 #define PRINTF_BUFSIZ  (32)
 #define MIN(a, b)  ((a) < (b) ? (a) : (b))
-#define SIGN(p)  ((p) ? '+' : '-')
 #define STATIC_ASSERT(cond)  char __dummy[(cond) ? 0 : -1]; (void)__dummy
 
 static const char kHexDigits[] = "0123456789abcdef";
 static const char kUpperHexDigits[] = "0123456789ABCDEF";
 
-static int putnstr(FILE *fp, int n, const char *s) {
-  int i;
-  for (i = 0; i < n && s[i] != '\0'; ++i)
-    ;
-  return fwrite(s, 1, i, fp);
-}
-
 static void putpadding(FILE *fp, int m, char padding) {
   if (m <= 0)
     return;
@@ -38,25 +30,6 @@ static void putpadding(FILE *fp, int m, char padding) {
   } while (m > 0);
 }
 
-static int snprintullong(FILE *fp, unsigned long long x, int base, const char *digits, int order,
-                         int padding) {
-  char buf[32];
-  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
-  unsigned int i = 0, o = 0;
-
-  do {
-    buf[sizeof(buf) - (++i)] = digits[x % base];
-    x /= base;
-  } while (x != 0);
-
-  if (i < (unsigned int)order) {
-    unsigned int d = (unsigned int)order - i;
-    putpadding(fp, d, padding);
-    o += d;
-  }
-  return o + fwrite(&buf[sizeof(buf) - i], 1, i, fp);
-}
-
 static char *snprintullong2(char *bufend, unsigned long long x, int base, const char *digits) {
   char *p = bufend;
   *(--p) = '\0';
@@ -67,146 +40,242 @@ static char *snprintullong2(char *bufend, unsigned long long x, int base, const
   return p;
 }
 
-static int snprintstr(FILE *fp, const char *s, int order, int suborder, bool leftalign,
-                      char padding) {
-  size_t len = strlen(s);
-  if (suborder > 0)
-    len = MIN(len, (unsigned int)suborder);
-  if (order <= 0 || len >= (unsigned int)order) {
-    putnstr(fp, len, s);
-    return len;
-  } else {
-    if (leftalign) {
-      putnstr(fp, len, s);
-      putpadding(fp, order - len, padding);
-    } else {
-      putpadding(fp, order - len, padding);
-      putnstr(fp, len, s);
-    }
-    return order;
+typedef struct {
+  bool leftalign, sign, space, zero, alt;
+  int width;
+  int precision;  // Negative: not specified.
+} Spec;
+
+// Put prefix (sign or "0x"), zeros and body with padding.
+static int putfield(FILE *fp, const Spec *spec, const char *prefix, int zeros, const char *body,
+                    size_t len, bool zeropad) {
+  size_t plen = strlen(prefix);
+  int rest = spec->width - (int)(plen + zeros + len);
+  if (rest < 0)
+    rest = 0;
+  int total = plen + zeros + len + rest;
+  if (!spec->leftalign) {
+    if (zeropad && spec->zero)
+      zeros += rest;
+    else
+      putpadding(fp, rest, ' ');
+    rest = 0;
   }
+  fwrite(prefix, 1, plen, fp);
+  putpadding(fp, zeros, '0');
+  fwrite(body, 1, len, fp);
+  putpadding(fp, rest, ' ');
+  return total;
 }
 
-static int sprintsign(FILE *fp, bool negative, bool force, int *porder) {
-  int o = 0;
-  if (negative) {
-    _fputc('-', fp);
-    ++o;
-  } else if (force) {
-    _fputc('+', fp);
-    ++o;
-  }
-  if (*porder > 1 && o > 0)
-    *porder -= o;
-  return o;
+static const char *signstr(bool negative, const Spec *spec) {
+  return negative ? "-" : spec->sign ? "+" : spec->space ? " " : "";
+}
+
+static int printint(FILE *fp, const Spec *spec, unsigned long long x, const char *prefix, int base,
+                    const char *digits) {
+  char buf[PRINTF_BUFSIZ];
+  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3 + 1);
+  char *end = buf + sizeof(buf);
+  char *p = snprintullong2(end, x, base, digits);
+  int len = end - 1 - p;
+  if (x == 0 && spec->precision == 0)
+    len = 0;
+  int zeros = spec->precision > len ? spec->precision - len : 0;
+  if (spec->alt && base == 8 && zeros == 0 && (len == 0 || *p != '0'))
+    zeros = 1;
+  return putfield(fp, spec, prefix, zeros, p, len, spec->precision < 0);
 }
 
 #ifndef __NO_FLONUM
 #include "math.h"  // isfinite, signbit
+#include "../math/_ieee.h"
 
-static long double pow10(int order) {
-  long double a = 1, x = 10;
-  for (; order > 0; order >>= 1) {
-    if ((order & 1) != 0)
-      a *= x;
-    x *= x;
-  }
-  return a;
-}
+#define MAX_DIGITS  (800)  // Non-zero digits of double: up to 767.
+#define LIMB_BASE   (1000000000)
 
-static int printnonfinite(FILE *fp, long double x, int order, int suborder, bool sign,
-                          bool leftalign) {
-  int o = sprintsign(fp, signbit(x), sign, &order);
-  return o + snprintstr(fp, isnan(x) ? "nan" : "inf", order, suborder, leftalign, ' ');
-}
+// Get all decimal digits of non-negative `x`: 0.ddd * 10**point, where ddd is digits of the result.
+static int decimal_digits(double x, char *digits, int *point) {
+  union { double d; uint64_t q; } u = {.d = x};
+  uint64_t m = u.q & FRAC_MASK;
+  int exp = GET_BIASED_EXPO(u.q);
+  if (exp > 0)
+    m |= FRAC_MASK + 1;
+  else
+    exp = 1;  // Subnormal.
+  exp -= EXPO_BIAS + 1 + FRAC_BIT;
+  for (; m != 0 && (m & 1) == 0; m >>= 1)
+    ++exp;
+  *point = 0;
+  if (m == 0)
+    return 0;
 
-static int printfloat(FILE *fp, long double x, int order, int suborder, bool sign, bool leftalign,
-                      char padding) {
-  if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
-
-  bool neg = signbit(x);
-  if (neg)
-    x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
+  // x = m * 2**exp = m * 5**-exp / 10**-exp
+  uint32_t limbs[MAX_DIGITS / 9];
+  int n = 0;
+  for (; m > 0; m /= LIMB_BASE)
+    limbs[n++] = m % LIMB_BASE;
+  const uint32_t base = exp >= 0 ? 2 : 5;
+  for (int i = exp >= 0 ? exp : -exp; i > 0; ) {
+    uint32_t mul = 1;
+    for (int j = 0; j < 12 && i > 0; ++j, --i)
+      mul *= base;
+    uint64_t carry = 0;
+    for (int j = 0; j < n; ++j) {
+      carry += (uint64_t)limbs[j] * mul;
+      limbs[j] = carry % LIMB_BASE;
+      carry /= LIMB_BASE;
+    }
+    if (carry > 0)
+      limbs[n++] = carry;
+  }
 
-  unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
-  long double one = pow10(suborder);
-  unsigned long long fraction = (x - int_part) * one + 0.5;
-  if (fraction >= one) {
-    ++int_part;
-    fraction -= one;
+  char *p = digits;
+  for (int i = n; --i >= 0; p += 9) {
+    for (int j = 9; --j >= 0; limbs[i] /= 10)
+      p[j] = '0' + limbs[i] % 10;
   }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  _fputc('.', fp); ++o;
-  o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
-  return o;
+  int len = p - digits, skip = 0;
+  while (digits[skip] == '0')
+    ++skip;
+  len -= skip;
+  memmove(digits, digits + skip, len);
+  *point = exp >= 0 ? len : len + exp;
+  return len;
 }
 
-static int normalize_float(long double *px) {
-  long double x = *px;
-  int exp = 0;
-  if (x >= 1e6) {
-    do {
-      x /= 10;
-      ++exp;
-    } while (x >= 10);
+// Round to `keep` digits (half to even).
+static int round_digits(char *digits, int len, int keep, int *point) {
+  if (keep >= len)
+    return len;
+  if (keep < 0)
+    return 0;
+  bool up = digits[keep] > '5';
+  if (digits[keep] == '5') {
+    up = keep > 0 && (digits[keep - 1] & 1) != 0;
+    for (int i = keep + 1; i < len && !up; ++i)
+      up = digits[i] != '0';
   }
-  if (x > 0 && x <= 1e-4) {
-    do {
-      x *= 10;
-      --exp;
-    } while (x < 1.0);
+  len = keep;
+  if (up) {
+    while (len > 0 && digits[len - 1] == '9')
+      --len;
+    if (len > 0) {
+      ++digits[len - 1];
+    } else {
+      digits[len++] = '1';
+      ++*point;
+    }
   }
-  *px = x;
-  return exp;
+  return len;
 }
 
-static int printscientific(FILE *fp, long double x, int order, int suborder, bool sign,
-                           bool leftalign, char padding) {
-  if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
+static int printnonfinite(FILE *fp, const Spec *spec, double x, bool upper) {
+  const char *s = isnan(x) ? (upper ? "NAN" : "nan") : (upper ? "INF" : "inf");
+  return putfield(fp, spec, signstr(signbit(x), spec), 0, s, 3, false);
+}
 
-  bool neg = signbit(x);
-  if (neg)
-    x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
+static int printfloat(FILE *fp, const Spec *spec, double x, int conv) {
+  bool upper = isupper(conv);
+  conv = tolower(conv);
+  if (!isfinite(x))
+    return printnonfinite(fp, spec, x, upper);
 
-  int e = normalize_float(&x);
-  unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
-  long double one = pow10(suborder);
-  unsigned long long fraction = (x - int_part) * one + 0.5;
-  if (fraction >= one) {
-    ++int_part;
-    fraction -= one;
-  }
-  while (fraction % 10 == 0 && suborder > 0) {
-    fraction /= 10;
-    --suborder;
+  const char *prefix = signstr(signbit(x), spec);
+  char digits[MAX_DIGITS];
+  int point;
+  int len = decimal_digits(fabs(x), digits, &point);
+  int prec = spec->precision < 0 ? 6 : spec->precision;
+  bool trim = false;
+  bool scientific = conv == 'e';
+  if (conv == 'g') {
+    if (prec == 0)
+      prec = 1;
+    trim = !spec->alt;
+    len = round_digits(digits, len, prec, &point);
+    int exp = len > 0 ? point - 1 : 0;
+    scientific = exp < -4 || exp >= prec;
+    prec -= scientific ? 1 : exp + 1;
+  } else {
+    len = round_digits(digits, len, scientific ? prec + 1 : point + prec, &point);
   }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  if (fraction != 0) {
-    _fputc('.', fp); ++o;
-    o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
+  int exp = len > 0 ? point - 1 : 0;
+  if (scientific)
+    point = 1;
+  else if (len == 0)
+    point = 0;
+  if (trim) {
+    while (len > 0 && digits[len - 1] == '0')
+      --len;
+    int frac = len - point;
+    if (prec > frac)
+      prec = frac > 0 ? frac : 0;
   }
 
-  if (e != 0) {
-    _fputc('e', fp); ++o;
-    o += sprintsign(fp, e < 0, true, &order);
-    e = e < 0 ? -e : e;
-    o += snprintullong(fp, e, 10, kHexDigits, 2, '0');
+  char suffix[8] = "";
+  int slen = 0;
+  if (scientific) {
+    int e = exp < 0 ? -exp : exp;
+    suffix[slen++] = upper ? 'E' : 'e';
+    suffix[slen++] = exp < 0 ? '-' : '+';
+    if (e >= 100)
+      suffix[slen++] = '0' + e / 100;
+    suffix[slen++] = '0' + e / 10 % 10;
+    suffix[slen++] = '0' + e % 10;
   }
-  return o;
+
+  bool dot = prec > 0 || spec->alt;
+  int intlen = point > 0 ? point : 1;
+  int total = strlen(prefix) + intlen + (dot ? 1 : 0) + prec + slen;
+  int rest = spec->width > total ? spec->width - total : 0;
+  bool zeropad = spec->zero && !spec->leftalign;
+  if (!spec->leftalign && !zeropad)
+    putpadding(fp, rest, ' ');
+  fwrite(prefix, 1, strlen(prefix), fp);
+  if (zeropad)
+    putpadding(fp, rest, '0');
+  if (point <= 0)
+    _fputc('0', fp);
+  for (int i = 0; i < point; ++i)
+    _fputc(i < len ? digits[i] : '0', fp);
+  if (dot)
+    _fputc('.', fp);
+  for (int i = point; i < point + prec; ++i)
+    _fputc(i >= 0 && i < len ? digits[i] : '0', fp);
+  fwrite(suffix, 1, slen, fp);
+  if (spec->leftalign)
+    putpadding(fp, rest, ' ');
+  return total + rest;
 }
 #endif
 
-int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
-  char buf[PRINTF_BUFSIZ];
-#define bufend  (buf + sizeof(buf))
-  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
+// Length modifiers.
+enum { LEN_INT, LEN_CHAR, LEN_SHORT, LEN_LONG, LEN_LLONG, LEN_SIZE, LEN_PTRDIFF };
+
+// va_list might be an array, so that its address as a parameter is not va_list*.
+#define SIGNED_ARG(ap, length, x)                         \
+  switch (length) {                                       \
+  case LEN_CHAR:     x = (signed char)va_arg(ap, int); break;  \
+  case LEN_SHORT:    x = (short)va_arg(ap, int); break;   \
+  case LEN_LONG:     x = va_arg(ap, long); break;         \
+  case LEN_LLONG:    x = va_arg(ap, long long); break;    \
+  case LEN_SIZE:     x = va_arg(ap, ssize_t); break;      \
+  case LEN_PTRDIFF:  x = va_arg(ap, ptrdiff_t); break;    \
+  default:           x = va_arg(ap, int); break;          \
+  }
+
+#define UNSIGNED_ARG(ap, length, x)                               \
+  switch (length) {                                               \
+  case LEN_CHAR:     x = (unsigned char)va_arg(ap, unsigned int); break;   \
+  case LEN_SHORT:    x = (unsigned short)va_arg(ap, unsigned int); break;  \
+  case LEN_LONG:     x = va_arg(ap, unsigned long); break;        \
+  case LEN_LLONG:    x = va_arg(ap, unsigned long long); break;   \
+  case LEN_SIZE:     x = va_arg(ap, size_t); break;               \
+  case LEN_PTRDIFF:  x = (size_t)va_arg(ap, ptrdiff_t); break;    \
+  default:           x = va_arg(ap, unsigned int); break;         \
+  }
 
+int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
   const unsigned char *fmt = (const unsigned char*)fmt_;
   int c, i;
   int o;
@@ -220,157 +289,114 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
     }
 
     // Handle '%'
-    char padding = ' ';
-    int order = 0, suborder = 0;
-    bool sign = false;
-    bool leftalign = false;
-    bool sizez = false;
-    int nlong = 0;
-    c = fmt[++i];
-
-    if (c == '+') {
-      sign = true;
-      c = fmt[++i];
-    } else if (c == '-') {
-      leftalign = true;
-      c = fmt[++i];
-    }
-    if (c == '0') {
-      padding = '0';
+    Spec spec = {.precision = -1};
+    for (;;) {
       c = fmt[++i];
+      if (c == '-')
+        spec.leftalign = true;
+      else if (c == '+')
+        spec.sign = true;
+      else if (c == ' ')
+        spec.space = true;
+      else if (c == '0')
+        spec.zero = true;
+      else if (c == '#')
+        spec.alt = true;
+      else
+        break;
     }
-    if (c >= '1' && c <= '9') {
-      order = c - '0';
-      while (c = fmt[++i], c >= '0' && c <= '9')
-        order = order * 10 + (c - '0');
-    } else if (c == '*') {
-      order = va_arg(ap, int);
+    if (c == '*') {
+      spec.width = va_arg(ap, int);
+      if (spec.width < 0) {
+        spec.leftalign = true;
+        spec.width = -spec.width;
+      }
       c = fmt[++i];
+    } else {
+      for (; isdigit(c); c = fmt[++i])
+        spec.width = spec.width * 10 + (c - '0');
     }
     if (c == '.') {
       c = fmt[++i];
-      if (isdigit(c)) {
-        do {
-          suborder = suborder * 10 + (c - '0');
-        } while (isdigit(c = fmt[++i]));
-      } else if (c == '*') {
-        suborder = va_arg(ap, int);
+      if (c == '*') {
+        spec.precision = va_arg(ap, int);
         c = fmt[++i];
+      } else {
+        for (spec.precision = 0; isdigit(c); c = fmt[++i])
+          spec.precision = spec.precision * 10 + (c - '0');
       }
     }
 
-    if (tolower(c) == 'l') {
-      nlong = 1;
-      c = fmt[++i];
-      if (tolower(c) == 'l') {
-        nlong = 2;
+    int length = LEN_INT;
+    bool ldouble = false;
+    switch (c) {
+    case 'h':
+      length = LEN_SHORT;
+      if ((c = fmt[++i]) == 'h') {
+        length = LEN_CHAR;
         c = fmt[++i];
       }
-    } else if (c == 'z') {
-      sizez = true;
-      c = fmt[++i];
+      break;
+    case 'l':
+      length = LEN_LONG;
+      if ((c = fmt[++i]) == 'l') {
+        length = LEN_LLONG;
+        c = fmt[++i];
+      }
+      break;
+    case 'L':  ldouble = true; c = fmt[++i]; break;
+    case 'j':  length = LEN_LLONG; c = fmt[++i]; break;
+    case 'z':  length = LEN_SIZE; c = fmt[++i]; break;
+    case 't':  length = LEN_PTRDIFF; c = fmt[++i]; break;
+    default:  break;
     }
 
     switch (c) {
-    case 'd':
+    case 'd': case 'i':
       {
         long long x;
-        if (sizez) {
-          x = va_arg(ap, ssize_t);
-        } else {
-          switch (nlong) {
-          case 0:  x = va_arg(ap, int); break;
-          case 1:  x = va_arg(ap, long); break;
-          default: x = va_arg(ap, long long); break;  // case 2:
-          }
-        }
+        SIGNED_ARG(ap, length, x);
         bool negative = x < 0;
-        unsigned long long ux = negative ? -x : x;
-        if (negative || order > 0 || sign)
-          o += sprintsign(fp, negative, sign, &order);
-        char *p = snprintullong2(bufend, ux, 10, kHexDigits);
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
-      }
-      break;
-    case 'u':
-      {
-        unsigned long long x;
-        if (sizez) {
-          x = va_arg(ap, size_t);
-        } else {
-          switch (nlong) {
-          case 0:  x = va_arg(ap, unsigned int); break;
-          case 1:  x = va_arg(ap, unsigned long); break;
-          default: x = va_arg(ap, unsigned long long); break;  // case 2:
-          }
-        }
-        char *p = snprintullong2(bufend, x, 10, kHexDigits);
-        if (sign)
-          *(--p) = '+';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        unsigned long long ux = negative ? -(unsigned long long)x : (unsigned long long)x;
+        o += printint(fp, &spec, ux, signstr(negative, &spec), 10, kHexDigits);
       }
       break;
-    case 'x': case 'X':
+    case 'u': case 'o': case 'x': case 'X':
       {
-        const char *digits = c == 'x' ? kHexDigits : kUpperHexDigits;
         unsigned long long x;
-        if (sizez) {
-          x = va_arg(ap, size_t);
-        } else {
-          switch (nlong) {
-          case 0:  x = va_arg(ap, unsigned int); break;
-          case 1:  x = va_arg(ap, unsigned long); break;
-          default: x = va_arg(ap, unsigned long long); break;  // case 2:
-          }
-        }
-        o += snprintullong(fp, x, 16, digits, order, padding);
+        UNSIGNED_ARG(ap, length, x);
+        int base = c == 'u' ? 10 : c == 'o' ? 8 : 16;
+        const char *prefix = !spec.alt || x == 0 || base != 16 ? "" : c == 'x' ? "0x" : "0X";
+        o += printint(fp, &spec, x, prefix, base, c == 'X' ? kUpperHexDigits : kHexDigits);
       }
       break;
     case 'p':
-      {
-        void *ptr = va_arg(ap, void*);
-        char *p = snprintullong2(bufend, (uintptr_t)ptr, 16, kHexDigits);
-        p -= 2;
-        p[0] = '0';
-        p[1] = 'x';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
-      }
+      o += printint(fp, &spec, (uintptr_t)va_arg(ap, void*), "0x", 16, kHexDigits);
       break;
     case 's':
       {
         const char *s = va_arg(ap, const char*);
         if (s == NULL)
           s = "(null)";
-        o += snprintstr(fp, s, order, suborder, leftalign, ' ');
+        size_t len = spec.precision >= 0 ? strnlen(s, spec.precision) : strlen(s);
+        o += putfield(fp, &spec, "", 0, s, len, false);
       }
       break;
     case 'c':
-      _fputc(va_arg(ap, unsigned int), fp);
-      ++o;
+      {
+        char ch = va_arg(ap, int);
+        o += putfield(fp, &spec, "", 0, &ch, 1, false);
+      }
       break;
     case '%':
       _fputc(c, fp);
       ++o;
       break;
 #ifndef __NO_FLONUM
-    case 'f':
-      {
-        long double x;
-        switch (nlong) {
-        case 0:  x = va_arg(ap, double); break;
-        default: x = va_arg(ap, long double); break;
-        }
-        o += printfloat(fp, x, order, suborder, sign, leftalign, padding);
-      }
-      break;
-    case 'g':
+    case 'e': case 'E': case 'f': case 'F': case 'g': case 'G':
       {
-        long double x;
-        switch (nlong) {
-        case 0:  x = va_arg(ap, double); break;
-        default: x = va_arg(ap, long double); break;
-        }
-        o += printscientific(fp, x, order, suborder, sign, leftalign, padding);
+        double x = ldouble ? (double)va_arg(ap, long double) : va_arg(ap, double);
+        o += printfloat(fp, &spec, x, c);
       }
       break;
 #endif
@@ -381,6 +407,8 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
       if (c != '\0') {
         _fputc(c, fp);
         ++o;
+      } else {
+        --i;
       }
       break;
     }
-- 
2.43.0


From 1705a7c45d977c474faeb896fb014b533a0ecdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:27 +0000
Subject: [PATCH 048/170] fix: open_memstream gives an empty string when
 nothing is written

---
 libsrc/stdio/open_memstream.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libsrc/stdio/open_memstream.c b/libsrc/stdio/open_memstream.c
index 3572977..7701b82 100644
--- a/libsrc/stdio/open_memstream.c
+++ b/libsrc/stdio/open_memstream.c
@@ -25,9 +25,15 @@ static int _memflush2(FILE *fp) {
 }
 
 FILE *open_memstream(char **ptr, size_t *sizeloc) {
+  const size_t INITIAL_CAPA = 16;
   MEMFILE *fp = calloc(1, sizeof(*fp));
   if (fp != NULL) {
-    _fmemopen2(NULL, 0, "w", &fp->file);
+    char *buf = malloc(INITIAL_CAPA);  // Not null, even if nothing is written.
+    if (buf == NULL) {
+      free(fp);
+      return NULL;
+    }
+    _fmemopen2(buf, INITIAL_CAPA, "w", &fp->file);
     fp->file.flush = _memflush2;
     fp->file.flag |= FF_GROWMEM;
     fp->pmem = ptr;
-- 
2.43.0


From d3043da949a480b1aef9ae9449daa6c1c03847c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:40 +0000
Subject: [PATCH 049/170] fix: floor and ceil of subnormals, round next to a
 half, signed zeros of ceil, round and modf

---
 libsrc/math/ceil.c  | 4 ++--
 libsrc/math/floor.c | 2 +-
 libsrc/math/modf.c  | 4 ++--
 libsrc/math/round.c | 8 +++++++-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/libsrc/math/ceil.c b/libsrc/math/ceil.c
index a064cdb..943cec8 100644
--- a/libsrc/math/ceil.c
+++ b/libsrc/math/ceil.c
@@ -15,9 +15,9 @@ double ceil(double x) {
 #else
   int64_t q = *(int64_t*)&x;
   int e = GET_BIASED_EXPO(q);
-  if (e <= EXPO_BIAS + FRAC_BIT && e != 0) {
+  if (e <= EXPO_BIAS + FRAC_BIT && x != 0) {
     if (e <= EXPO_BIAS)
-      return q > 0 ? 1.0 : 0.0;
+      return q > 0 ? 1.0 : -0.0;
 
     int64_t one = (int64_t)1 << ((EXPO_BIAS + FRAC_BIT + 1) - e);
     if (q < 0) {
diff --git a/libsrc/math/floor.c b/libsrc/math/floor.c
index 3bca1e9..7d25aec 100644
--- a/libsrc/math/floor.c
+++ b/libsrc/math/floor.c
@@ -15,7 +15,7 @@ double floor(double x) {
 #else
   int64_t q = *(int64_t*)&x;
   int e = GET_BIASED_EXPO(q);
-  if (e <= EXPO_BIAS + FRAC_BIT && e != 0) {
+  if (e <= EXPO_BIAS + FRAC_BIT && x != 0) {
     if (e <= EXPO_BIAS)
       return q >= 0 ? 0.0 : -1.0;
 
diff --git a/libsrc/math/modf.c b/libsrc/math/modf.c
index 07db9b4..4067b93 100644
--- a/libsrc/math/modf.c
+++ b/libsrc/math/modf.c
@@ -4,11 +4,11 @@
 double modf(double x, double *pint) {
   if (!isfinite(x)) {
     *pint = x;
-    return isnan(x) ? x : 0.0;
+    return isnan(x) ? x : copysign(0.0, x);
   }
 
   double i = x >= 0 ? floor(x) : ceil(x);
   *pint = i;
-  return x - i;
+  return copysign(x - i, x);
 }
 #endif
diff --git a/libsrc/math/round.c b/libsrc/math/round.c
index 1461ac9..7611abc 100644
--- a/libsrc/math/round.c
+++ b/libsrc/math/round.c
@@ -4,6 +4,12 @@
 
 #ifndef __NO_FLONUM
 double round(double x) {
-  return x >= 0 ? floor(x + 0.5) : ceil(x - 0.5);
+  double i;
+  double frac = modf(x, &i);
+  if (frac >= 0.5)
+    i += 1;
+  else if (frac <= -0.5)
+    i -= 1;
+  return copysign(i, x);
 }
 #endif
-- 
2.43.0


From b6da0411cb79b07ba03509259ea186b76635926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:40 +0000
Subject: [PATCH 050/170] fix: frexp and ldexp of subnormal numbers

---
 libsrc/math/frexp.c |  5 +++++
 libsrc/math/ldexp.c | 11 +++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/libsrc/math/frexp.c b/libsrc/math/frexp.c
index 1884985..45413b7 100644
--- a/libsrc/math/frexp.c
+++ b/libsrc/math/frexp.c
@@ -9,6 +9,11 @@ double frexp(double x, int *p) {
     return x;
   }
   int64_t q = *(int64_t*)&x;
+  if (GET_BIASED_EXPO(q) == 0) {  // Subnormal.
+    x = frexp(x * ((int64_t)1 << FRAC_BIT), p);
+    *p -= FRAC_BIT;
+    return x;
+  }
   *p = GET_EXPO(q);
   int64_t r = (q & (FRAC_MASK | SIGN_MASK)) | ((int64_t)EXPO_BIAS << EXPO_POS);
   return *(double*)&r;
diff --git a/libsrc/math/ldexp.c b/libsrc/math/ldexp.c
index 912dc18..fad4374 100644
--- a/libsrc/math/ldexp.c
+++ b/libsrc/math/ldexp.c
@@ -7,12 +7,15 @@ double ldexp(double x, int exp) {
   if (!isfinite(x) || x == 0) {
     return x;
   }
+  int e;
+  x = frexp(x, &e);
   int64_t q = *(int64_t*)&x;
-  exp += GET_BIASED_EXPO(q);
-  if (exp >= ((1 << EXPO_BIT) - 1))
+  if (exp > 4000 || (exp > -4000 && exp + e + EXPO_BIAS >= ((1 << EXPO_BIT) - 1)))
     return x < 0 ? -HUGE_VAL : HUGE_VAL;
-  else if (exp < 0)
-    return 0;
+  if (exp < -4000 || (exp += e + EXPO_BIAS) <= -FRAC_BIT - 2)
+    return copysign(0.0, x);
+  if (exp <= 0)  // Subnormal: rounded once.
+    return ldexp(x, exp + FRAC_BIT - EXPO_BIAS) * (1.0 / ((int64_t)1 << FRAC_BIT));
   int64_t r = (q & (FRAC_MASK | SIGN_MASK)) | ((int64_t)exp << EXPO_POS);
   return *(double*)&r;
 }
-- 
2.43.0


From 0f8cc6d5f82b673506c3745edde3354fdbabf5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 051/170] fix: pow of a negative or zero base with an integer
 exponent, and of small bases

---
 libsrc/math/pow.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libsrc/math/pow.c b/libsrc/math/pow.c
index db840eb..4b537b7 100644
--- a/libsrc/math/pow.c
+++ b/libsrc/math/pow.c
@@ -6,14 +6,7 @@ double pow(double base, double x) {
   bool neg = x < 0;
   x = fabs(x);
   unsigned int n = x;  // TODO: Care about overflow
-  double r = (x - n) * log(base);
-
-  double result = 1;
-  double y = 1;
-  for (int i = 1; i <= 15; ++i) {
-    y *= r / i;
-    result += y;
-  }
+  double result = x == n ? 1.0 : exp((x - n) * log(base));
 
   double poe = base;
   for (; n > 0; n >>= 1, poe *= poe) {
-- 
2.43.0


From e56609c204020b06c0043eefa7e391f15a708117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:10 +0000
Subject: [PATCH 052/170] fix: isnan and isinf of signalling NaNs

---
 libsrc/math/_ieee.h | 2 --
 libsrc/math/isinf.c | 2 +-
 libsrc/math/isnan.c | 2 +-
 3 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/libsrc/math/_ieee.h b/libsrc/math/_ieee.h
index c918995..973265e 100644
--- a/libsrc/math/_ieee.h
+++ b/libsrc/math/_ieee.h
@@ -14,7 +14,5 @@
 #define EXPO_MASK  ((((int64_t)1 << EXPO_BIT) - 1) << EXPO_POS)
 #define SIGN_MASK  ((int64_t)1 << SIGN_POS)
 
-#define NAN_MASK   ((((int64_t)1 << (EXPO_BIT + 1)) - 1) << (EXPO_POS - 1))
-
 #define GET_EXPO(hex)         (GET_BIASED_EXPO(hex) - EXPO_BIAS)
 #define GET_BIASED_EXPO(hex)  (((int)((hex) >> EXPO_POS)) & ((1 << EXPO_BIT) - 1))
diff --git a/libsrc/math/isinf.c b/libsrc/math/isinf.c
index 329c407..f69f2ef 100644
--- a/libsrc/math/isinf.c
+++ b/libsrc/math/isinf.c
@@ -8,6 +8,6 @@ extern inline int isinf(double x);
 int __isinf(double x) {
   union { double d; int64_t q; } u;
   u.d = x;
-  return (u.q & NAN_MASK) == EXPO_MASK;
+  return (u.q & (EXPO_MASK | FRAC_MASK)) == EXPO_MASK;
 }
 #endif
diff --git a/libsrc/math/isnan.c b/libsrc/math/isnan.c
index fc05fb1..35b73a8 100644
--- a/libsrc/math/isnan.c
+++ b/libsrc/math/isnan.c
@@ -8,6 +8,6 @@ extern inline int isnan(double x);
 int __isnan(double x) {
   union { double d; int64_t q; } u;
   u.d = x;
-  return (u.q & NAN_MASK) == NAN_MASK;
+  return (u.q & EXPO_MASK) == EXPO_MASK && (u.q & FRAC_MASK) != 0;
 }
 #endif
-- 
2.43.0


From e63a135d382076d7b6b9ccbb834935e3ae332968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:12 +0000
Subject: [PATCH 053/170] fix: empty arguments of macros with one parameter or
 none

---
 src/cpp/macro.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 793fcc8..831e6e8 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -380,6 +380,11 @@ void macro_expand(Vector *tokens) {
       if (args != NULL) {
         int count = macro->params_len +
                     (macro->vaargs_ident != NULL);  // variadic argument is concatenated.
+        if (args->len == 0 && count == 1) {  // `M()': One empty argument.
+          vec_push(args, new_vector());
+        } else if (args->len == 1 && count == 0 && ((Vector*)args->data[0])->len == 0) {
+          vec_pop(args);  // `M( )': No argument.
+        }
         if (count != args->len) {
           const char *cmp = args->len > count ? "many" : "few";
           pp_parse_error(tok, "Too %s arguments for macro `%.*s'", cmp, NAMES(tok->ident));
-- 
2.43.0


From e68f00dfff95e844cd00d902e1b91443ed07fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:01 +0000
Subject: [PATCH 054/170] fix: macro hide sets are not shared among the
 expansions of a macro

---
 src/cpp/macro.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 831e6e8..8678d2f 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -176,13 +176,13 @@ static void hsadd(HideSet *hs, Vector *ts) {
   for (int i = 0; i < ts->len; ++i) {
     const Token *tok = ts->data[i];
     if (tok->kind == TK_IDENT || tok->kind == TK_RPAR) {
-      HideSet *h = get_hideset(tok);
-      if (h == NULL) {
-        h = clone_hideset(hs);
-        set_token_hideset(tok, h);
-      } else {
-        union_hideset(h, hs);
-      }
+      // A token in a macro body is shared among its expansions, so put the hideset on a copy.
+      Token *copied = malloc_or_die(sizeof(*copied));
+      *copied = *tok;
+      HideSet *h = clone_hideset(get_hideset(tok));
+      union_hideset(h, hs);
+      set_token_hideset(copied, h);
+      ts->data[i] = copied;
     }
   }
 }
-- 
2.43.0


From 67dc75c8c3dc0cd3d50321593a2f073c6f6eae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:55 +0000
Subject: [PATCH 055/170] fix: preprocessor output keeps tokens apart, and an
 argument is expanded by itself

---
 src/cpp/macro.c        | 11 ++++++--
 src/cpp/pp_parser.c    | 12 +++++----
 src/cpp/pp_parser.h    |  2 +-
 src/cpp/preprocessor.c | 60 +++++++++++++++++++++++++++++++++++++++---
 4 files changed, 73 insertions(+), 12 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 8678d2f..ceb38d4 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -187,6 +187,8 @@ static void hsadd(HideSet *hs, Vector *ts) {
   }
 }
 
+static void macro_expand_tokens(Vector *tokens, bool fetch);
+
 static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
   Vector *os = new_vector();
   Vector *body = macro->body;
@@ -278,7 +280,7 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
             Vector *arg = args->data[j];
             expanded = new_vector();
             vec_concat(expanded, arg);
-            macro_expand(expanded);
+            macro_expand_tokens(expanded, false);
             expanded_args[j] = expanded;
           }
           vec_concat(os, expanded);
@@ -357,6 +359,11 @@ void macro_delete(const Name *name) {
 }
 
 void macro_expand(Vector *tokens) {
+  macro_expand_tokens(tokens, true);
+}
+
+// fetch: Can arguments be continued from the source?
+static void macro_expand_tokens(Vector *tokens, bool fetch) {
   for (int i = 0; i < tokens->len; ++i) {
     const Token *tok = tokens->data[i];
     if (tok->kind != TK_IDENT)
@@ -376,7 +383,7 @@ void macro_expand(Vector *tokens) {
       replaced = subst(macro, NULL, NULL, hs);
     } else {  // "()'d macro"
       Vector *args = pp_funargs(tokens, &next,
-                                macro->vaargs_ident != NULL ? macro->params_len : INT_MAX);
+                                macro->vaargs_ident != NULL ? macro->params_len : INT_MAX, fetch);
       if (args != NULL) {
         int count = macro->params_len +
                     (macro->vaargs_ident != NULL);  // variadic argument is concatenated.
diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index a5651ee..9438793 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -166,7 +166,7 @@ static Token *match2(enum TokenKind kind) {
   return pp_match(kind);
 }
 
-static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
+static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex, bool fetch) {
   int index = *pindex;
   Token *tok;
   if (index < tokens->len) {
@@ -175,6 +175,8 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
       ++index;
     else
       tok = NULL;
+  } else if (!fetch) {
+    tok = NULL;
   } else {
     tok = match2(kind);
     if (tok != NULL && tok->kind != TK_EOF) {
@@ -186,11 +188,11 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
   return tok;
 }
 
-Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
+Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch) {
   Vector *args = NULL;
-  while (match3(PPTK_SPACE, tokens, pindex))
+  while (match3(PPTK_SPACE, tokens, pindex, fetch))
     ;
-  if (match3(TK_LPAR, tokens, pindex)) {
+  if (match3(TK_LPAR, tokens, pindex, fetch)) {
     args = new_vector();
     Vector *arg = NULL;
     int paren = 0;
@@ -199,7 +201,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
     for (;;) {
       const char *start = get_lex_p();
       bool fetched = *pindex >= tokens->len;
-      Token *tok = match3(-1, tokens, pindex);
+      Token *tok = match3(-1, tokens, pindex, fetch);
       if (tok == NULL /*|| tok->kind == TK_EOF*/) {
         pp_parse_error(NULL, "`)' expected");
       }
diff --git a/src/cpp/pp_parser.h b/src/cpp/pp_parser.h
index 580020a..4c5d27f 100644
--- a/src/cpp/pp_parser.h
+++ b/src/cpp/pp_parser.h
@@ -18,7 +18,7 @@ typedef struct {
 
 Stream *set_pp_stream(Stream *stream);
 PpResult pp_expr(void);
-Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg);  // <Vector*<Token*>>
+Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch);  // <Vector*<Token*>>
 
 Token *pp_match(enum TokenKind kind);
 Token *pp_consume(enum TokenKind kind, const char *error);
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 174ec2e..695bf28 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -41,6 +41,7 @@ typedef struct PreprocessFile {
 } PreprocessFile;
 
 static PreprocessFile *curpf;
+static bool expanding;  // Is a macro in a line being expanded?
 
 #define OUTPUT_PPLINE(...)  do { fprintf(pp_ofp, __VA_ARGS__); ++curpf->out_lineno; } while (0)
 #define OUTPUT_COMMENT(...)  do { if (preserve_comment) OUTPUT_PPLINE(__VA_ARGS__); } while (0)
@@ -134,12 +135,30 @@ static bool handle_block_comment(const char **pp, Stream *stream) {
   return true;
 }
 
+// Do adjacent characters of two tokens make another token?
+static bool is_pasted(char prev, char next) {
+  if (isalnum_(prev) && (isalnum_(next) || next == '"' || next == '\''))
+    return true;
+  switch (next) {
+  case '=':  return prev != '\0' && strchr("+-*/%&|^<>=!", prev) != NULL;
+  case '+': case '-':  // `1e' followed by a sign.
+    return prev == next || prev == 'e' || prev == 'E' || prev == 'p' || prev == 'P';
+  case '<': case '&': case '|': case '#': case '/':
+    return prev == next;
+  case '>':  return prev == '>' || prev == '-';
+  case '*':  return prev == '/';
+  case '.':  return prev == '.' || isalnum_(prev);
+  default:   return isdigit(next) && prev == '.';
+  }
+}
+
 static void process_line(const char *line, Stream *stream) {
   set_source_string(line, stream->filename, stream->lineno);
 
   const char *begin = get_lex_p();
 
   const Name *defined = alloc_name("defined", NULL, false);
+  char prev = '\0';  // Last output character.
   for (;;) {
     const char *p = get_lex_p();
     if (p != NULL) {
@@ -147,10 +166,15 @@ static void process_line(const char *line, Stream *stream) {
       if (begin < p) {
         OUTPUT_PPLINE("%.*s", (int)(p - begin), begin);
         --curpf->out_lineno;
+        prev = p[-1];
         begin = p;
       }
 
       if (handle_block_comment(&p, stream)) {
+        if (!preserve_comment) {  // A comment is replaced with a space.
+          fputc(' ', pp_ofp);
+          prev = ' ';
+        }
         begin = p;
         set_source_string(begin, stream->filename, stream->lineno);
         continue;
@@ -178,21 +202,36 @@ static void process_line(const char *line, Stream *stream) {
 
         Vector *tokens = new_vector();
         vec_push(tokens, ident);
+        bool bak_expanding = expanding;
+        expanding = true;
         macro_expand(tokens);
+        expanding = bak_expanding;
 
-        if (ident->begin != p)
+        if (ident->begin != p) {
           fwrite(p, ident->begin - p, 1, pp_ofp);
+          prev = ident->begin[-1];
+        }
 
         // Everything should have been expanded, so output
         for (int i = 0; i < tokens->len; ++i) {
           const Token *tok = tokens->data[i];
+          if (tok->end == tok->begin) {
+            if (tok->kind == PPTK_SPACE)  // A comment in the macro body was removed.
+              prev = '\0';
+            continue;
+          }
+          if (is_pasted(prev, *tok->begin))
+            fputc(' ', pp_ofp);
           fwrite(tok->begin, tok->end - tok->begin, 1, pp_ofp);
+          prev = tok->end[-1];
         }
-        if (macro->params_len >= 0) {
+        const char *next = get_lex_p();
+        if (macro->params_len >= 0 || next == NULL || next != begin || is_pasted(prev, *next)) {
           // Put whitespace to avoid unexpected concatenation.
           fputc(' ', pp_ofp);
+          prev = ' ';
         }
-        begin = get_lex_p();
+        begin = next;
       }
       continue;
     }
@@ -436,12 +475,16 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
   Vector *tokens = new_vector();
   set_source_string(p, stream == NULL ? "?" : stream->filename,
                     stream == NULL ? 0 : stream->lineno);
-  Token *tok_space = NULL;
+  Token *tok_space = NULL, *tok_removed = NULL, *last = NULL;
   bool need_space = false;
+  bool removed = false;
   for (;;) {
     const char *start = get_lex_p();
     const char *q = block_comment_start(start);
     if (q != NULL) {
+      if (q != start)
+        need_space = true;
+      removed = true;
       const char *comment_start = q;
       q += 2;
       for (;;) {
@@ -477,8 +520,15 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
         vec_push(tokens, tok_space);
       }
       need_space = false;
+    } else if (removed && last != NULL && last->kind != PPTK_CONCAT && last->kind != PPTK_STRINGIFY &&
+               tok->kind != PPTK_CONCAT) {
+      if (tok_removed == NULL)
+        tok_removed = alloc_token(PPTK_SPACE, NULL, "", NULL);
+      vec_push(tokens, tok_removed);
     }
+    removed = false;
     vec_push(tokens, tok);
+    last = tok;
 
     if (tok->kind == PPTK_CONCAT || tok->kind == PPTK_STRINGIFY) {
       // Ignore after space.
@@ -786,6 +836,8 @@ static void adjust_output_lineno(PreprocessFile *ppf) {
   int d = ppf->stream.lineno - ppf->out_lineno;
   if (d > 0) {
     if (d >= 5) {
+      if (expanding)  // In the middle of the line.
+        fputc('\n', pp_ofp);
       fprintf(pp_ofp, "# %d \"%s\"\n", ppf->stream.lineno, ppf->stream.filename);
     } else {
       for (int i = 0; i < d; ++i)
-- 
2.43.0


From c1b1728ce8d7d7fbeff7b16c9c0e4ae6a72c117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 056/170] fix: trailing spaces are not part of a macro argument

---
 src/cpp/pp_parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 9438793..3486320 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -188,6 +188,12 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex, bool fetc
   return tok;
 }
 
+static void push_arg(Vector *args, Vector *arg) {
+  while (arg->len > 0 && ((Token*)arg->data[arg->len - 1])->kind == PPTK_SPACE)
+    vec_pop(arg);  // Trailing spaces are not part of the argument.
+  vec_push(args, arg);
+}
+
 Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch) {
   Vector *args = NULL;
   while (match3(PPTK_SPACE, tokens, pindex, fetch))
@@ -218,7 +224,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch) {
         arg = new_vector();
 
       if (tok->kind == TK_COMMA && paren <= 0 && args->len < vaarg) {
-        vec_push(args, arg);
+        push_arg(args, arg);
         arg = new_vector();
         continue;
       }
@@ -234,7 +240,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool fetch) {
         vec_push(arg, tok);
     }
     if (arg != NULL)
-      vec_push(args, arg);
+      push_arg(args, arg);
 
     if (args->len == vaarg)
       vec_push(args, new_vector());
-- 
2.43.0


From ebfe33f7b5995682cf5508a06d2ec17c587c53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:09 +0000
Subject: [PATCH 057/170] fix: empty operands of ## in macros

---
 src/cpp/macro.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index ceb38d4..d6220e8 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -118,9 +118,16 @@ static void intersection_hideset(HideSet *hs, HideSet *hs2) {
   }
 }
 
+// Stands for an empty operand of `##'.
+static const Token placemarker = {.kind = PPTK_SPACE, .begin = "", .end = ""};
+
 static void glue1(Vector *ls, const Token *tok2) {
   if (ls->len > 0) {
     const Token *tok1 = ls->data[ls->len - 1];
+    if (tok1 == &placemarker) {
+      ls->data[ls->len - 1] = (void*)tok2;
+      return;
+    }
     // TODO: Check whether the concatenated is ident.
     size_t len1 = tok1->end - tok1->begin;
     size_t len2 = tok2->end - tok2->begin;
@@ -154,6 +161,8 @@ static Token *stringize(const Vector *arg) {
   sb_init(&sb);
   for (int i = 0; i < arg->len; ++i) {
     const Token *tok = arg->data[i];
+    if (tok->kind == PPTK_SPACE && i > 0 && ((Token*)arg->data[i - 1])->kind == PPTK_SPACE)
+      continue;  // Consecutive spaces become one.
     sb_append(&sb, tok->begin, tok->end);
   }
   const char *str = sb_to_string(&sb);
@@ -254,19 +263,11 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
         if (param_table != NULL && table_try_get(param_table, tok->ident, (void**)&j)) {
           assert(j < args->len);
           const Vector *arg = args->data[j];
-          if (arg->len == 0) {  // only if actuals can be empty
-            intptr_t k;
-            if (body->len > i + 2 && ((Token*)body->data[i + 2])->kind == TK_IDENT &&
-                table_try_get(param_table, ((Token*)body->data[i + 2])->ident, (void**)&k)) {
-              assert(k < args->len);
-              const Vector *arg2 = args->data[k];
-              vec_concat(os, arg2);
-            }
-            i += 2;
-          } else {
+          if (arg->len == 0)  // only if actuals can be empty
+            vec_push(os, &placemarker);
+          else
             vec_concat(os, arg);
-            // Handle `##` at next iteration.
-          }
+          // Handle `##` at next iteration.
           continue;
         }
       }
@@ -333,6 +334,10 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
 
     vec_push(os, tok);
   }
+  for (int i = os->len; --i >= 0; ) {
+    if (os->data[i] == &placemarker)
+      vec_remove_at(os, i);
+  }
   hsadd(hs, os);
   return os;
 }
-- 
2.43.0


From 8221e6fa904c477a8faefd1a412282df56127163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 058/170] fix: macro with variadic arguments and no argument,
 and the operand of , ##

---
 src/cpp/macro.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index d6220e8..802f564 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -324,7 +324,11 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
             i += 2;  // Argument is empty, so omit `,` and `##`.
             continue;
           }
-          ++i;  // Argument is not empty, so put `,` followed by the argument (omit `##`).
+          // Argument is not empty, so put `,` followed by the argument (omit `##`).
+          vec_push(os, tok);
+          vec_concat(os, arg);
+          i += 2;
+          continue;
         }
       }
       break;
@@ -392,8 +396,10 @@ static void macro_expand_tokens(Vector *tokens, bool fetch) {
       if (args != NULL) {
         int count = macro->params_len +
                     (macro->vaargs_ident != NULL);  // variadic argument is concatenated.
-        if (args->len == 0 && count == 1) {  // `M()': One empty argument.
-          vec_push(args, new_vector());
+        if (args->len == 0 && count > 0 && macro->params_len <= 1) {  // `M()': One empty argument.
+          do {
+            vec_push(args, new_vector());
+          } while (args->len < count);
         } else if (args->len == 1 && count == 0 && ((Vector*)args->data[0])->len == 0) {
           vec_pop(args);  // `M( )': No argument.
         }
-- 
2.43.0


From bed023dee9cba8361a6830e26ea40236d05a8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 059/170] fix: line markers of the preprocessor begin a line

---
 src/cpp/preprocessor.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 695bf28..3148069 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -180,7 +180,7 @@ static void process_line(const char *line, Stream *stream) {
         continue;
       }
       if (*p == '/' && p[1] == '/') {
-        OUTPUT_COMMENT("%s\n", p);
+        OUTPUT_PPLINE("%s\n", preserve_comment ? p : "");
         return;
       }
     }
@@ -239,8 +239,7 @@ static void process_line(const char *line, Stream *stream) {
     match(-1);
   }
 
-  if (begin != NULL)
-    OUTPUT_PPLINE("%s\n", begin);
+  OUTPUT_PPLINE("%s\n", begin != NULL ? begin : "");
 }
 
 // Preprocess one line and receive result into memory.
-- 
2.43.0


From 2f2a488f0aacdaa7069eedc4780e83603142e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:50 +0000
Subject: [PATCH 060/170] fix: preprocessor line numbers after comments and
 includes, skipped conditions, include_next and includes after #line

---
 src/cpp/preprocessor.c | 45 +++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 3148069..b738c3f 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -34,6 +34,7 @@ typedef struct PreprocessFile {
   Vector *condstack;
   Token *tok_lineno;
   Stream stream;
+  const char *path;  // File name, not affected by `#line'.
   bool enable;
   enum Satisfy satisfy;
   int out_lineno;
@@ -43,6 +44,11 @@ typedef struct PreprocessFile {
 static PreprocessFile *curpf;
 static bool expanding;  // Is a macro in a line being expanded?
 
+static void update_lineno(PreprocessFile *ppf) {
+  int ln = snprintf(ppf->linenobuf, sizeof(ppf->linenobuf), "%d", ppf->stream.lineno);
+  ppf->tok_lineno->end = ppf->tok_lineno->begin + ln;
+}
+
 #define OUTPUT_PPLINE(...)  do { fprintf(pp_ofp, __VA_ARGS__); ++curpf->out_lineno; } while (0)
 #define OUTPUT_COMMENT(...)  do { if (preserve_comment) OUTPUT_PPLINE(__VA_ARGS__); } while (0)
 
@@ -130,6 +136,7 @@ static bool handle_block_comment(const char **pp, Stream *stream) {
     if (len == -1) {
       lex_error(comment_start, "Block comment not closed");
     }
+    update_lineno(curpf);
     begin = p = line;
   }
   return true;
@@ -296,6 +303,17 @@ static void register_pragma_once(const char *filename) {
 //   result==NULL, *pfn!=NULL: Found, but blocked because of pragma once.
 //   result==NULL, *pfn==NULL: Not found.
 static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
+  if (prevdir != NULL) {  // Search from the first if the previous directory is not a search path.
+    bool found = false;
+    for (int ord = 0; ord < INC_ORDERS && !found; ++ord) {
+      Vector *v = &sys_inc_paths[ord];
+      for (int idx = 0; idx < v->len && !found; ++idx)
+        found = strcmp(fullpath(v->data[idx]), prevdir) == 0;
+    }
+    if (!found)
+      prevdir = NULL;
+  }
+
   for (int ord = 0; ord < INC_ORDERS; ++ord) {
     Vector *v = &sys_inc_paths[ord];
     for (int idx = 0; idx < v->len; ++idx) {
@@ -390,7 +408,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
   char *path = strndup(p, q - p);
   char *fn = NULL;
   FILE *fp = NULL;
-  char *dir = strdup(dirname(strdup(stream->filename)));
+  char *dir = strdup(dirname(strdup(curpf->path)));
   // Search from current directory.
   if (!is_next && !sys) {
     fn = cat_path_cwd(dir, path);
@@ -413,6 +431,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
 
   // Put linemarker to restore line and filename.
   fprintf(pp_ofp, "# %d \"%s\" 2\n", stream->lineno + 1, stream->filename);
+  curpf->out_lineno = stream->lineno;
 }
 
 static void handle_pragma(const char **pp, const char *filename) {
@@ -679,7 +698,7 @@ static bool handle_ifdef(const char **pp) {
   return macro_get(name) != NULL;
 }
 
-static bool handle_if(const char **pp, Stream *stream, bool enable) {
+static bool handle_if(const char **pp, Stream *stream) {
   size_t size;
   char *expanded = preprocess_one_line(*pp, stream, &size);
 
@@ -698,7 +717,7 @@ static bool handle_if(const char **pp, Stream *stream, bool enable) {
     result = pp_expr();
 
     const char *p = get_lex_p();
-    if (p != NULL && enable)
+    if (p != NULL)
       error("illegal expression");
 
     set_pp_stream(bak_stream);
@@ -751,17 +770,17 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   const char *next;
   if ((next = keyword(directive, "ifdef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
+    bool defined = ppf->enable && handle_ifdef(&next);
     ppf->satisfy = defined ? Satisfied : NotSatisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "ifndef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
+    bool defined = ppf->enable && handle_ifdef(&next);
     ppf->satisfy = defined ? NotSatisfied : Satisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "if")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool cond = handle_if(&next, &ppf->stream, ppf->enable);
+    bool cond = ppf->enable && handle_if(&next, &ppf->stream);  // Not evaluated in a skipped group.
     ppf->satisfy = cond ? Satisfied : NotSatisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "else")) != NULL) {
@@ -782,9 +801,8 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
       error("Illegal #elif");
 
     bool cond = false;
-    bool cond2 = handle_if(&next, &ppf->stream, ppf->enable);
-    if (ppf->satisfy == NotSatisfied) {
-      cond = cond2;
+    if (ppf->satisfy == NotSatisfied && (flag & CF_ENABLE) != 0) {
+      cond = handle_if(&next, &ppf->stream);
       if (cond)
         ppf->satisfy = Satisfied;
     }
@@ -799,7 +817,6 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   } else if (ppf->enable) {
     if ((next = keyword(directive, "include")) != NULL) {
       handle_include(next, &ppf->stream, false);
-      ++ppf->out_lineno;
       next = NULL;
     } else if ((next = keyword(directive, "include_next")) != NULL) {
       handle_include(next, &ppf->stream, true);
@@ -810,7 +827,7 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
     } else if ((next = keyword(directive, "undef")) != NULL) {
       handle_undef(&next);
     } else if ((next = keyword(directive, "pragma")) != NULL) {
-      handle_pragma(&next, ppf->stream.filename);
+      handle_pragma(&next, ppf->path);
     } else if ((next = keyword(directive, "error")) != NULL) {
       fprintf(stderr, "%s(%d): error\n", ppf->stream.filename, ppf->stream.lineno);
       error("%s", line);
@@ -837,7 +854,7 @@ static void adjust_output_lineno(PreprocessFile *ppf) {
     if (d >= 5) {
       if (expanding)  // In the middle of the line.
         fputc('\n', pp_ofp);
-      fprintf(pp_ofp, "# %d \"%s\"\n", ppf->stream.lineno, ppf->stream.filename);
+      fprintf(pp_ofp, "# %d \"%s\"\n", ppf->stream.lineno + 1, ppf->stream.filename);
     } else {
       for (int i = 0; i < d; ++i)
         fprintf(pp_ofp, "\n");
@@ -855,8 +872,7 @@ const char *get_processed_next_line(void) {
     if (len == -1)
       return NULL;
 
-    int ln = snprintf(ppf->linenobuf, sizeof(ppf->linenobuf), "%d", ppf->stream.lineno);
-    ppf->tok_lineno->end = ppf->tok_lineno->begin + ln;
+    update_lineno(ppf);
 
     const char *next = process_directive(ppf, line);
     if (next != NULL) {
@@ -876,6 +892,7 @@ void preprocess(FILE *fp, const char *filename) {
   PreprocessFile pf;
   pf.condstack = new_vector();
   pf.stream = (Stream){.filename = filename, .fp = fp, .lineno = 0};
+  pf.path = filename;
   pf.enable = true;
   pf.out_lineno = 0;
   pf.satisfy = NotSatisfied;
-- 
2.43.0


From bf7644a05dfc13a9d7c5120feeb6dfeb86f8fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:42 +0000
Subject: [PATCH 061/170] fix: parallel copies of phis are ordered correctly,
 and cycles are found apart from chains

---
 src/cc/backend/ssa.c | 87 ++++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 55 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index cd697c6..1631797 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -297,77 +297,54 @@ static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
 }
 
 static Vector *extract_cyclic_dependency(int ifb, Vector *phis) {
-  // Check destination register dependency.
+  // Phis are copied in parallel: Put ones first whose destination is not a source of the rest.
   int n = phis->len;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    assert(ifb < phi->params->len);
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
+  int ordered = 0;
+  for (bool again = true; again; ) {
+    again = false;
+    for (int i = ordered; i < n; ++i) {
+      Phi *phi = phis->data[i];
+      assert(ifb < phi->params->len);
+      int j;
+      for (j = ordered; j < n; ++j) {
+        Phi *phi2 = phis->data[j];
+        if (j != i && phi2->params->data[ifb] == phi->dst)
+          break;
+      }
+      if (j < n)
+        continue;
 
-    // Move i before j: shift intermediate elements.
-    int d = i - j;
-    memmove(&phis->data[j + 1], &phis->data[j], d * sizeof(*phis->data));
-    phis->data[j] = phi;
-    ++i;
+      phis->data[i] = phis->data[ordered];
+      phis->data[ordered++] = phi;
+      again = true;
+    }
   }
 
-  // Detect cyclic dependency.
+  // The rest are cyclic dependencies: Pick up each of them to `cyclic`.
   Vector *cyclics = NULL;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Destination is dependent on predecessor: Pick up cyclic dependency to `cyclic`.
+  while (n > ordered) {
     Vector *cyclic = new_vector();
+    Phi *phi = phis->data[--n];
     for (;;) {
-      Phi *phi2 = phis->data[j];
-      vec_push(cyclic, phi2);
-      phis->data[j] = NULL;
-      if (j >= i)
-        break;
-
-      VReg *src2 = phi2->params->data[ifb];
-      while (++j < i) {
-        Phi *phi3 = phis->data[j];
-        if (phi3->dst == src2)
+      vec_push(cyclic, phi);
+      VReg *src = phi->params->data[ifb];
+      int j;
+      for (j = ordered; j < n; ++j) {
+        phi = phis->data[j];
+        if (phi->dst == src)
           break;
       }
+      if (j >= n)
+        break;
+      phis->data[j] = phis->data[--n];
     }
     assert(cyclic->len >= 2);
 
     if (cyclics == NULL)
       cyclics = new_vector();
     vec_push(cyclics, cyclic);
-
-    // Eliminate them from phis.
-    for (int k = 0; k < n; ++k) {
-      if (phis->data[k] == NULL) {
-        phis->data[k] = phis->data[--n];
-        phis->data[n] = NULL;
-      }
-    }
-    for (; n > 0 && phis->data[n - 1] == NULL; --n)
-      ;
-    phis->len = n;  // Truncate (Recovered in later).
   }
+  phis->len = n;  // Truncate (Recovered in later).
   return cyclics;
 }
 
-- 
2.43.0


From 079c558858c0b48b91fcb6413911ac616143143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:19 +0000
Subject: [PATCH 062/170] fix: assembler folds constant subtraction and
 division, and reads octal constants in expressions

---
 src/as/parse_asm.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3f9d160..63bf85a 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -347,6 +347,8 @@ static const Token *fetch_token(ParseInfo *info) {
           p += 2;
           base = 16;
         }
+      } else if (c == '0' && isdigit(p[1])) {
+        base = 8;
       }
       char *q;
       unsigned long long v = strtoull(p, &q, base);
@@ -509,7 +511,12 @@ static Expr *parse_mul(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_MUL:  lhs->fixnum *= rhs->fixnum; break;
-      case TK_DIV:  lhs->fixnum += rhs->fixnum; break;
+      case TK_DIV:
+        if (rhs->fixnum == 0)
+          parse_error(info, "division by zero");
+        else
+          lhs->fixnum /= rhs->fixnum;
+        break;
       default:  assert(false); break;
       }
     } else {
@@ -539,7 +546,7 @@ static Expr *parse_add(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_ADD:  lhs->fixnum += rhs->fixnum; break;
-      case TK_SUB:  lhs->fixnum += rhs->fixnum; break;
+      case TK_SUB:  lhs->fixnum -= rhs->fixnum; break;
       default:  assert(false); break;
       }
     } else {
-- 
2.43.0


From fe7aa9cee504bdb31061cb6bf8d05fc5904e98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:19 +0000
Subject: [PATCH 063/170] fix: x64 assembler encodes memory operands with any
 base, index, size and offset, byte registers and direct addresses correctly

---
 src/as/arch/x64/asm_code.c | 580 +++++++++++--------------------------
 1 file changed, 170 insertions(+), 410 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 33ca14d..9fe2f9e 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -35,7 +35,7 @@ static inline char opr_regno(const Reg *reg) {
 
 static inline bool opr_reg8(const Reg *reg) {
   assert(reg->size == REG8);
-  return opr_regno(reg) < 4;
+  return opr_regno(reg) < 8;
 }
 
 static inline bool assemble_error(ParseInfo *info, const char *message) {
@@ -56,7 +56,6 @@ static unsigned char *put_rex0(unsigned char *p, enum RegSize size, int sno, int
 #define MAKE_REX0(size, sno, dno, opcode) \
   (size) == REG16 ? 0x66 : -1, \
   ((sno) >= 8 || (dno) >= 8 || \
-      ((size) == REG8 && ((sno) >= 4 || (dno) >= 4)) || \
       (size) == REG64) \
     ? (0x40 | (((dno) & 8) >> 3) | (((sno) & 8) >> 1) | ((size) != REG64 ? 0 : 8)) : -1, \
   opcode
@@ -75,17 +74,102 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
   return p;
 }
 
-#define MAKE_REX_INDIRECT(size, reg, indirect_reg, opcode, op2, offset) \
-  MAKE_REX0(size, reg, indirect_reg, \
-            (size) == REG8 ? opcode : (unsigned char)((opcode) + 1)), \
-  (((offset) == 0 && indirect_reg != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
-  indirect_reg == RSP - RAX ? 0x24 : -1
+// Prefixes and opcode for an instruction with a memory operand.
+static unsigned char *put_mem_opcode(unsigned char *p, enum RegSize size, const Reg *reg, int ino, int bno,
+                                     unsigned char opcode) {
+  int rno = reg != NULL ? opr_regno(reg) : 0;
+  if (size == REG16)
+    *p++ = 0x66;
+  unsigned char rex = ((rno & 8) >> 1) | ((ino & 8) >> 2) | ((bno & 8) >> 3) | (size == REG64 ? 8 : 0);
+  if (rex != 0 || rno >= 16)  // 16~: %spl~%dil
+    *p++ = 0x40 | rex;
+  *p++ = opcode;
+  return p;
+}
+
+static unsigned char *put_mem_offset(unsigned char *p, int mod, long offset) {
+  switch (mod) {
+  case 0x40:
+    *p++ = IM8(offset);
+    break;
+  case 0x80:
+    PUT_CODE(p, IM32(offset));
+    p += 4;
+    break;
+  default: break;
+  }
+  return p;
+}
+
+// No offset can be expressed only when the base is neither %rbp nor %r13.
+static inline int mem_mod(int bno, long offset) {
+  return offset == 0 && (bno & 7) != RBP - RAX ? 0x00 : is_im8(offset) ? 0x40 : 0x80;
+}
 
-#define MAKE_OFFSET(offset, no) \
-  ((offset) == 0 && no) ? -1 : (offset) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >>  8) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >> 16) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >> 24) & 0xff
+// offset(%base): %rsp and %r12 require SIB byte.
+static unsigned char *put_mem(unsigned char *p, int rno, int bno, long offset) {
+  int mod = mem_mod(bno, offset);
+  *p++ = mod | ((rno & 7) << 3) | (bno & 7);
+  if ((bno & 7) == RSP - RAX)
+    *p++ = 0x24;
+  return put_mem_offset(p, mod, offset);
+}
+
+// offset(%base, %index, scale)
+static unsigned char *put_mem_index(unsigned char *p, int rno, int bno, int ino, int scale_bit, long offset) {
+  int mod = mem_mod(bno, offset);
+  *p++ = mod | ((rno & 7) << 3) | 0x04;
+  *p++ = (scale_bit << 6) | ((ino & 7) << 3) | (bno & 7);
+  return put_mem_offset(p, mod, offset);
+}
+
+// Instruction with operands: offset(%base), %reg
+static unsigned char *asm_mem_reg(Code *code, Operand *mem, const Reg *reg, unsigned char opcode) {
+  if (mem->indirect.offset.expr->kind != EX_FIXNUM || mem->indirect.reg.no == RIP)
+    return NULL;
+  long offset = mem->indirect.offset.expr->fixnum;
+  if (!is_im32(offset))
+    return NULL;
+  enum RegSize size = reg->size;
+  int bno = opr_regno(&mem->indirect.reg);
+  unsigned char *p = put_mem_opcode(code->buf, size, reg, 0, bno, opcode | (size == REG8 ? 0 : 1));
+  return put_mem(p, opr_regno(reg), bno, offset);
+}
+
+// Instruction with operands: offset(%base, %index, scale), %reg
+static unsigned char *asm_mem_index_reg(Code *code, Operand *mem, const Reg *reg, unsigned char opcode) {
+  Expr *offset_expr = mem->indirect_with_index.offset;
+  Expr *scale_expr = mem->indirect_with_index.scale;
+  long offset = 0, scale = 1;
+  if (offset_expr != NULL) {
+    if (offset_expr->kind != EX_FIXNUM)
+      return NULL;
+    offset = offset_expr->fixnum;
+  }
+  if (scale_expr != NULL) {
+    if (scale_expr->kind != EX_FIXNUM)
+      return NULL;
+    scale = scale_expr->fixnum;
+  }
+  int ino = opr_regno(&mem->indirect_with_index.index_reg);
+  if (!is_im32(offset) || scale < 1 || scale > 8 || !IS_POWER_OF_2(scale) || ino == RSP - RAX)
+    return NULL;
+  int bno = opr_regno(&mem->indirect_with_index.base_reg);
+  unsigned char *p = put_mem_opcode(code->buf, reg->size, reg, ino, bno, opcode);
+  return put_mem_index(p, opr_regno(reg), bno, ino, most_significant_bit(scale), offset);
+}
+
+// Instruction with operand: offset(%base), `ext` is the opcode extension in ModRM.
+static unsigned char *asm_mem(Code *code, Operand *mem, enum RegSize size, int ext, unsigned char opcode) {
+  if (mem->indirect.offset.expr->kind != EX_FIXNUM || mem->indirect.reg.no == RIP)
+    return NULL;
+  long offset = mem->indirect.offset.expr->fixnum;
+  if (!is_im32(offset))
+    return NULL;
+  int bno = opr_regno(&mem->indirect.reg);
+  unsigned char *p = put_mem_opcode(code->buf, size, NULL, 0, bno, opcode);
+  return put_mem(p, ext, bno, offset);
+}
 
 #define MAKE_IM(size, value) \
   (value) & 0xff, \
@@ -132,150 +216,47 @@ static unsigned char *asm_mov_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_mov_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM) {
-      long offset = inst->opr[0].indirect.offset.expr->fixnum;
-      enum RegSize size = inst->opr[1].reg.size;
-      int sno = opr_regno(&inst->opr[0].indirect.reg);
-      int dno = opr_regno(&inst->opr[1].reg);
-      bool ofszero = offset == 0 && ((sno & 7) != RBP - RAX);
-      short buf[] = {
-        size == REG16 ? 0x66 : -1,
-        (size == REG64 || sno >= 8 || dno >= 8) ?  0x40 | (size == REG64 ? 0x08 : 0) | ((dno & 8) >> 1) | ((sno & 8) >> 3) : -1,
-        0x8a | (size == REG8 ? 0 : 0x01),
-        ((dno & 7) << 3) | (sno & 7) | (ofszero ? 0 : is_im8(offset) ? 0x40: 0x80),
-        (sno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (ofszero) {
-        // Nothing.
-      } else if (is_im8(offset)) {
-        *p++ = offset;
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  } else {
-    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
-      int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
-      int d = inst->opr[1].reg.no;
-      MAKE_CODE(inst, code, pre, 0x8b, 0x05 | (d << 3), IM32(0));
-      return code->buf;
-    }
+  const Reg *reg = &inst->opr[1].reg;
+  if (inst->opr[0].indirect.reg.no == RIP) {
+    if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM)
+      return NULL;
+    unsigned char *p = put_mem_opcode(code->buf, reg->size, reg, 0, 0, reg->size == REG8 ? 0x8a : 0x8b);
+    *p++ = 0x05 | ((opr_regno(reg) & 7) << 3);
+    PUT_CODE(p, IM32(0));
+    return p + 4;
   }
-  return NULL;
+  return asm_mem_reg(code, &inst->opr[0], reg, 0x8a);
 }
 
 static unsigned char *asm_mov_ri(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long offset = inst->opr[1].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[0].reg.size;
-    if (inst->opr[1].indirect.reg.no != RIP) {
-      int sno = opr_regno(&inst->opr[0].reg);
-      int dno = opr_regno(&inst->opr[1].indirect.reg);
-      bool ofszero = offset == 0 && ((dno & 7) != RBP - RAX);
-      short buf[] = {
-        size == REG16 ? 0x66 : -1,
-        (size == REG64 || sno >= 8 || dno >= 8) ? 0x40 | (size == REG64 ? 0x08 : 0) | ((sno & 8) >> 1) | ((dno & 8) >> 3) : -1,
-        0x88 | (size == REG8 ? 0 : 0x01),
-        ((sno & 7) << 3) | (dno & 7) | (ofszero ? 0 : is_im8(offset) ? 0x40: 0x80),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (ofszero) {
-        // Nothing.
-      } else if (is_im8(offset)) {
-        *p++ = offset;
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return asm_mem_reg(code, &inst->opr[1], &inst->opr[0].reg, 0x88);
 }
 
 static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM) {
-    long offset = inst->opr[0].indirect_with_index.offset->fixnum;
-    assert(is_im32(offset));
-    short offset_bit = offset == 0 ? 0x04 : is_im8(offset) ? 0x44 : 0x84;
-    enum RegSize size = inst->opr[1].reg.size;
-    assert(inst->opr[0].indirect_with_index.base_reg.no != RIP);
-    int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
-    int ino = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
-    int dno = opr_regno(&inst->opr[1].reg);
-    Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-    char scale_bit = 0;
-    if (scale_expr != NULL) {
-      scale_bit = most_significant_bit(scale_expr->fixnum);
-      assert(IS_POWER_OF_2(scale_expr->fixnum) && scale_bit < 4);
-    }
-    short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1);
-    short prefix = size == REG16 ? 0x66 : size == REG64 || x != 0 ? 0x48 | x : -1;
-    short buf[] = {
-      prefix,
-      size == REG8 ? 0x8a : 0x8b,
-      ((dno & 7) << 3) | offset_bit,
-      (scale_bit << 6) | ((ino & 7) << 3) | (bno & 7),
-    };
-    unsigned char *p = code->buf;
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
+  const Reg *reg = &inst->opr[1].reg;
+  return asm_mem_index_reg(code, &inst->opr[0], reg, reg->size == REG8 ? 0x8a : 0x8b);
+}
 
-    if (offset != 0) {
-      if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-    }
-    return p;
-  }
-  return NULL;
+static unsigned char *asm_mov_direct(Code *code, Operand *mem, const Reg *reg, unsigned char opcode) {
+  if (mem->direct.expr->kind != EX_FIXNUM)
+    return NULL;
+  long address = mem->direct.expr->fixnum;
+  if (!is_im32(address))
+    return NULL;
+  enum RegSize size = reg->size;
+  unsigned char *p = put_mem_opcode(code->buf, size, reg, 0, 0, opcode | (size == REG8 ? 0 : 1));
+  *p++ = ((opr_regno(reg) & 7) << 3) | 0x04;
+  *p++ = 0x25;
+  PUT_CODE(p, IM32(address));
+  return p + 4;
 }
 
 static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
-  enum RegSize size = inst->opr[1].reg.size;
-  int dno = opr_regno(&inst->opr[1].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
-  short buf[] = {
-    prefix,
-    size == REG8 ? 0x8a : 0x8b,
-    ((dno & 7) << 3) | 0x04,
-    0x25,
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-  PUT_CODE(p, IM32(0));
-  p += 4;
-  return p;
+  return asm_mov_direct(code, &inst->opr[0], &inst->opr[1].reg, 0x8a);
 }
 
 static unsigned char *asm_mov_rd(Inst *inst, Code *code) {
-  enum RegSize size = inst->opr[0].reg.size;
-  int sno = opr_regno(&inst->opr[0].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
-  short buf[] = {
-    prefix,
-    size == REG8 ? 0x88 : 0x89,
-    ((sno & 7) << 3) | 0x04,
-    0x25,
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-  PUT_CODE(p, IM32(0));
-  p += 4;
-  return p;
+  return asm_mov_direct(code, &inst->opr[1], &inst->opr[0].reg, 0x88);
 }
 
 static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
@@ -283,8 +264,9 @@ static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
     Expr *offset = inst->opr[0].segment.offset;
     if (offset == NULL || offset->kind == EX_FIXNUM) {
       uint64_t value = offset == NULL ? 0 : offset->fixnum;
+      const Reg *reg = &inst->opr[1].reg;
       short buf[] = {
-        0x64, 0x48, 0x8b, 0x04, 0x25,
+        0x64, 0x48 | (reg->x << 2), 0x8b, 0x04 | (reg->no << 3), 0x25,
       };
       unsigned char *p = code->buf;
       p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
@@ -297,28 +279,10 @@ static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_movbwlq_imi(Inst *inst, Code *code) {
-  long offset = inst->opr[1].indirect.offset.expr->fixnum;
-  unsigned char sno = 0;
-  unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-  unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x00 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-  short buf[] = {
-    inst->op == MOVW_IMI ? 0x66 : -1,
-    (inst->op == MOVQ_IMI || dno >= 8) ? 0x40 | (inst->op == MOVQ_IMI ? 0x08 : 0) | ((dno & 8) >> 3) | ((sno & 8) >> 1) : -1,
-    0xc6 | (inst->op == MOVB_IMI ? 0 : 1),
-    op | (dno & 7) | ((sno & 7) << 3),
-    (dno & 7) == RSP - RAX ? 0x24 : -1,
-  };
-
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  if (offset == 0 && (dno & 7) != RBP - RAX) {
-    ;
-  } else if (is_im8(offset)) {
-    *p++ = IM8(offset);
-  } else if (is_im32(offset)) {
-    PUT_CODE(p, IM32(offset));
-    p += 4;
-  }
+  enum RegSize size = inst->op + (REG8 - MOVB_IMI);
+  unsigned char *p = asm_mem(code, &inst->opr[1], size, 0, size == REG8 ? 0xc6 : 0xc7);
+  if (p == NULL)
+    return NULL;
 
   long value = inst->opr[0].immediate;
   switch (inst->op) {
@@ -697,20 +661,7 @@ static unsigned char *asm_lea_ir(Inst *inst, Code *code) {
   assert(inst->opr[0].indirect.offset.expr != NULL);
   unsigned char *p = code->buf;
   if (inst->opr[0].indirect.reg.no != RIP) {
-    if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM) {
-      long offset = inst->opr[0].indirect.offset.expr->fixnum;
-      enum RegSize size = inst->opr[1].reg.size;
-      short buf[] = {
-        MAKE_REX_INDIRECT(
-          size,
-          opr_regno(&inst->opr[1].reg),
-          opr_regno(&inst->opr[0].indirect.reg),
-          0x8c, 0x00, offset),
-        MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-      };
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      return p;
-    }
+    return asm_mem_reg(code, &inst->opr[0], &inst->opr[1].reg, 0x8c);
   } else {
     if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
       int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
@@ -723,41 +674,7 @@ static unsigned char *asm_lea_ir(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_lea_iir(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect_with_index.offset;
-  Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM) &&
-      (scale_expr == NULL || scale_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    long scale = scale_expr != NULL ? scale_expr->fixnum : 1;
-    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale)) {
-      int breg = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
-      int ireg = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
-      int dreg = opr_regno(&inst->opr[1].reg);
-      bool noofs = offset == 0 && breg != RBP - RAX;
-      int pow = most_significant_bit(scale);
-      assert(IS_POWER_OF_2(scale) && pow < 4);
-      short buf[] = {
-        0x48 | ((breg & 8) >> 3) | ((ireg & 8) >> 2) | ((dreg & 8) >> 1),
-        0x8d,
-        (noofs ? 0x00 : is_im8(offset) ? 0x40 : 0x80) | ((dreg & 7) << 3) | 0x04,
-        (breg & 7) | ((ireg & 7) << 3) | (pow << 6),
-        breg == RSP - RAX ? 0x24 : -1,
-      };
-
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (noofs) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return asm_mem_index_reg(code, &inst->opr[0], &inst->opr[1].reg, 0x8d);
 }
 
 static unsigned char *asm_add_rr(Inst *inst, Code *code) {
@@ -799,83 +716,28 @@ static unsigned char *asm_add_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_add_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[1].reg.size;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        opr_regno(&inst->opr[1].reg),
-        opr_regno(&inst->opr[0].indirect.reg),
-        0x02, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
+  return asm_mem_reg(code, &inst->opr[0], &inst->opr[1].reg, 0x02);
 }
 
 static unsigned char *asm_add_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x03,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
+  const Reg *reg = &inst->opr[1].reg;
+  return asm_mem_index_reg(code, &inst->opr[0], reg, reg->size == REG8 ? 0x02 : 0x03);
 }
 
 static unsigned char *asm_addq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long value = inst->opr[0].immediate;
-    if (is_im32(value)) {
-      long offset = inst->opr[1].indirect.offset.expr->fixnum;
-      unsigned char sno = 0;
-      unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x00 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-      short buf[] = {
-        (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
-        (is_im8(value) ? 0x83 : 0x81),
-        op | (dno & 7) | ((sno & 7) << 3),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset == 0 && (dno & 7) != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-
-      if (is_im8(value)) {
-        *p++ = IM8(value);
-      } else {
-        PUT_CODE(p, IM32(value));
-        p += 4;
-      }
-      return p;
+  long value = inst->opr[0].immediate;
+  if (!is_im32(value))
+    return NULL;
+  unsigned char *p = asm_mem(code, &inst->opr[1], REG64, 0, is_im8(value) ? 0x83 : 0x81);
+  if (p != NULL) {
+    if (is_im8(value)) {
+      *p++ = IM8(value);
+    } else {
+      PUT_CODE(p, IM32(value));
+      p += 4;
     }
   }
-  return NULL;
+  return p;
 }
 
 static unsigned char *asm_sub_rr(Inst *inst, Code *code) {
@@ -917,83 +779,28 @@ static unsigned char *asm_sub_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_sub_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[1].reg.size;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        opr_regno(&inst->opr[1].reg),
-        opr_regno(&inst->opr[0].indirect.reg),
-        0x2a, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
+  return asm_mem_reg(code, &inst->opr[0], &inst->opr[1].reg, 0x2a);
 }
 
 static unsigned char *asm_sub_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x2b,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
+  const Reg *reg = &inst->opr[1].reg;
+  return asm_mem_index_reg(code, &inst->opr[0], reg, reg->size == REG8 ? 0x2a : 0x2b);
 }
 
 static unsigned char *asm_subq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long value = inst->opr[0].immediate;
-    if (is_im32(value)) {
-      long offset = inst->opr[1].indirect.offset.expr->fixnum;
-      unsigned char sno = 0;
-      unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x28 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-      short buf[] = {
-        (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
-        (is_im8(value) ? 0x83 : 0x81),
-        op | (dno & 7) | ((sno & 7) << 3),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset == 0 && (dno & 7) != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-
-      if (is_im8(value)) {
-        *p++ = IM8(value);
-      } else {
-        PUT_CODE(p, IM32(value));
-        p += 4;
-      }
-      return p;
+  long value = inst->opr[0].immediate;
+  if (!is_im32(value))
+    return NULL;
+  unsigned char *p = asm_mem(code, &inst->opr[1], REG64, 5, is_im8(value) ? 0x83 : 0x81);
+  if (p != NULL) {
+    if (is_im8(value)) {
+      *p++ = IM8(value);
+    } else {
+      PUT_CODE(p, IM32(value));
+      p += 4;
     }
   }
-  return NULL;
+  return p;
 }
 
 static unsigned char *asm_mul_r(Inst *inst, Code *code) {
@@ -1037,15 +844,17 @@ static unsigned char *asm_idiv_r(Inst *inst, Code *code) {
 
 static unsigned char *asm_neg_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
-  p = put_rex1(p, inst->opr[0].reg.size,
-               0xd8, opr_regno(&inst->opr[0].reg), 0xf7);
+  Reg *reg = &inst->opr[0].reg;
+  p = put_rex1(p, reg->size,
+               0xd8, opr_regno(reg), reg->size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
 static unsigned char *asm_not_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
-  p = put_rex1(p, inst->opr[0].reg.size,
-               0xd0, opr_regno(&inst->opr[0].reg), 0xf7);
+  Reg *reg = &inst->opr[0].reg;
+  p = put_rex1(p, reg->size,
+               0xd0, opr_regno(reg), reg->size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
@@ -1058,21 +867,8 @@ static unsigned char *asm_inc_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_incbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    enum RegSize size = inst->op + (REG8 - INCB);
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        0, opr_regno(&inst->opr[0].indirect.reg),
-        0xfe, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
+  enum RegSize size = inst->op + (REG8 - INCB);
+  return asm_mem(code, &inst->opr[0], size, 0, size == REG8 ? 0xfe : 0xff);
 }
 
 static unsigned char *asm_dec_r(Inst *inst, Code *code) {
@@ -1084,21 +880,8 @@ static unsigned char *asm_dec_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_decbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    enum RegSize size = inst->op + (REG8 - DECB);
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        1, opr_regno(&inst->opr[0].indirect.reg),
-        0xfe, 0x08, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
+  enum RegSize size = inst->op + (REG8 - DECB);
+  return asm_mem(code, &inst->opr[0], size, 1, size == REG8 ? 0xfe : 0xff);
 }
 
 static unsigned char *asm_and_rr(Inst *inst, Code *code) {
@@ -1428,30 +1211,7 @@ static unsigned char *asm_jmp_der(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_jmp_dei(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect.offset.expr;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    if (is_im32(offset)) {
-      short offset_bit = offset == 0 ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
-      short b = inst->opr[0].indirect.reg.no;
-      short buf[] = {
-        inst->opr[0].indirect.reg.x ? 0x41 : -1,
-        0xff, offset_bit | b,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset != 0) {
-        if (is_im8(offset)) {
-          *p++ = IM8(offset);
-        } else {
-          PUT_CODE(p, IM32(offset));
-          p += 4;
-        }
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return asm_mem(code, &inst->opr[0], REG32, 4, 0xff);
 }
 
 static unsigned char *asm_jmp_deii(Inst *inst, Code *code) {
-- 
2.43.0


From 4d61513c0b869b155726272cd52424c3fb50ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:43 +0000
Subject: [PATCH 064/170] fix: x64 assembler relocates long conditional jumps,
 jumps to other sections and RIP-relative loads

---
 src/as/arch/x64/ir_asm_x64.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index 1f0a20d..ee4ec82 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -136,17 +136,17 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
             if (inst->opr[0].indirect.reg.no == RIP) {
               Value value = calc_expr(label_table, inst->opr[0].indirect.offset.expr);
               if (value.label != NULL) {
-                LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
-                  UnresolvedInfo *info = malloc_or_die(sizeof(*info));
+                UnresolvedInfo *info = malloc_or_die(sizeof(*info));
+                info->kind = UNRES_EXTERN_PC32;
+#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
+                if (table_get(label_table, value.label) == NULL)
                   info->kind = UNRES_X64_GOT_LOAD;
-                  info->label = value.label;
-                  info->src_section = section;
-                  info->offset = address + 3 - start_address;
-                  info->add = value.offset - 4;
-                  vec_push(unresolved, info);
-                  break;
-                }
+#endif
+                info->label = value.label;
+                info->src_section = section;
+                info->offset = address + ir->code.len - 4 - start_address;
+                info->add = value.offset - 4;
+                vec_push(unresolved, info);
               }
             }
             break;
@@ -181,7 +181,8 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               Value value = calc_expr(label_table, inst->opr[0].direct.expr);
               if (value.label != NULL) {
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
+                if (label_info == NULL || !(label_info->flag & LF_DEFINED) ||
+                    label_info->section != section) {
                   // Make unresolved label jmp to long.
                   size_upgraded |= make_jmp_long(ir);
 
@@ -189,7 +190,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                   info->kind = UNRES_EXTERN;
                   info->label = value.label;
                   info->src_section = section;
-                  info->offset = address + 1 - start_address;
+                  info->offset = address + (inst->op == JMP_D ? 1 : 2) - start_address;
                   info->add = value.offset - 4;
                   vec_push(unresolved, info);
                   break;
-- 
2.43.0


From 4f3ed8df80709f9daa40215ae30c048a09143cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:43 +0000
Subject: [PATCH 065/170] fix: assembler keeps label addresses when a section
 is empty, and does not define labels only declared global

---
 src/as/as.c       |  2 --
 src/as/emit_elf.c | 28 ++++++++++++++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/as/as.c b/src/as/as.c
index 30f02a6..e16f3bf 100644
--- a/src/as/as.c
+++ b/src/as/as.c
@@ -78,8 +78,6 @@ static void fix_section_size(Vector *sections, uintptr_t start_address) {
   uintptr_t addr = start_address;
   for (int i = 0; i < sections->len; ++i) {
     SectionInfo *section = sections->data[i];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
-      continue;
     section->start_address = addr = ALIGN(addr, section->align);
     addr += (section->flag & SF_BSS) ? section->bss_size : section->ds->len;
   }
diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index 5e28cdd..52d9ec6 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -73,6 +73,22 @@ void symtab_concat(Symtab *dest, Symtab *src) {
 
 //
 
+static size_t get_section_size(const SectionInfo *section) {
+  return section->flag & SF_BSS ? section->bss_size : section->ds->len;
+}
+
+// Empty sections are omitted, unless a label is placed in it.
+static bool is_section_emitted(const SectionInfo *section) {
+  if (get_section_size(section) > 0)
+    return true;
+  for (int i = 0; i < section->irs->len; ++i) {
+    IR *ir = section->irs->data[i];
+    if (ir->kind == IR_LABEL)
+      return true;
+  }
+  return false;
+}
+
 static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table) {
   symtab_init(symtab);
 
@@ -96,7 +112,7 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
   // SECTION
   for (int i = 0; i < sections->len; ++i) {
     SectionInfo *section = sections->data[i];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
+    if (!is_section_emitted(section))
       continue;
     sym = symtab_add(symtab, nulname);
     sym->st_info = ELF64_ST_INFO(STB_LOCAL, STT_SECTION);
@@ -127,9 +143,9 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
     sym->st_info = ELF64_ST_INFO(bind, type);
     sym->st_value = (info->flag & LF_DEFINED) ? info->address - info->section->start_address : 0;
     sym->st_size = info->size;
-    assert(info->section == NULL || info->section->index > 0);
     Elf64_Section shndx = SHN_UNDEF;
-    if (info->section != NULL) {
+    if (info->flag & LF_DEFINED) {
+      assert(info->section != NULL && info->section->index > 0);
       if ((info->flag & (LF_COMM | LF_GLOBAL)) == (LF_COMM | LF_GLOBAL))
         shndx = SHN_COMMON;
       else
@@ -324,7 +340,7 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   int out_section_count = 0;
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
+    if (!is_section_emitted(section))
       continue;
     section->index = ++out_section_count;
   }
@@ -386,9 +402,9 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   const Name *fini_array_name = alloc_name(".fini_array", NULL, false);
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
-    size_t size = section->ds != NULL ? section->ds->len : section->bss_size;
-    if (size <= 0)
+    if (!is_section_emitted(section))
       continue;
+    size_t size = get_section_size(section);
     Elf64_Xword flags = SHF_ALLOC;
     if (section->flag & SF_EXECUTABLE)
       flags |= SHF_EXECINSTR;
-- 
2.43.0


From cd14f4411f1cffd7810f54a886a6eb8ce6831896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 066/170] fix: static initializers of unions with bit-field
 members

---
 src/cc/frontend/cc_misc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index 3641092..d63305b 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -71,10 +71,9 @@ static void eval_initial_value(Expr *expr, Expr **pvar, int64_t *poffset) {
 
 #ifndef __NO_BITFIELD
 static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initializer *init, int *pi) {
-  assert(!sinfo->is_union);  // TODO
   assert(init == NULL || (init->kind == IK_MULTI && init->multi->len == sinfo->member_count));
   Fixnum x = 0;
-  int i = *pi, n = sinfo->member_count;
+  int i = *pi, n = sinfo->is_union ? i + 1 : sinfo->member_count;
   for (bool top = true; i < n; ++i, top = false) {
     const MemberInfo *member = &sinfo->members[i];
     if (member->bitfield.width <= 0 || (!top && member->bitfield.position == 0))
@@ -218,6 +217,8 @@ void construct_initial_value(const Type *type, const Initializer *init,
         const MemberInfo *member = &sinfo->members[i];
 #ifndef __NO_BITFIELD
         if (member->bitfield.active) {
+          if (sinfo->is_union && (init == NULL || init->multi->data[i] == NULL))
+            continue;
           i = construct_initial_value_bitfield(sinfo, init, i, &offset, vtable, ud);
           ++count;
           continue;
-- 
2.43.0


From 8ff91345e91788e3e86bfef45078450c63d5c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 067/170] fix: designated aggregate initialized by a scalar or
 a string without braces

---
 src/cc/frontend/initializer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index a0f2305..923fd01 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -369,7 +369,10 @@ static Initializer *find_desig_indices(InitFlattener *flattener, Initializer *in
         init = flatten_initializer_multi(type, init);
       return init;
     case IK_SINGLE:
-      if (is_multi_type(type->kind) && !is_multi_type(init->single->type->kind)) {
+      if (is_multi_type(type->kind) &&
+          !same_type_without_qualifier(type, init->single->type, true) &&
+          !(type->kind == TY_ARRAY && init->single->kind == EX_STR &&
+            is_char_type(type->pa.ptrof, init->single->str.kind))) {
         // To search first element of `type`, dig indices.
         vec_push(indices, INT2VOIDP(-1));
         return find_next_indices(flattener, init);
-- 
2.43.0


From 9c03863b070127a2b6cde48db5b58f6e16f33cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 068/170] fix: compound literals of arrays with brace elision,
 of scalars in global scope, and skip of unnamed bit-fields

---
 src/cc/frontend/initializer.c | 19 ++-----------------
 src/cc/frontend/parser_expr.c |  6 ++++--
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 923fd01..990448d 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -256,7 +256,7 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
 #ifndef __NO_BITFIELD
             if (member->bitfield.active && member->name == NULL) {  // Initializer not assigned to unnamed bitfield.
               ++last_index;
-              indices->data[depth - 1] = INT2VOIDP(last_index);
+              indices->data[indices->len - 1] = INT2VOIDP(last_index);
               continue;
             }
 #endif
@@ -473,21 +473,8 @@ static void flatten_initializer_single(Expr *value) {
     flatten_initializer_single(value->unary.sub);
     break;
 
-  case EX_COMPLIT:
-    {
-      Initializer *init = flatten_initializer(value->type, value->complit.original_init);
-      value->complit.original_init = init;
-
-      Expr *var = value->complit.var;
-      if (is_global_scope(var->var.scope)) {
-        assert(init->kind == IK_MULTI);
-        VarInfo *varinfo = scope_find(var->var.scope, var->var.name, NULL);
-        assert(varinfo != NULL);
-        varinfo->global.init = init;
-      }
-    }
-    break;
   default:
+    // Compound literal is already flattened when it is parsed.
     // TODO: Confirm.
     break;
   }
@@ -507,8 +494,6 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
         Expr *e = init->single;
         if (!same_type_without_qualifier(type, e->type, true))
           parse_error(PE_NOFATAL, init->token, "Incompatible type");
-        if (e->kind == EX_COMPLIT)
-          flatten_initializer_single(e);
       }
       break;
     case TY_ARRAY:
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 0f99d54..4241e3f 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -129,20 +129,22 @@ static Expr *parse_compound_literal(Type *type) {
   Token *token = fetch_token();
   Initializer *init = parse_initializer();
 
+  if (!ensure_struct(type, token, curscope))
+    return new_expr_fixlit(&tyInt, token, 0);  // Dummy
+
+  init = flatten_initializer(type, init);
   if (type->kind == TY_ARRAY)
     type = fix_array_size(type, init, token);
 
   Expr *var = alloc_tmp_var(curscope, type);
   Vector *inits = NULL;
   if (is_global_scope(curscope)) {
-    // Global variable initializer is flattened in `check_vardecl()`
     const Name *name = var->var.name;
     VarInfo *varinfo = scope_find(curscope, name, NULL);
     assert(varinfo != NULL);
     varinfo->storage |= VS_STATIC;
     varinfo->global.init = init;
   } else {
-    init = flatten_initializer(type, init);
     inits = assign_initial_value(var, init, NULL);
   }
 
-- 
2.43.0


From 5d4d06dcadebd084c45d123c5b5c6fa6d6af4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 069/170] fix: initializer of a union beginning with an unnamed
 bit-field, and char array without room for the terminator

---
 src/cc/frontend/initializer.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 990448d..37295d0 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -153,7 +153,7 @@ static Stmt *init_char_array_by_string(Expr *dst, Initializer *src, const Token
   Expr *var = new_expr_variable(varinfo->ident->ident, strtype, NULL, curscope);
   assert(str->type->kind == TY_ARRAY);
   mark_var_used(var);
-  return build_memcpy(dst, var, len * type_size(str->type->pa.ptrof));
+  return build_memcpy(dst, var, MIN(len, dstlen) * type_size(str->type->pa.ptrof));
 }
 
 typedef struct {
@@ -246,7 +246,17 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
         {
           const StructInfo *sinfo = type->struct_.info;
           assert(sinfo != NULL);
-          int member_count = sinfo->is_union ? 1 : sinfo->member_count;
+          int member_count = sinfo->member_count;
+          if (sinfo->is_union) {
+            // Only the first named member.
+            int first = 0;
+#ifndef __NO_BITFIELD
+            while (first < member_count && sinfo->members[first].bitfield.active &&
+                   sinfo->members[first].name == NULL)
+              ++first;
+#endif
+            member_count = MIN(first + 1, member_count);
+          }
           for (;;) {
             if (last_index >= member_count) {
               upward = true;
-- 
2.43.0


From 7541fc7381f677f354a2cd893720a0139ae4c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 070/170] fix: fread completes short reads, takes the pushed
 back character and sets EOF only beyond the end, and stream positions do not
 count read-ahead

---
 libsrc/stdio/_file.c  | 92 ++++++++++++++-----------------------------
 libsrc/stdio/_file.h  |  2 -
 libsrc/stdio/fgets.c  |  5 ++-
 libsrc/stdio/fread.c  | 16 +++++++-
 libsrc/stdio/ftell.c  |  6 ++-
 libsrc/stdio/ungetc.c |  4 +-
 6 files changed, 53 insertions(+), 72 deletions(-)

diff --git a/libsrc/stdio/_file.c b/libsrc/stdio/_file.c
index eb74f5d..ccd5997 100644
--- a/libsrc/stdio/_file.c
+++ b/libsrc/stdio/_file.c
@@ -2,78 +2,44 @@
 
 #include "stdlib.h"  // free
 #include "string.h"  // memcpy
-#include "sys/stat.h"  // fstat
 #include "unistd.h"
 
 #include "./_file.h"
 
-// Normal: if actual read size is less than required size, it means EOF.
-// Pipe:   if subscriber is faster than publisher, it happens. len == 0 means EOF.
-#define FILE_IS_END(fp, readsize)  (!((fp)->flag & FF_FIFO) || (readsize) == 0)
-
-static void _finit(FILE *fp) {
-  if ((fp->flag & FF_INITIALIZED))
-    return;
-
-  struct stat st;
-  int r = fstat(fp->fd, &st);
-  if (r == 0) {
-    switch (st.st_mode & S_IFMT) {
-    case S_IFIFO:
-    case S_IFSOCK:
-      fp->flag |= FF_FIFO;
-      break;
-    default:
-      break;
-    }
-  } else {
-    // TODO: Retry.
-  }
-  fp->flag |= FF_INITIALIZED;
-}
-
 ssize_t _fread(void *cookie, char *buf, size_t total) {
   FILE *fp = cookie;
-  _finit(fp);
   unsigned char *p = (unsigned char*)buf;
-  if (fp->rs > 0) {
+  while (total > 0) {
     size_t d = fp->rs - fp->rp;
-    if (total <= d) {
-      memcpy(p, &fp->rbuf[fp->rp], total);
-      fp->rp += total;
-      if (fp->rp >= fp->rs)
-        fp->rp = fp->rs = 0;
-      return total;
+    if (d > 0) {
+      if (d > total)
+        d = total;
+      memcpy(p, &fp->rbuf[fp->rp], d);
+      fp->rp += d;
+      p += d;
+      total -= d;
+      continue;
     }
-    memcpy(p, &fp->rbuf[fp->rp], d);
-    total -= d;
-    p += d;
-  }
+    fp->rp = fp->rs = 0;
 
-  if (total < fp->rcapa * 3 / 4) {
-    // Read more than requested size and store them to the buffer.
-    ssize_t len = read(fp->fd, fp->rbuf, fp->rcapa);
-    fp->rs = len;
-    size_t n = len < 0 || (size_t)len < total ? (size_t)len : total;
-    fp->rp = n;
-    if (n > 0) {
-      memcpy(p, fp->rbuf, n);
-      p += n;
+    ssize_t len;
+    if (total < fp->rcapa * 3 / 4) {
+      // Read more than requested size and store them to the buffer.
+      len = read(fp->fd, fp->rbuf, fp->rcapa);
+      if (len > 0)
+        fp->rs = len;
+    } else {
+      // Read to the given buffer directly.
+      len = read(fp->fd, p, total);
+      if (len > 0) {
+        p += len;
+        total -= len;
+      }
     }
-    if (len < (ssize_t)fp->rcapa && (ssize_t)n == len) {
-      if (FILE_IS_END(fp, len))
+    if (len <= 0) {
+      if (len == 0)
         fp->flag |= FF_EOF;
-    }
-  } else {
-    // Read to the given buffer directly.
-    ssize_t len = read(fp->fd, p, total);
-    if (len >= 0) {
-      p += len;
-      fp->rp = fp->rs = 0;
-      if ((size_t)len < total) {
-        if (FILE_IS_END(fp, len))
-          fp->flag |= FF_EOF;
-      }
+      break;
     }
   }
 
@@ -83,7 +49,6 @@ ssize_t _fread(void *cookie, char *buf, size_t total) {
 
 ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
   FILE *fp = cookie;
-  _finit(fp);
   if (fp->wp >= fp->wcapa && (*fp->flush)(fp) != 0)
     return EOF;
 
@@ -114,7 +79,10 @@ int _fflush(FILE *fp) {
 
 int _fseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
-  off_t result = lseek(fp->fd, *offset, origin);
+  off_t o = *offset;
+  if (origin == SEEK_CUR)  // Relative to the position seen by the user.
+    o -= (off_t)(fp->rs - fp->rp) + (fp->unget_char != EOF ? 1 : 0);
+  off_t result = lseek(fp->fd, o, origin);
   if (result == -1)
     return -1;
   fp->flag &= ~FF_EOF;
diff --git a/libsrc/stdio/_file.h b/libsrc/stdio/_file.h
index 20ff2c9..186d86f 100644
--- a/libsrc/stdio/_file.h
+++ b/libsrc/stdio/_file.h
@@ -8,8 +8,6 @@
 #define FF_WRITE        (1 << 2)
 #define FF_EOF          (1 << 3)
 #define FF_GROWMEM      (1 << 4)
-#define FF_FIFO         (1 << 5)
-#define FF_INITIALIZED  (1 << 15)
 
 typedef ssize_t (*cookie_read_function_t)(void *cookie, char *buf, size_t size);
 typedef ssize_t (*cookie_write_function_t)(void *cookie, const char *buf, size_t size);
diff --git a/libsrc/stdio/fgets.c b/libsrc/stdio/fgets.c
index 8bfce2e..52c273a 100644
--- a/libsrc/stdio/fgets.c
+++ b/libsrc/stdio/fgets.c
@@ -1,7 +1,8 @@
 #include "stdio.h"
 
 char *fgets(char *s, int n, FILE *fp) {
-  --n;
+  if (--n < 0)
+    return NULL;
   char *p = s;
   for (int i = 0; i < n; ++i) {
     int c = fgetc(fp);
@@ -11,7 +12,7 @@ char *fgets(char *s, int n, FILE *fp) {
     if (c == '\n')
       break;
   }
-  if (p == s)
+  if (p == s && n > 0)
     return NULL;
   *p = '\0';
   return s;
diff --git a/libsrc/stdio/fread.c b/libsrc/stdio/fread.c
index 67e0876..5869945 100644
--- a/libsrc/stdio/fread.c
+++ b/libsrc/stdio/fread.c
@@ -5,6 +5,18 @@
 size_t fread(void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_READ))
     return 0;
-  ssize_t result = (fp->iof->read)(fp, buffer, size * count);
-  return result >= 0 ? result / size : 0;
+  size_t total = size * count;
+  if (total == 0)
+    return 0;
+  char *p = buffer;
+  if (fp->unget_char != EOF) {
+    *p++ = fp->unget_char;
+    fp->unget_char = EOF;
+    if (--total == 0)
+      return 1;
+  }
+  ssize_t result = (fp->iof->read)(fp, p, total);
+  if (result < 0)
+    result = 0;
+  return (p - (char*)buffer + result) / size;
 }
diff --git a/libsrc/stdio/ftell.c b/libsrc/stdio/ftell.c
index a7cd849..c8f569f 100644
--- a/libsrc/stdio/ftell.c
+++ b/libsrc/stdio/ftell.c
@@ -4,6 +4,8 @@
 #include "./_file.h"
 
 long ftell(FILE *fp) {
-  off_t result = lseek(fp->fd, 0, SEEK_CUR);
-  return result >= 0 ? result + fp->wp - (fp->rs - fp->rp) : result;
+  off_t result = fp->fd >= 0 ? lseek(fp->fd, 0, SEEK_CUR) : 0;  // fd < 0: On memory.
+  if (result < 0)
+    return result;
+  return result + (off_t)fp->wp - (off_t)(fp->rs - fp->rp) - (fp->unget_char != EOF ? 1 : 0);
 }
diff --git a/libsrc/stdio/ungetc.c b/libsrc/stdio/ungetc.c
index dbc8a9a..4f30262 100644
--- a/libsrc/stdio/ungetc.c
+++ b/libsrc/stdio/ungetc.c
@@ -3,9 +3,9 @@
 #include "./_file.h"
 
 int ungetc(int c, FILE *fp) {
-  if (!(fp->flag & FF_READ))
+  if (!(fp->flag & FF_READ) || c == EOF)
     return EOF;
-  fp->unget_char = c;
+  fp->unget_char = c = (unsigned char)c;
   fp->flag &= ~FF_EOF;
   return c;
 }
-- 
2.43.0


From dfd2aa3732287fe6486f3850c4ee828dc7564d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 071/170] fix: fmemopen streams detect the end, keep a read
 buffer untouched and check seek ranges

---
 libsrc/stdio/fmemopen.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/libsrc/stdio/fmemopen.c b/libsrc/stdio/fmemopen.c
index d962ffe..b3627d3 100644
--- a/libsrc/stdio/fmemopen.c
+++ b/libsrc/stdio/fmemopen.c
@@ -24,12 +24,10 @@ static bool _growmem(FILE *fp) {
 static ssize_t _memread(void *cookie, char *buf, size_t size) {
   FILE *fp = cookie;
   unsigned char *p = (unsigned char*)buf;
-  unsigned int sz = fp->wcapa - fp->wp;
-  if (sz <= 0) {
+  size_t sz = fp->wcapa - fp->wp;
+  if (sz < size)
     fp->flag |= FF_EOF;
-    return 0;
-  }
-  if (sz > size)
+  else
     sz = size;
 
   memcpy(p, &fp->wbuf[fp->wp], sz);
@@ -51,7 +49,7 @@ static ssize_t _memwrite(void *cookie, const char *buf, size_t size) {
 
 static int _memflush(FILE *fp) {
   unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
+  if ((fp->flag & FF_WRITE) && wp < fp->wcapa) {
     fp->wbuf[wp] = '\0';
   }
   return 0;
@@ -60,19 +58,23 @@ static int _memflush(FILE *fp) {
 static int _memseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
   (*fp->flush)(fp);
+  off_t pos = *offset;
   switch (origin) {
   case SEEK_SET:
-    fp->wp = *offset;
     break;
   case SEEK_CUR:
-    // TODO: Check range.
-    fp->wp += *offset;
+    pos += (off_t)fp->wp - (fp->unget_char != EOF ? 1 : 0);
     break;
   case SEEK_END:
-    // TODO: Check range.
-    fp->wp = fp->wcapa + *offset;
+    pos += (off_t)fp->wcapa;
     break;
+  default:
+    return -1;
   }
+  if (pos < 0 || pos > (off_t)fp->wcapa)
+    return -1;
+  *offset = fp->wp = pos;
+  fp->flag &= ~FF_EOF;
   fp->unget_char = EOF;
   return 0;
 }
-- 
2.43.0


From 44d2a4ccdadace8c628526eac4ef644d88db66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 072/170] fix: writing nothing succeeds, and printing to a
 stream not open for writing fails

---
 libsrc/stdio/fputs.c    | 5 +++--
 libsrc/stdio/fwrite.c   | 2 ++
 libsrc/stdio/vfprintf.c | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdio/fputs.c b/libsrc/stdio/fputs.c
index 0189ea1..f712462 100644
--- a/libsrc/stdio/fputs.c
+++ b/libsrc/stdio/fputs.c
@@ -3,6 +3,7 @@
 
 // Result: Success => positive value, Failure => EOF
 int fputs(const char *s, FILE *fp) {
-  size_t result = fwrite(s, 1, strlen(s), fp);
-  return result != 0 ? result : EOF;
+  size_t len = strlen(s);
+  size_t result = fwrite(s, 1, len, fp);
+  return result != 0 || len == 0 ? (int)result : EOF;
 }
diff --git a/libsrc/stdio/fwrite.c b/libsrc/stdio/fwrite.c
index 29deac1..c401d5d 100644
--- a/libsrc/stdio/fwrite.c
+++ b/libsrc/stdio/fwrite.c
@@ -6,6 +6,8 @@
 size_t fwrite(const void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_WRITE))
     return 0;
+  if (size == 0 || count == 0)
+    return 0;
 
   ssize_t result = (fp->iof->write)(fp, buffer, size * count);
   return result >= 0 ? result / size : 0;
diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index f933ae0..dedc5a6 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -280,6 +280,9 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
   int c, i;
   int o;
 
+  if (!(fp->flag & FF_WRITE))
+    return EOF;
+
   for (i = o = 0; fmt[i] != '\0'; i++) {
     c = fmt[i];
     if (c != '%') {
-- 
2.43.0


From f28463d751e9f066b5d732307c9f6a673f026c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 073/170] fix: atexit registers up to 32 functions

---
 libsrc/stdlib/atexit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/stdlib/atexit.c b/libsrc/stdlib/atexit.c
index 8bdc99c..fcc96ea 100644
--- a/libsrc/stdlib/atexit.c
+++ b/libsrc/stdlib/atexit.c
@@ -1,7 +1,7 @@
 #include "stdlib.h"
 #include "_exit.h"
 
-#define MAX  (8)
+#define MAX  (32)
 
 typedef void (*AtexitFunc)(void);
 
-- 
2.43.0


From 9cf180d20c1fc93f2e0cc51c3723a75ebecf74c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 074/170] fix: ld places the data segment and .bss by their
 alignment

---
 src/ld/ld.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2397ac9..f08bbef 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -75,7 +75,7 @@ typedef struct {
   size_t align;
   uint64_t start_address;
   DataStorage *ds;
-  size_t bss_size;
+  size_t mem_size;  // Including .bss
 } SectionGroup;
 
 typedef struct {
@@ -602,9 +602,6 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
 
             if (align > secgroup->align)
               secgroup->align = align;
-
-            if (p->shdr->sh_type == SHT_NOBITS)
-              secgroup->bss_size += size;
           }
         }
         break;
@@ -616,6 +613,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
         break;
       }
     }
+    secgroup->mem_size = address - secgroup->start_address;
   }
 }
 
@@ -671,7 +669,7 @@ static void output_section(FILE *fp, SectionGroup *secgroup) {
 
 static bool output_exe(const char *ofn, uint64_t entry_address,
                        SectionGroup section_groups[SECTION_COUNT]) {
-  int phnum = section_groups[SEC_DATA].ds->len > 0 || section_groups[SEC_DATA].bss_size > 0 ? 2 : 1;
+  int phnum = section_groups[SEC_DATA].mem_size > 0 ? 2 : 1;
 
   FILE *fp;
   if (ofn == NULL) {
@@ -695,15 +693,15 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
   const int flags = 0;
 #endif
   out_elf_header(fp, entry_address, phnum, 0, flags, 0);
-  out_program_header(fp, 0, PROG_START, section_groups[SEC_TEXT].start_address, code_rodata_sz,
+  const uint64_t text_offset = ALIGN(PROG_START, section_groups[SEC_TEXT].align);
+  out_program_header(fp, 0, text_offset, section_groups[SEC_TEXT].start_address, code_rodata_sz,
                      code_rodata_sz);
   if (phnum > 1) {
-    size_t datamemsz = section_groups[SEC_DATA].ds->len + section_groups[SEC_DATA].bss_size;
-    uint64_t offset = PROG_START + code_rodata_sz;
+    uint64_t offset = text_offset + code_rodata_sz;
     if (section_groups[SEC_DATA].ds->len > 0)
-      offset = ALIGN(offset, DATA_ALIGN);
+      offset = ALIGN(offset, section_groups[SEC_DATA].align);
     out_program_header(fp, 1, offset, section_groups[SEC_DATA].start_address,
-                       section_groups[SEC_DATA].ds->len, datamemsz);
+                       section_groups[SEC_DATA].ds->len, section_groups[SEC_DATA].mem_size);
   }
 
   uint64_t addr = PROG_START;
@@ -1042,7 +1040,7 @@ static void prepare_section_groups(Vector *section_lists[SECTION_COUNT],
     secgroup->align = secno == SEC_DATA ? DATA_ALIGN : 1;
     secgroup->start_address = 0;
     secgroup->ds = NULL;
-    secgroup->bss_size = 0;
+    secgroup->mem_size = 0;
     secgroup->ds = calloc_or_die(sizeof(*secgroup->ds));
     data_init(secgroup->ds);
 
-- 
2.43.0


From 023890492ea70c5a347ad141c0c662faa5dbd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 075/170] fix: omit an unused static function even if its
 address is taken in another unused one

---
 src/cc/frontend/cc_misc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index d63305b..63b93af 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -14,10 +14,11 @@
 bool is_function_omitted(const VarInfo *funcvi) {
   assert(funcvi != NULL);
   int storage = funcvi->storage;
+  if ((storage & (VS_STATIC | VS_USED)) == VS_STATIC)  // Static function but not used.
+    return true;
   if ((storage & VS_REF_TAKEN) || ((storage & (VS_INLINE | VS_EXTERN)) == (VS_INLINE | VS_EXTERN)))
     return false;
-  return (satisfy_inline_criteria(funcvi) ||
-      (storage & (VS_STATIC | VS_USED)) == VS_STATIC);  // Static function but not used.
+  return satisfy_inline_criteria(funcvi);
 }
 
 static void eval_initial_value(Expr *expr, Expr **pvar, int64_t *poffset) {
-- 
2.43.0


From 964a1b0ae05dcb3892907cac18f54b35aa7c0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 076/170] fix: as reports operands that do not fit the
 instruction instead of dropping it

---
 src/as/arch/x64/asm_code.c  | 29 ++++++++++++++++++++++++++---
 src/as/arch/x64/parse_x64.c |  9 +++++++--
 src/as/parse_asm.c          | 19 ++++++++++++++++---
 3 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 9fe2f9e..cd31bbc 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -298,9 +298,9 @@ static unsigned char *asm_movbwlq_imi(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_movbwlq_imd(Inst *inst, Code *code) {
-  assert(inst->opr[1].direct.expr->kind == EX_FIXNUM);
+  if (inst->opr[1].direct.expr->kind != EX_FIXNUM || !is_im32(inst->opr[1].direct.expr->fixnum))
+    return NULL;
   int64_t dst = inst->opr[1].direct.expr->fixnum;
-  assert(is_im32(dst));
 
   short buf[] = {
     inst->op == MOVW_IMD ? 0x66 : -1,
@@ -1195,6 +1195,8 @@ static unsigned char *asm_pop_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_jmp_d(Inst *inst, Code *code) {
+  if (inst->opr[0].direct.expr->kind != EX_LABEL)  // A jump to an absolute address is not supported.
+    return NULL;
   MAKE_CODE(inst, code, 0xeb, IM8(0));  // Short jmp in default.
   return code->buf;
 }
@@ -1251,11 +1253,15 @@ static unsigned char *asm_jmp_deii(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_jxx_d(Inst *inst, Code *code) {
+  if (inst->opr[0].direct.expr->kind != EX_LABEL)  // A jump to an absolute address is not supported.
+    return NULL;
   MAKE_CODE(inst, code, 0x70 + (inst->op - JO), IM8(0));  // Short jmp in default.
   return code->buf;
 }
 
 static unsigned char *asm_call_d(Inst *inst, Code *code) {
+  if (inst->opr[0].direct.expr->kind != EX_LABEL)  // A jump to an absolute address is not supported.
+    return NULL;
   MAKE_CODE(inst, code, 0xe8, IM32(0));
   return code->buf;
 }
@@ -1277,6 +1283,8 @@ static unsigned char *asm_ret(Inst *inst, Code *code) {
 
 static unsigned char *asm_int_im(Inst *inst, Code *code) {
   long value = inst->opr[0].immediate;
+  if (value < 0 || value > 255)
+    return NULL;
   MAKE_CODE(inst, code, 0xcd, IM8(value));
   return code->buf;
 }
@@ -1392,6 +1400,20 @@ static const AsmInstFunc table[] = {
   [ENDBR64] = asm_endbr64,
 };
 
+// AH, CH, DH and BH cannot be encoded in an instruction with REX prefix.
+static bool high_byte_with_rex(Inst *inst, Code *code) {
+  bool high = false;
+  for (int i = 0; i < (int)ARRAY_SIZE(inst->opr); ++i) {
+    Operand *opr = &inst->opr[i];
+    if (opr->type == REG && opr->reg.size == REG8 && opr->reg.x == 0 && opr->reg.no >= AH - AL)
+      high = true;
+  }
+  const unsigned char *p = code->buf, *end = p + code->len;
+  while (p < end && (*p == 0x66 || *p == 0xf2 || *p == 0xf3))
+    ++p;
+  return high && p < end && (*p & 0xf0) == 0x40;
+}
+
 void assemble_inst(Inst *inst, ParseInfo *info, Code *code) {
   code->flag = 0;
   code->len = 0;
@@ -1408,7 +1430,8 @@ void assemble_inst(Inst *inst, ParseInfo *info, Code *code) {
           code->len = p - code->buf;
           assert((size_t)code->len <= sizeof(code->buf));
         }
-        return;
+        if (!high_byte_with_rex(inst, code))
+          return;
       }
     }
   }
diff --git a/src/as/arch/x64/parse_x64.c b/src/as/arch/x64/parse_x64.c
index 4b3043a..de246c3 100644
--- a/src/as/arch/x64/parse_x64.c
+++ b/src/as/arch/x64/parse_x64.c
@@ -306,7 +306,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, ExprWithFlag *offse
     if (*info->p == ',') {
       info->p = skip_whitespaces(info->p + 1);
       scale = parse_expr(info);
-      if (scale->kind != EX_FIXNUM)
+      if (scale == NULL || scale->kind != EX_FIXNUM)
         parse_error(info, "constant value expected");
       info->p = skip_whitespaces(info->p);
     }
@@ -361,6 +361,11 @@ static enum RegType parse_deref_register(ParseInfo *info, Operand *operand) {
 
 static unsigned int parse_deref_indirect(ParseInfo *info, Operand *operand) {
   Expr *offset = parse_expr(info);
+  if (offset == NULL) {
+    offset = calloc_or_die(sizeof(*offset));
+    offset->kind = EX_FIXNUM;
+    offset->fixnum = 0;
+  }
   info->p = skip_whitespaces(info->p);
   if (*info->p != '(') {
     parse_error(info, "direct number not implemented");
@@ -387,7 +392,7 @@ static unsigned int parse_deref_indirect(ParseInfo *info, Operand *operand) {
     if (*info->p == ',') {
       info->p = skip_whitespaces(info->p + 1);
       scale = parse_expr(info);
-      if (scale->kind != EX_FIXNUM)
+      if (scale == NULL || scale->kind != EX_FIXNUM)
         parse_error(info, "constant value expected");
       info->p = skip_whitespaces(info->p);
     }
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 63bf85a..3e1b44c 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -560,8 +560,12 @@ static Expr *parse_add(ParseInfo *info) {
 }
 
 Expr *parse_expr(ParseInfo *info) {
+  const char *start = info->p;
   info->prefetched = NULL;
-  return parse_add(info);
+  Expr *expr = parse_add(info);
+  if (expr == NULL)  // Not an expression: Give back what is read.
+    parse_set_p(info, start);
+  return expr;
 }
 
 static void check_line_end(ParseInfo *info) {
@@ -606,6 +610,11 @@ static /*enum RawOpcode*/int find_raw_opcode(ParseInfo *info) {
   return R_NOOP;
 }
 
+static void illegal_operand(ParseInfo *info) {
+  parse_error(info, "Illegal operand");
+  info->p += strlen(info->p);
+}
+
 void parse_inst(ParseInfo *info, Line *line) {
   Inst *inst = &line->inst;
   Operand *opr_table = inst->opr;
@@ -634,7 +643,8 @@ void parse_inst(ParseInfo *info, Line *line) {
         if (*info->p != ',') {
           if (candidates[0]->opr_flags[i] == 0)
             break;
-          return;  // Error
+          illegal_operand(info);
+          return;
         }
         info->p = skip_whitespaces(info->p + 1);
       }
@@ -644,7 +654,8 @@ void parse_inst(ParseInfo *info, Line *line) {
       unsigned int result = parse_operand(info, opr_flags, opr);
       if (result == 0) {
         info->p = before;
-        return;  // Error
+        illegal_operand(info);
+        return;
       }
 
       for (int j = 0; j < n; ++j) {
@@ -660,6 +671,8 @@ void parse_inst(ParseInfo *info, Line *line) {
 
     if (n > 0) {
       inst->op = candidates[0]->op;
+    } else {
+      illegal_operand(info);
     }
   }
 }
-- 
2.43.0


From e0d21b5d9b44fa865b80a9d5ff6a1bbf9827e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 077/170] fix: the first archive member that defines a symbol
 is used

---
 src/util/archive.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/archive.c b/src/util/archive.c
index 5d9c461..a48671c 100644
--- a/src/util/archive.c
+++ b/src/util/archive.c
@@ -131,7 +131,8 @@ Archive *load_archive(const char *filename) {
 
       ArSymbol *symbol = &symbols[i];
       const Name *name = alloc_name(p, q, false);
-      table_put(&ar->symbol_table, name, symbol);
+      if (table_get(&ar->symbol_table, name) == NULL)  // The first member takes precedence.
+        table_put(&ar->symbol_table, name, symbol);
 
       p = q + 1;
     }
-- 
2.43.0


From 2f23a7fbd4a1499aa2c10c7b4940be9a3404471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 078/170] fix: a signed bit-field narrower than a register is
 extracted in int

---
 src/cc/frontend/fe_misc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 41e47f5..aa97175 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1086,9 +1086,14 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
     tmp = new_expr_bop(EX_BITAND, tmp->type, tmp->token, tmp,
                        new_expr_fixlit(tmp->type, tmp->token, mask));
   } else {
-    int w = MAX(type_size(type), MINREGSIZE) * TARGET_CHAR_BIT;
-    int l = w - (minfo->bitfield.position + minfo->bitfield.width);
     tmp = src;
+    if (type_size(type) < MINREGSIZE) {
+      // Shifts are done in the register.
+      type = &tyInt;
+      tmp = make_cast(type, tmp->token, tmp, false);
+    }
+    int w = type_size(type) * TARGET_CHAR_BIT;
+    int l = w - (minfo->bitfield.position + minfo->bitfield.width);
     if (l > 0)
       tmp = new_expr_bop(EX_LSHIFT, tmp->type, tmp->token, tmp,
                          new_expr_fixlit(tmp->type, tmp->token, l));
-- 
2.43.0


From b71580d5430cc37d2b493d6b48b534f0e13c3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 079/170] fix: aarch64 assembler encodes loads and stores with
 any offset, and refuses out of range ones

---
 src/as/arch/aarch64/aarch64_code.h  |  31 ++---
 src/as/arch/aarch64/asm_code.c      | 190 ++++++++--------------------
 src/as/arch/aarch64/parse_aarch64.c |   2 +-
 3 files changed, 60 insertions(+), 163 deletions(-)

diff --git a/src/as/arch/aarch64/aarch64_code.h b/src/as/arch/aarch64/aarch64_code.h
index 7bafad5..001c65c 100644
--- a/src/as/arch/aarch64/aarch64_code.h
+++ b/src/as/arch/aarch64/aarch64_code.h
@@ -32,17 +32,12 @@
 #define W_SBFM(sz, rd, sn, rn, immr, imms)         MAKE_CODE32(inst, code, 0x13000000U | ((sz) << 31) | ((sn) << 22) | ((immr) << 16) | ((imms) << 10) | ((rn) << 5) | (rd))
 #define W_UBFM(sz, rd, sn, rn, immr, imms)         MAKE_CODE32(inst, code, 0x53000000U | ((sz) << 31) | ((sn) << 22) | ((immr) << 16) | ((imms) << 10) | ((rn) << 5) | (rd))
 
-#define W_LDUR(b, s, rt, ofs, base)                MAKE_CODE32(inst, code, 0x38400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define W_LDR_UIMM(b, s, rt, ofs, base)            MAKE_CODE32(inst, code, 0x39400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define W_LDR(b, s, rt, ofs, base, prepost)        MAKE_CODE32(inst, code, 0x38400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define W_STUR(b, rt, ofs, base)                   MAKE_CODE32(inst, code, 0x38000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define W_STR_UIMM(b, rt, ofs, base)               MAKE_CODE32(inst, code, 0x39000000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define W_STR(b, rt, ofs, base, prepost)           MAKE_CODE32(inst, code, 0x38000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define W_LDP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28400000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
-#define W_STP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28000000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
-
-#define W_LDR_R(sz, rt, base, rm, s, s2, option)   MAKE_CODE32(inst, code, 0x38600800U | ((sz) << 30) | ((s) << 23) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
-#define W_STR_R(sz, rt, base, rm, s2, option)      MAKE_CODE32(inst, code, 0x38200800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
+#define W_LDST_UIMM(op, rt, ofs, base)             MAKE_CODE32(inst, code, 0x39000000U | (op) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
+#define W_LDST_IMM9(op, rt, ofs, base, index)      MAKE_CODE32(inst, code, 0x38000000U | (op) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((index) << 10) | ((base) << 5) | (rt))
+#define W_LDST_R(op, rt, base, rm, s2, option)     MAKE_CODE32(inst, code, 0x38200800U | (op) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
+#define W_LDP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28400000U | ((sz) << 31) | ((prepost) << 23) | ((((ofs) >> (2 + (sz))) & ((1U << 7) - 1)) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
+#define W_STP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28000000U | ((sz) << 31) | ((prepost) << 23) | ((((ofs) >> (2 + (sz))) & ((1U << 7) - 1)) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
+
 
 #define W_ADRP(rd, imm)                            MAKE_CODE32(inst, code, 0x90000000U | (IMM(imm, 31, 30) << 29) | (IMM(imm, 29, 12) << 5) | (rd))
 
@@ -71,17 +66,9 @@
 
 // FP instructions.
 
-#define F_LDUR(b, s, rt, ofs, base)                MAKE_CODE32(inst, code, 0xbc400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define F_LDR_UIMM(b, s, rt, ofs, base)            MAKE_CODE32(inst, code, 0xbd400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define F_LDR(b, s, rt, ofs, base, prepost)        MAKE_CODE32(inst, code, 0xbc400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define F_STUR(b, rt, ofs, base)                   MAKE_CODE32(inst, code, 0xbc000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define F_STR_UIMM(b, rt, ofs, base)               MAKE_CODE32(inst, code, 0xbd000000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define F_STR(b, rt, ofs, base, prepost)           MAKE_CODE32(inst, code, 0xbc000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define F_LDP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c400000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
-#define F_STP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c000000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
-
-#define F_LDR_R(sz, rt, base, rm, s, s2, option)   MAKE_CODE32(inst, code, 0xbc700800U | ((sz) << 30) | ((s) << 23) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
-#define F_STR_R(sz, rt, base, rm, s2, option)      MAKE_CODE32(inst, code, 0xbc300800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
+#define F_LDP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c400000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) >> (2 + (b))) & ((1U << 7) - 1)) << 15) | ((ru) << 10) | ((base) << 5) | (rt))
+#define F_STP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c000000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) >> (2 + (b))) & ((1U << 7) - 1)) << 15) | ((ru) << 10) | ((base) << 5) | (rt))
+
 
 #define FMOV(sz, rd, rn)                           MAKE_CODE32(inst, code, 0x1e204000U | ((sz) << 22) | ((rn) << 5) | (rd))
 #define FADD(sz, rd, rn, rm)                       MAKE_CODE32(inst, code, 0x1e202800U | ((sz) << 22) | ((rm) << 16) | ((rn) << 5) | (rd))
diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 6e64a82..68927cb 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -249,107 +249,66 @@ static unsigned char *asm_4r(Inst *inst, Code *code) {
   return code->buf;
 }
 
-static unsigned char *asm_ldrstr(Inst *inst, Code *code) {
+// op: Bits for size, V and opc.
+static unsigned char *asm_load_store(Inst *inst, Code *code, uint32_t op, int scale) {
   Operand *opr1 = &inst->opr[0];
-  uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
   Operand *opr2 = &inst->opr[1];
+  uint32_t rt = opr1->reg.no;
   if (opr2->type == INDIRECT) {
     assert(opr2->indirect.reg.size == REG64);
     // assert(opr2->indirect.offset == NULL || opr2->indirect.offset->kind == EX_FIXNUM);
     ExprWithFlag *offset_expr = &opr2->indirect.offset;
     int64_t offset = offset_expr->expr != NULL && offset_expr->expr->kind == EX_FIXNUM ? offset_expr->expr->fixnum : 0;
-    assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
     uint32_t base = opr2->indirect.reg.no;
-    uint32_t prepost = kPrePost[opr2->indirect.prepost];
-    switch (inst->op) {
-    case LDRB: case LDRH: case LDR:
-    case LDRSB: case LDRSH:
-      {
-        uint32_t b = inst->op - LDRB, s = 0;
-        if (b >= 3) {
-          b -= 3;
-          s = 1;
-        }
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            W_LDR_UIMM(b | sz, s, opr1->reg.no, offset >> (b + (inst->op == LDR ? sz : 0)), base);
-          else
-            W_LDUR(b | sz, s, opr1->reg.no, offset, base);
-        } else {
-          W_LDR(b | sz, s, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    case STRB: case STRH: case STR:
-      {
-        uint32_t b = inst->op - STRB;
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            W_STR_UIMM(b | sz, opr1->reg.no, offset >> (b + (inst->op == STR ? sz : 0)), base);
-          else
-            W_STUR(b | sz, opr1->reg.no, offset, base);
-        } else {
-          W_STR(b | sz, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    default: assert(false); break;
+    if (opr2->indirect.prepost == 0 &&
+        offset >= 0 && offset < (1 << (12 + scale)) && (offset & ((1 << scale) - 1)) == 0) {
+      W_LDST_UIMM(op, rt, offset >> scale, base);
+    } else {
+      if (offset < -256 || offset > 255)
+        return NULL;
+      static const uint32_t kIndex[] = { 0, 3, 1 };
+      W_LDST_IMM9(op, rt, offset, base, kIndex[opr2->indirect.prepost]);
     }
-    return code->buf;
   } else {
     assert(opr2->type == REGISTER_OFFSET);
     assert(opr2->register_offset.scale == NULL || opr2->register_offset.scale->kind == EX_FIXNUM);
 
-    static const uint32_t opts[] = {3, 6, 2, 3, 3};
+    static const uint32_t opts[] = {3, 6, 2, 3, 7};
     uint32_t opt = opts[opr2->register_offset.extend];
+    if ((opr2->register_offset.index_reg.size == REG64) != (opt & 1))
+      return NULL;
 
-    switch (inst->op) {
-    case LDRB: case LDRH: case LDR:
-    case LDRSB: case LDRSH:
-      {
-        uint32_t b = inst->op - LDRB, s = 0;
-        if (b >= 3) {
-          b -= 3;
-          s = 1;
-        }
-        b |= sz;
-
-        uint32_t s2 = 0;
-        Expr *scale = opr2->register_offset.scale;
-        if (scale != NULL) {
-          assert(scale->kind == EX_FIXNUM);
-          int64_t n = scale->fixnum;
-          if (!(n == 0 || n == b)) {
-            // TODO: Error message.
-            return NULL;
-          }
-          s2 = n == b;
-        }
-        W_LDR_R(b, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s, s2, opt);
-      }
-      break;
-    case STRB: case STRH: case STR:
-      {
-        uint32_t b = (inst->op - STRB) | sz;
-
-        uint32_t s2 = 0;
-        Expr *scale = opr2->register_offset.scale;
-        if (scale != NULL) {
-          assert(scale->kind == EX_FIXNUM);
-          int64_t n = scale->fixnum;
-          if (!(n == 0 || n == b)) {
-            // TODO: Error message.
-            return NULL;
-          }
-          s2 = n == b;
-        }
-        W_STR_R(b, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s2, opt);
+    uint32_t s2 = 0;
+    Expr *scale_expr = opr2->register_offset.scale;
+    if (scale_expr != NULL) {
+      int64_t n = scale_expr->fixnum;
+      if (!(n == 0 || n == scale)) {
+        // TODO: Error message.
+        return NULL;
       }
-      break;
-    default: assert(false); break;
+      s2 = n == scale;
     }
-    return code->buf;
+    W_LDST_R(op, rt, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s2, opt);
+  }
+  return code->buf;
+}
+
+static unsigned char *asm_ldrstr(Inst *inst, Code *code) {
+  bool b64 = inst->opr[0].reg.size == REG64;
+  int scale;
+  uint32_t opc;
+  switch (inst->op) {
+  case LDRB:   scale = 0; opc = 1; break;
+  case LDRH:   scale = 1; opc = 1; break;
+  case LDR:    scale = b64 ? 3 : 2; opc = 1; break;
+  case LDRSB:  scale = 0; opc = b64 ? 2 : 3; break;
+  case LDRSH:  scale = 1; opc = b64 ? 2 : 3; break;
+  case STRB:   scale = 0; opc = 0; break;
+  case STRH:   scale = 1; opc = 0; break;
+  case STR:    scale = b64 ? 3 : 2; opc = 0; break;
+  default: assert(false); return NULL;
   }
+  return asm_load_store(inst, code, ((uint32_t)scale << 30) | (opc << 22), scale);
 }
 
 static unsigned char *asm_ldpstp(Inst *inst, Code *code) {
@@ -361,7 +320,8 @@ static unsigned char *asm_ldpstp(Inst *inst, Code *code) {
   assert(opr3->indirect.reg.size == REG64);
   assert(opr3->indirect.offset.expr == NULL || opr3->indirect.offset.expr->kind == EX_FIXNUM);
   int64_t offset = opr3->indirect.offset.expr != NULL ? opr3->indirect.offset.expr->fixnum : 0;
-  assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+  if (offset >= (1 << (6 + 2 + sz)) || offset < -(1 << (6 + 2 + sz)) || (offset & ((4 << sz) - 1)) != 0)
+    return NULL;
   uint32_t base = opr3->indirect.reg.no;
   uint32_t prepost = kPrePost[opr3->indirect.prepost];
   switch (inst->op) {
@@ -437,60 +397,9 @@ static unsigned char *asm_svc(Inst *inst, Code *code) {
 // FP instructions.
 
 static unsigned char *asm_f_ldrstr(Inst *inst, Code *code) {
-  Operand *opr1 = &inst->opr[0];
-  Operand *opr2 = &inst->opr[1];
-  uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
-  if (opr2->type == INDIRECT) {
-    assert(opr2->indirect.reg.size == REG64);
-    // assert(opr2->indirect.offset == NULL || opr2->indirect.offset->kind == EX_FIXNUM);
-    ExprWithFlag *offset_expr = &opr2->indirect.offset;
-    int64_t offset = offset_expr->expr != NULL && offset_expr->expr->kind == EX_FIXNUM ? offset_expr->expr->fixnum : 0;
-    assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
-    uint32_t base = opr2->indirect.reg.no;
-    uint32_t prepost = kPrePost[opr2->indirect.prepost];
-
-    switch (inst->op) {
-    case F_LDR:
-      {
-        uint32_t s = 0;
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            F_LDR_UIMM(sz, s, opr1->reg.no, offset >> (2 + sz), base);
-          else
-            F_LDUR(sz, s, opr1->reg.no, offset, base);
-        } else {
-          F_LDR(sz, s, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    case F_STR:
-      if (opr2->indirect.prepost == 0) {
-        if (offset >= 0)
-          F_STR_UIMM((inst->op - STRB) | sz, opr1->reg.no, 0, base);
-        else
-          F_STUR((inst->op - STRB) | sz, opr1->reg.no, offset, base);
-      } else {
-        F_STR((inst->op - STRB) | sz, opr1->reg.no, offset, base, prepost);
-      }
-      break;
-    default: assert(false); break;
-    }
-    return code->buf;
-  } else {
-    assert(opr2->type == REGISTER_OFFSET);
-    assert(opr2->register_offset.scale == NULL || opr2->register_offset.scale->kind == EX_FIXNUM);
-
-    static const uint32_t opts[] = {3, 6, 2, 3, 3};
-    uint32_t opt = opts[opr2->register_offset.extend];
-    uint32_t s = opr2->register_offset.extend > 0 ? 1 : 0;
-
-    switch (inst->op) {
-    case F_LDR:  F_LDR_R(sz, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, 0, s, opt); break;
-    case F_STR:  F_STR_R(sz, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s, opt); break;
-    default: assert(false); break;
-    }
-    return code->buf;
-  }
+  int scale = inst->opr[0].reg.size == REG64 ? 3 : 2;
+  uint32_t opc = inst->op == F_LDR ? 1 : 0;
+  return asm_load_store(inst, code, ((uint32_t)scale << 30) | (1U << 26) | (opc << 22), scale);
 }
 
 static unsigned char *asm_f_ldpstp(Inst *inst, Code *code) {
@@ -501,7 +410,8 @@ static unsigned char *asm_f_ldpstp(Inst *inst, Code *code) {
   assert(opr3->indirect.reg.size == REG64);
   assert(opr3->indirect.offset.expr == NULL || opr3->indirect.offset.expr->kind == EX_FIXNUM);
   int64_t offset = opr3->indirect.offset.expr != NULL ? opr3->indirect.offset.expr->fixnum : 0;
-  assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+  if (offset >= (1 << (6 + 2 + sz)) || offset < -(1 << (6 + 2 + sz)) || (offset & ((4 << sz) - 1)) != 0)
+    return NULL;
   uint32_t base = opr3->indirect.reg.no;
   uint32_t prepost = kPrePost[opr3->indirect.prepost];
   switch (inst->op) {
@@ -569,7 +479,7 @@ static const AsmInstFunc table[] = {
   [SXTB] = asm_2r, [SXTH] = asm_2r,  [SXTW] = asm_2r,
   [UXTB] = asm_2r, [UXTH] = asm_2r,  [UXTW] = asm_2r,
   [LDRB] = asm_ldrstr, [LDRSB] = asm_ldrstr, [LDR] = asm_ldrstr,
-  [LDRH] = asm_ldrstr, [LDRSH] = asm_ldrstr, [LDRSW] = asm_ldrstr,
+  [LDRH] = asm_ldrstr, [LDRSH] = asm_ldrstr,
   [STRB] = asm_ldrstr, [STRH] = asm_ldrstr,  [STR] = asm_ldrstr,
   [LDP] = asm_ldpstp,
   [STP] = asm_ldpstp,
diff --git a/src/as/arch/aarch64/parse_aarch64.c b/src/as/arch/aarch64/parse_aarch64.c
index 9a18bf6..d7f0398 100644
--- a/src/as/arch/aarch64/parse_aarch64.c
+++ b/src/as/arch/aarch64/parse_aarch64.c
@@ -389,7 +389,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, Operand *operand) {
   } else {
     operand->type = REGISTER_OFFSET;
     operand->register_offset.base_reg.size = REG64;
-    operand->register_offset.base_reg.no = reg - X0;
+    operand->register_offset.base_reg.no = reg == SP ? 31 : reg - X0;
     if (is_reg64(reg2)) {
       operand->register_offset.index_reg.size = REG64;
       operand->register_offset.index_reg.no = reg2 - X0;
-- 
2.43.0


From e3906746462385e70e79e3a61f89b0895ff6fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 080/170] fix: aarch64 negative constants in 64bit unsigned
 types

---
 src/cc/arch/aarch64/aarch64.h      |  2 +-
 src/cc/arch/aarch64/emit_aarch64.c |  2 +-
 src/cc/arch/aarch64/ir_aarch64.c   | 25 ++++++++++++-------------
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/cc/arch/aarch64/aarch64.h b/src/cc/arch/aarch64/aarch64.h
index acd733e..8945f6e 100644
--- a/src/cc/arch/aarch64/aarch64.h
+++ b/src/cc/arch/aarch64/aarch64.h
@@ -261,4 +261,4 @@ char *post_index(const char *reg, int offset);
 char *reg_offset(const char *base, const char *reg, const char *shift);
 char *label_at_page(char *label, int flag, int64_t offset);  // bit0=pageoff, bit1=got
 
-void mov_immediate(const char *dst, int64_t value, bool b64, bool is_unsigned);
+void mov_immediate(const char *dst, int64_t value, bool b64);
diff --git a/src/cc/arch/aarch64/emit_aarch64.c b/src/cc/arch/aarch64/emit_aarch64.c
index a7173be..e48285c 100644
--- a/src/cc/arch/aarch64/emit_aarch64.c
+++ b/src/cc/arch/aarch64/emit_aarch64.c
@@ -265,7 +265,7 @@ void emit_defun_body(Function *func) {
         value = IM(frame_size);
       } else {
         // Break x17
-        mov_immediate(value = X17, frame_size, true, false);
+        mov_immediate(value = X17, frame_size, true);
       }
       SUB(SP, SP, value);
     }
diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index 20f789e..9e7d180 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -248,7 +248,7 @@ static inline bool is_im48(int64_t x) {
   return x <= ((1L << 47) - 1) && x >= -(1L << 47);
 }
 
-void mov_immediate(const char *dst, int64_t value, bool b64, bool is_unsigned) {
+void mov_immediate(const char *dst, int64_t value, bool b64) {
   // TODO: Investigate available immediate value range.
   // It looks the architecture can take more than 16-bit immediate.
 
@@ -257,7 +257,7 @@ void mov_immediate(const char *dst, int64_t value, bool b64, bool is_unsigned) {
   } else if (is_im16(value)) {
     MOV(dst, IM(value));
   } else {
-    int32_t l = !is_unsigned && value < 0
+    int32_t l = value < 0
         ? (int16_t)value == 0 ? (int32_t)0xffff0000  // This bit patten can be represented in MOV.
                               : (int32_t)-((uint16_t)(-(int)value))
         : (int32_t)(uint16_t)value;
@@ -324,7 +324,7 @@ static void ei_bofs(IR *ir) {
   if (is_im13_addsubimm(offset)) {
     ADD(dst, FP, IM(offset));
   } else {
-    mov_immediate(dst, offset, true, false);
+    mov_immediate(dst, offset, true);
     ADD(dst, dst, FP);
   }
 }
@@ -371,7 +371,7 @@ static void ei_load(IR *ir) {
       src = IMMEDIATE_OFFSET(FP, ir->opr1->frame.offset);
     } else {
       const char *tmp = kTmpRegTable[3];
-      mov_immediate(tmp, ir->opr1->frame.offset, true, false);
+      mov_immediate(tmp, ir->opr1->frame.offset, true);
       src = REG_OFFSET(FP, tmp, NULL);
     }
   }
@@ -420,7 +420,7 @@ static void ei_store(IR *ir) {
       target = IMMEDIATE_OFFSET(FP, ir->opr2->frame.offset);
     } else {
       const char *tmp = kTmpRegTable[3];
-      mov_immediate(tmp, ir->opr2->frame.offset, true, false);
+      mov_immediate(tmp, ir->opr2->frame.offset, true);
       target = REG_OFFSET(FP, tmp, NULL);
     }
   }
@@ -435,8 +435,7 @@ static void ei_store(IR *ir) {
     if (ir->opr1->fixnum == 0)
       src = kZeroRegTable[pow];
     else
-      mov_immediate(src = kTmpRegTable[pow], ir->opr1->fixnum, pow >= 3,
-                    ir->flag & IRF_UNSIGNED);
+      mov_immediate(src = kTmpRegTable[pow], ir->opr1->fixnum, pow >= 3);
   } else {
     src = kRegSizeTable[pow][ir->opr1->phys];
   }
@@ -612,7 +611,7 @@ static void ei_rshift(IR *ir) {
   if (ir->opr2->flag & VRF_CONST) {
     if (ir->flag & IRF_UNSIGNED) {
       if ((uint64_t)ir->opr2->fixnum >= (pow < 3 ? 32 : 64))
-        mov_immediate(regs[ir->dst->phys], 0, pow >= 3, true);
+        mov_immediate(regs[ir->dst->phys], 0, pow >= 3);
       else
         RSHIFT_INST(regs[ir->dst->phys], regs[ir->opr1->phys], IM(ir->opr2->fixnum));
     } else {
@@ -735,7 +734,7 @@ static void ei_cast(IR *ir) {
   }
 }
 
-static void emit_mov(int dstphys, VReg *opr1, bool is_unsigned) {
+static void emit_mov(int dstphys, VReg *opr1) {
   if (opr1->flag & VRF_FLONUM) {
     assert(!(opr1->flag & VRF_CONST));
     if (opr1->phys != dstphys) {
@@ -752,7 +751,7 @@ static void emit_mov(int dstphys, VReg *opr1, bool is_unsigned) {
     assert(0 <= pow && pow < 4);
     const char **regs = kRegSizeTable[pow];
     if (opr1->flag & VRF_CONST) {
-      mov_immediate(regs[dstphys], opr1->fixnum, pow >= 3, is_unsigned);
+      mov_immediate(regs[dstphys], opr1->fixnum, pow >= 3);
     } else {
       if (opr1->phys != dstphys)
         MOV(regs[dstphys], regs[opr1->phys]);
@@ -761,12 +760,12 @@ static void emit_mov(int dstphys, VReg *opr1, bool is_unsigned) {
 }
 
 static void ei_mov(IR *ir) {
-  emit_mov(ir->dst->phys, ir->opr1, ir->flag & IRF_UNSIGNED);
+  emit_mov(ir->dst->phys, ir->opr1);
 }
 
 static void ei_result(IR *ir) {
   int dstphys = (ir->opr1->flag & VRF_FLONUM) ? GET_D0_INDEX() : GET_X0_INDEX();
-  emit_mov(dstphys, ir->opr1, ir->flag & IRF_UNSIGNED);
+  emit_mov(dstphys, ir->opr1);
 }
 
 static void ei_cond(IR *ir) {
@@ -888,7 +887,7 @@ static void ei_pusharg(IR *ir) {
     // Assume parameter registers are arranged from index 0.
     const char *dst = kRegSizeTable[pow][ir->pusharg.index];
     if (ir->opr1->flag & VRF_CONST)
-      mov_immediate(dst, ir->opr1->fixnum, pow >= 3, ir->flag & IRF_UNSIGNED);
+      mov_immediate(dst, ir->opr1->fixnum, pow >= 3);
     else if (ir->pusharg.index != ir->opr1->phys)
       MOV(dst, kRegSizeTable[pow][ir->opr1->phys]);
   }
-- 
2.43.0


From e087bf80b513ad0b0c5185730e68fc289f2a1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 081/170] fix: aarch64 values narrower than 32bit are extended
 where the upper bits matter

---
 src/cc/arch/aarch64/ir_aarch64.c | 34 +++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index 9e7d180..af33da4 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -289,7 +289,26 @@ static bool is_got(const Name *name) {
 #endif
 }
 
-static void cmp_vregs(VReg *opr1, VReg *opr2) {
+// The upper bits of a register which holds a value narrower than 32bit are undefined:
+// Extend them before an operation whose result depends on them.
+static void extend_narrow(VReg *vreg, bool is_unsigned) {
+  if (vreg->flag & (VRF_FLONUM | VRF_CONST))
+    return;
+  const char *reg = kReg32s[vreg->phys];
+  switch (vreg->vsize) {
+  case VRegSize1:
+    if (is_unsigned)  UXTB(reg, reg);
+    else              SXTB(reg, reg);
+    break;
+  case VRegSize2:
+    if (is_unsigned)  UXTH(reg, reg);
+    else              SXTH(reg, reg);
+    break;
+  default: break;
+  }
+}
+
+static void cmp_vregs(VReg *opr1, VReg *opr2, bool is_unsigned) {
   assert(opr1 != NULL && opr2 != NULL);
   if (opr1->flag & VRF_FLONUM) {
     assert((opr2->flag & (VRF_FLONUM | VRF_CONST)) == VRF_FLONUM);
@@ -320,6 +339,8 @@ static void cmp_vregs(VReg *opr1, VReg *opr2) {
 
 static void ei_bofs(IR *ir) {
   const char *dst = kReg64s[ir->dst->phys];
+    extend_narrow(opr1, is_unsigned);
+    extend_narrow(opr2, is_unsigned);
   int64_t offset = ir->bofs.frameinfo->offset + ir->bofs.offset;
   if (is_im13_addsubimm(offset)) {
     ADD(dst, FP, IM(offset));
@@ -556,6 +577,8 @@ static void ei_mod(IR *ir) {
   const char *num = regs[ir->opr1->phys];
   const char *div = regs[ir->opr2->phys];
   const char *tmp = kTmpRegTable[pow];
+    extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
+    extend_narrow(ir->opr2, ir->flag & IRF_UNSIGNED);
   if (!(ir->flag & IRF_UNSIGNED))
     SDIV(tmp, num, div);
   else
@@ -571,6 +594,8 @@ static void ei_bitand(IR *ir) {
   const char **regs = kRegSizeTable[pow];
   AND(regs[ir->dst->phys], regs[ir->opr1->phys], regs[ir->opr2->phys]);
 }
+  extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
+  extend_narrow(ir->opr2, ir->flag & IRF_UNSIGNED);
 
 static void ei_bitor(IR *ir) {
   assert(!(ir->opr1->flag & VRF_CONST) && !(ir->opr2->flag & VRF_CONST));
@@ -623,6 +648,7 @@ static void ei_rshift(IR *ir) {
   } else {
     RSHIFT_INST(regs[ir->dst->phys], regs[ir->opr1->phys], regs[ir->opr2->phys]);
   }
+  extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
 #undef RSHIFT_INST
 }
 
@@ -695,6 +721,7 @@ static void ei_cast(IR *ir) {
       }
     } else {
       switch (ir->opr1->vsize) {
+      extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
       case SZ_FLOAT:   FCVTZS(kRegSizeTable[powd][ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
       case SZ_DOUBLE:  FCVTZS(kRegSizeTable[powd][ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
       default: assert(false); break;
@@ -769,7 +796,7 @@ static void ei_result(IR *ir) {
 }
 
 static void ei_cond(IR *ir) {
-  cmp_vregs(ir->opr1, ir->opr2);
+  cmp_vregs(ir->opr1, ir->opr2, (ir->cond.kind & COND_UNSIGNED) != 0);
 
   assert(!(ir->dst->flag & VRF_CONST));
   const char *dst = kReg32s[ir->dst->phys];  // Assume bool is 4 byte.
@@ -813,7 +840,7 @@ static void ei_jmp(IR *ir) {
     return;
   }
 
-  cmp_vregs(ir->opr1, ir->opr2);
+  cmp_vregs(ir->opr1, ir->opr2, (ir->jmp.cond & COND_UNSIGNED) != 0);
 
   if (cond & COND_FLONUM) {
     cond &= COND_MASK;
@@ -870,6 +897,7 @@ static void ei_tjmp(IR *ir) {
   }
   _TEXT();
 }
+  extend_narrow(ir->opr1, true);
 
 static void ei_pusharg(IR *ir) {
   int pow = ir->opr1->vsize;
-- 
2.43.0


From 204f84769de58804f7e80facc33a19c8589eb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 082/170] fix: aarch64 stack frames and stack arguments beyond
 the immediate range

---
 src/cc/arch/aarch64/emit_aarch64.c | 25 ++++++++++---
 src/cc/arch/aarch64/ir_aarch64.c   | 59 ++++++++++++++++++++----------
 2 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/src/cc/arch/aarch64/emit_aarch64.c b/src/cc/arch/aarch64/emit_aarch64.c
index e48285c..01e32e4 100644
--- a/src/cc/arch/aarch64/emit_aarch64.c
+++ b/src/cc/arch/aarch64/emit_aarch64.c
@@ -106,8 +106,8 @@ static void move_params_to_assigned(Function *func) {
       if (offset >= -256) {
         dst = IMMEDIATE_OFFSET(FP, offset);
       } else {
-        mov_immediate(X9, offset, true, false);  // x9 broken.
-        dst = REG_OFFSET(FP, X9, NULL);
+        mov_immediate(X17, offset, true);  // x17 broken.
+        dst = REG_OFFSET(FP, X17, NULL);
       }
       switch (pow) {
       case 0:          STRB(src, dst); break;
@@ -127,7 +127,14 @@ static void move_params_to_assigned(Function *func) {
     if (vreg->flag & VRF_SPILLED) {
       int offset = vreg->frame.offset;
       assert(offset != 0);
-      STR(src, IMMEDIATE_OFFSET(FP, offset));
+      const char *dst;
+      if (offset >= -256) {
+        dst = IMMEDIATE_OFFSET(FP, offset);
+      } else {
+        mov_immediate(X17, offset, true);  // x17 broken.
+        dst = REG_OFFSET(FP, X17, NULL);
+      }
+      STR(src, dst);
     } else {
       if (p->index != vreg->phys) {
         const char *dst = (p->type->flonum.kind >= FL_DOUBLE ? kFReg64s : kFReg32s)[vreg->phys];
@@ -280,8 +287,16 @@ void emit_defun_body(Function *func) {
     if (!no_stmt) {
       if (fp_saved)
         MOV(SP, FP);
-      else if (frame_size > 0)
-        ADD(SP, SP, IM(frame_size));
+      else if (frame_size > 0) {
+        const char *value;
+        if (frame_size <= 0x0fff) {
+          value = IM(frame_size);
+        } else {
+          // Break x17
+          mov_immediate(value = X17, frame_size, true);
+        }
+        ADD(SP, SP, value);
+      }
 
       pop_callee_save_regs(used_reg_bits, fnbe->ra->used_freg_bits);
 
diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index af33da4..68da637 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -206,29 +206,44 @@ Vector *collect_caller_save_regs(unsigned long living) {
   return saves;
 }
 
+static const char *caller_save_base(Vector *saves, int *poffset) {
+  // The range of the offset for STP/LDP is limited: [-512,504]
+  int offset = *poffset;
+  if (saves->len == 0 || offset + (saves->len - 2) * TARGET_POINTER_SIZE <= 504)
+    return SP;
+
+  const char *tmp = kTmpRegTable[3];
+  mov_immediate(tmp, offset, true);
+  ADD(tmp, SP, tmp);
+  *poffset = 0;
+  return tmp;
+}
+
 static void push_caller_save_regs(Vector *saves, int offset) {
   assert((saves->len & 1) == 0);
+  const char *base = caller_save_base(saves, &offset);
   offset += saves->len * TARGET_POINTER_SIZE;
   for (int i = 0; i < saves->len; ) {
     offset -= TARGET_POINTER_SIZE * 2;
     const char *save1 = saves->data[i++];
     const char *save2 = saves->data[i++];
     if (save2 != NULL)
-      STP(save1, save2, IMMEDIATE_OFFSET(SP, offset));
+      STP(save1, save2, IMMEDIATE_OFFSET(base, offset));
     else
-      STR(save1, IMMEDIATE_OFFSET(SP, offset));
+      STR(save1, IMMEDIATE_OFFSET(base, offset));
   }
 }
 
 static void pop_caller_save_regs(Vector *saves, int offset) {
   assert((saves->len & 1) == 0);
+  const char *base = caller_save_base(saves, &offset);
   for (int i = saves->len; i > 0; ) {
     const char *save2 = saves->data[--i];
     const char *save1 = saves->data[--i];
     if (save2 != NULL)
-      LDP(save1, save2, IMMEDIATE_OFFSET(SP, offset));
+      LDP(save1, save2, IMMEDIATE_OFFSET(base, offset));
     else
-      LDR(save1, IMMEDIATE_OFFSET(SP, offset));
+      LDR(save1, IMMEDIATE_OFFSET(base, offset));
     offset += TARGET_POINTER_SIZE * 2;
   }
 }
@@ -324,6 +339,8 @@ static void cmp_vregs(VReg *opr1, VReg *opr2, bool is_unsigned) {
     int pow = opr1->vsize;
     assert(0 <= pow && pow < 4);
     const char **regs = kRegSizeTable[pow];
+    extend_narrow(opr1, is_unsigned);
+    extend_narrow(opr2, is_unsigned);
     if (opr2->flag & VRF_CONST) {
       if (opr2->fixnum == 0)
         CMP(regs[opr1->phys], kZeroRegTable[pow]);
@@ -339,8 +356,6 @@ static void cmp_vregs(VReg *opr1, VReg *opr2, bool is_unsigned) {
 
 static void ei_bofs(IR *ir) {
   const char *dst = kReg64s[ir->dst->phys];
-    extend_narrow(opr1, is_unsigned);
-    extend_narrow(opr2, is_unsigned);
   int64_t offset = ir->bofs.frameinfo->offset + ir->bofs.offset;
   if (is_im13_addsubimm(offset)) {
     ADD(dst, FP, IM(offset));
@@ -374,8 +389,8 @@ static void ei_sofs(IR *ir) {
   } else if (is_im13_addsubimm(ofs)) {
     ADD(dst, SP, IM(ofs));
   } else {
-    mov_immediate(dst, ofs, true, false);
-    ADD(dst, dst, SP);
+    mov_immediate(dst, ofs, true);
+    ADD(dst, SP, dst);
   }
 }
 
@@ -562,6 +577,8 @@ static void ei_div(IR *ir) {
     int pow = ir->dst->vsize;
     assert(0 <= pow && pow < 4);
     const char **regs = kRegSizeTable[pow];
+    extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
+    extend_narrow(ir->opr2, ir->flag & IRF_UNSIGNED);
     if (!(ir->flag & IRF_UNSIGNED))
       SDIV(regs[ir->dst->phys], regs[ir->opr1->phys], regs[ir->opr2->phys]);
     else
@@ -577,8 +594,8 @@ static void ei_mod(IR *ir) {
   const char *num = regs[ir->opr1->phys];
   const char *div = regs[ir->opr2->phys];
   const char *tmp = kTmpRegTable[pow];
-    extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
-    extend_narrow(ir->opr2, ir->flag & IRF_UNSIGNED);
+  extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
+  extend_narrow(ir->opr2, ir->flag & IRF_UNSIGNED);
   if (!(ir->flag & IRF_UNSIGNED))
     SDIV(tmp, num, div);
   else
@@ -594,8 +611,6 @@ static void ei_bitand(IR *ir) {
   const char **regs = kRegSizeTable[pow];
   AND(regs[ir->dst->phys], regs[ir->opr1->phys], regs[ir->opr2->phys]);
 }
-  extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
-  extend_narrow(ir->opr2, ir->flag & IRF_UNSIGNED);
 
 static void ei_bitor(IR *ir) {
   assert(!(ir->opr1->flag & VRF_CONST) && !(ir->opr2->flag & VRF_CONST));
@@ -633,6 +648,7 @@ static void ei_rshift(IR *ir) {
   int pow = ir->dst->vsize;
   assert(0 <= pow && pow < 4);
   const char **regs = kRegSizeTable[pow];
+  extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
   if (ir->opr2->flag & VRF_CONST) {
     if (ir->flag & IRF_UNSIGNED) {
       if ((uint64_t)ir->opr2->fixnum >= (pow < 3 ? 32 : 64))
@@ -648,7 +664,6 @@ static void ei_rshift(IR *ir) {
   } else {
     RSHIFT_INST(regs[ir->dst->phys], regs[ir->opr1->phys], regs[ir->opr2->phys]);
   }
-  extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
 #undef RSHIFT_INST
 }
 
@@ -706,6 +721,7 @@ static void ei_cast(IR *ir) {
       default: assert(false); break;
       }
       const char *src = kRegSizeTable[pows][ir->opr1->phys];
+      extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
       if (ir->flag & IRF_UNSIGNED)  UCVTF(dst, src);
       else                          SCVTF(dst, src);
     }
@@ -721,7 +737,6 @@ static void ei_cast(IR *ir) {
       }
     } else {
       switch (ir->opr1->vsize) {
-      extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
       case SZ_FLOAT:   FCVTZS(kRegSizeTable[powd][ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
       case SZ_DOUBLE:  FCVTZS(kRegSizeTable[powd][ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
       default: assert(false); break;
@@ -882,6 +897,7 @@ static void ei_tjmp(IR *ir) {
   const char *dst = kRegSizeTable[3][ir->opr2->phys];
   const Name *table_label = alloc_label();
   char *label = fmt_name(table_label);
+  extend_narrow(ir->opr1, true);
   ADRP(dst, LABEL_AT_PAGE(label, 0));
   ADD(dst, dst, LABEL_AT_PAGEOFF(label, 0));
   // dst = label + (opr1 << 3)
@@ -897,7 +913,6 @@ static void ei_tjmp(IR *ir) {
   }
   _TEXT();
 }
-  extend_narrow(ir->opr1, true);
 
 static void ei_pusharg(IR *ir) {
   int pow = ir->opr1->vsize;
@@ -963,10 +978,16 @@ static void ei_call(IR *ir) {
 static void ei_subsp(IR *ir) {
   if (ir->opr1->flag & VRF_CONST) {
     assert(ir->opr1->fixnum % 16 == 0);
-    if (ir->opr1->fixnum > 0)
-      SUB(SP, SP, IM(ir->opr1->fixnum));
-    else if (ir->opr1->fixnum < 0)
-      ADD(SP, SP, IM(-ir->opr1->fixnum));
+    int64_t size = ir->opr1->fixnum;
+    if (!is_im13_addsubimm(size)) {
+      const char *tmp = kTmpRegTable[3];
+      mov_immediate(tmp, size, true);
+      SUB(SP, SP, tmp);
+    } else if (size > 0) {
+      SUB(SP, SP, IM(size));
+    } else if (size < 0) {
+      ADD(SP, SP, IM(-size));
+    }
   } else {
     SUB(SP, SP, kReg64s[ir->opr1->phys]);
   }
-- 
2.43.0


From 257b2674d113929d76e88f0fb37c96ceaac959aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 083/170] fix: riscv64 variadic functions which pass or take
 structs

---
 include/stdarg.h              |  8 +++++++
 src/cc/backend/codegen.c      | 10 ++++++++-
 src/cc/backend/codegen_expr.c | 40 +++++++++++++++++++++++++++++++++--
 src/cc/builtin.c              | 34 ++++++++++-------------------
 4 files changed, 66 insertions(+), 26 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index f73afc4..96fbea9 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -19,7 +19,15 @@ typedef void **va_list;
 
 #define va_start(ap,p)    __builtin_va_start(ap,p)
 #define va_end(ap)        /*(void)*/(ap = 0)
+#ifdef __riscv
+// Struct (or union) is passed by a pointer to its copy.
+struct __va_struct { char c; };
+#define va_arg(ap, type) \
+    (*(type*)(__builtin_classify_type(type) == __builtin_classify_type(struct __va_struct) \
+        ? *(ap)++ : (void*)(ap)++))
+#else
 #define va_arg(ap, type)  (*(type*)(ap)++)  // Assume little endian
+#endif
 #define va_copy(dst,src)  (dst = src)
 
 #else  // not (__APPLE__ and __aarch64__) nor __riscv
diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index ab860e4..303090c 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -784,7 +784,15 @@ void alloc_stack_variables_onto_stack_frame(Function *func) {
 
   if (func->type->func.vaargs) {
 #if VAARG_FP_AS_GP
-    // Register parameters are put below stack frame, so not added to frame_size.
+    // Register parameters are put below stack frame, so not added to frame_size,
+    // but they are placed before stack parameters.
+    RegParamInfo iparams[MAX_REG_ARGS];
+    RegParamInfo fparams[MAX_FREG_ARGS];
+    int iparam_count = 0;
+    int fparam_count = 0;
+    enumerate_register_params(func, iparams, MAX_REG_ARGS, fparams, MAX_FREG_ARGS,
+                              &iparam_count, &fparam_count);
+    param_offset += ALIGN(MAX_REG_ARGS - iparam_count, 2) * TARGET_POINTER_SIZE;
 #else
     frame_size = (MAX_REG_ARGS + MAX_FREG_ARGS) * TARGET_POINTER_SIZE;
 #endif
diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 708c4e8..3ae5c90 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -375,6 +375,7 @@ static VReg *gen_funcall(Expr *expr) {
     bool is_flo;
 #if VAARG_FP_AS_GP
     bool fp_as_gp;
+    int copy_offset;
 #endif
   } ArgInfo;
 
@@ -386,9 +387,16 @@ static VReg *gen_funcall(Expr *expr) {
   int offset = 0;
   Vector *args = expr->funcall.args;
   int arg_count = args->len;
+#if VAARG_FP_AS_GP
+  int copy_base = 0;
+#endif
   {
     int ireg_index = arg_start;
     int freg_index = 0;
+#if VAARG_FP_AS_GP
+    bool named_on_stack = false;
+    int copy_size = 0;
+#endif
 
     // Check stack arguments.
     arg_infos = ALLOCA(sizeof(*arg_infos) * arg_count);
@@ -405,9 +413,21 @@ static VReg *gen_funcall(Expr *expr) {
       if (functype->func.vaargs && functype->func.params != NULL && i >= functype->func.params->len) {
         p->is_flo = false;
         p->fp_as_gp = true;
+        // Variadic arguments follow named ones on the stack (refer gen_builtin_va_start).
+        named_on_stack = named_on_stack || (i == functype->func.params->len && offset > 0);
       }
-#endif
+      // A variadic struct is passed by the pointer to its copy (refer va_arg in stdarg.h).
+      bool by_ref = p->fp_as_gp && is_stack_param(arg->type);
+      p->stack_arg = named_on_stack || (is_stack_param(arg->type) && !by_ref);
+      p->copy_offset = -1;
+      if (by_ref) {
+        p->copy_offset = ALIGN(copy_size, align_size(arg->type));
+        copy_size = p->copy_offset + p->size;
+        p->size = TARGET_POINTER_SIZE;
+      }
+#else
       p->stack_arg = is_stack_param(arg->type);
+#endif
 #if VAARG_ON_STACK
       if (functype->func.vaargs && functype->func.params != NULL && i >= functype->func.params->len)
         p->stack_arg = true;
@@ -427,6 +447,13 @@ static VReg *gen_funcall(Expr *expr) {
         }
       }
     }
+#if VAARG_FP_AS_GP
+    // Copies of variadic structs are put after stack arguments.
+    if (copy_size > 0) {
+      copy_base = offset = ALIGN(offset, TARGET_POINTER_SIZE);
+      offset += ALIGN(copy_size, TARGET_POINTER_SIZE);
+    }
+#endif
   }
 
   int total_arg_count = arg_count + (ret_varinfo != NULL ? 1 : 0);
@@ -440,6 +467,15 @@ static VReg *gen_funcall(Expr *expr) {
       Expr *arg = args->data[i];
       VReg *vreg = gen_expr(arg);
       const ArgInfo *p = &arg_infos[i];
+      bool struct_arg = is_stack_param(arg->type);
+#if VAARG_FP_AS_GP
+      if (p->copy_offset >= 0) {
+        VReg *dst = new_ir_sofs(new_const_vreg(copy_base + p->copy_offset, 2))->dst;
+        gen_memcpy(arg->type, dst, vreg);
+        vreg = dst;
+        struct_arg = false;
+      }
+#endif
       if (p->offset < 0) {
         if (p->is_flo) {
           ++fregarg;
@@ -462,7 +498,7 @@ static VReg *gen_funcall(Expr *expr) {
         enum VRegSize offset_type = 2;  //{.size = 4, .align = 4};  // TODO:
         int ofs = p->offset;
         VReg *dst = new_ir_sofs(new_const_vreg(ofs, offset_type))->dst;
-        if (is_stack_param(arg->type)) {
+        if (struct_arg) {
           gen_memcpy(arg->type, dst, vreg);
         } else {
           int flag = is_unsigned(arg->type) ? IRF_UNSIGNED : 0;
diff --git a/src/cc/builtin.c b/src/cc/builtin.c
index 94adb39..bc87033 100644
--- a/src/cc/builtin.c
+++ b/src/cc/builtin.c
@@ -160,34 +160,22 @@ static VReg *gen_builtin_va_start(Expr *expr) {
 
   // The hidden pointer to a returned struct occupies the first integer register.
   int gn = is_stack_param(curfunc->type->func.ret) ? 1 : 0;
+  int fn = 0;
+  int stack_size = 0;  // Total size of the named parameters on the stack.
   for (int i = 0; i < params->len; ++i) {
     VarInfo *info = params->data[i];
     const Type *t = info->type;
-    if (t->kind != TY_STRUCT) {
-      if (!is_flonum(t))
-        ++gn;
-    }
+    if (is_stack_param(t))
+      stack_size = ALIGN(stack_size, align_size(t)) + ALIGN(type_size(t), TARGET_POINTER_SIZE);
+    else if (is_flonum(t) ? fn++ >= MAX_FREG_ARGS : gn++ >= MAX_REG_ARGS)
+      stack_size += TARGET_POINTER_SIZE;
   }
 
-  int offset = 0;
-  if (gn >= MAX_REG_ARGS) {
-    offset = (gn - MAX_REG_ARGS) * TARGET_POINTER_SIZE;
-  } else {
-    // Check whether register arguments saved on stack has padding.
-    RegParamInfo iparams[MAX_REG_ARGS];
-    RegParamInfo fparams[MAX_FREG_ARGS];
-    int iparam_count = 0;
-    int fparam_count = 0;
-    enumerate_register_params(curfunc, iparams, MAX_REG_ARGS, fparams, MAX_FREG_ARGS,
-                              &iparam_count, &fparam_count);
-
-    int n = MAX_REG_ARGS - iparam_count;
-    if (n > 0) {
-      int size_org = n * TARGET_POINTER_SIZE;
-      int size = ALIGN(n, 2) * TARGET_POINTER_SIZE;
-      offset = size - size_org;
-    }
-  }
+  int n = MAX_REG_ARGS - MIN(gn, MAX_REG_ARGS);
+  int saved_size = ALIGN(n, 2) * TARGET_POINTER_SIZE;
+  // If a named parameter is on the stack, all variadic arguments follow it there.
+  // Otherwise they start from the saved registers, which might have padding.
+  int offset = saved_size + (stack_size > 0 ? stack_size : -n * TARGET_POINTER_SIZE);
 
   FuncBackend *fnbe = curfunc->extra;
   FrameInfo *fi = &fnbe->vaarg_frame_info;
-- 
2.43.0


From c70f07e4357cfa151a3df7c1869f9b06a39313e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 084/170] fix: riscv64 fs8 is callee saved

---
 src/cc/arch/riscv64/ir_riscv64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 65e527d..2e6500e 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -45,7 +45,7 @@ const char *kFReg64s[PHYSICAL_FREG_MAX] = {
 #define GET_FA0_INDEX()   0
 
 #define CALLEE_SAVE_FREG_COUNT  ((int)ARRAY_SIZE(kCalleeSaveFRegs))
-static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19};
+static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};
 
 #define CALLER_SAVE_FREG_COUNT  ((int)ARRAY_SIZE(kCallerSaveFRegs))
 static const int kCallerSaveFRegs[] = {20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31};
-- 
2.43.0


From 37e3fee69f3f6eb8684087198e433ac475a4a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 085/170] fix: riscv64 signedness of conversion from float is
 swapped

---
 src/cc/arch/riscv64/ir_riscv64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 2e6500e..14f37f1 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -592,14 +592,14 @@ static void ei_cast(IR *ir) {
       assert(!(ir->opr1->flag & VRF_CONST));
       if (ir->flag & IRF_UNSIGNED) {
         switch (ir->opr1->vsize) {
-        case SZ_FLOAT:   FCVT_W_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
-        case SZ_DOUBLE:  FCVT_W_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
+        case SZ_FLOAT:   FCVT_WU_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
+        case SZ_DOUBLE:  FCVT_WU_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
         default: assert(false); break;
         }
       } else {
         switch (ir->opr1->vsize) {
-        case SZ_FLOAT:   FCVT_WU_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
-        case SZ_DOUBLE:  FCVT_WU_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
+        case SZ_FLOAT:   FCVT_W_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
+        case SZ_DOUBLE:  FCVT_W_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
         default: assert(false); break;
         }
       }
-- 
2.43.0


From c7475e6df54de2df52b0acc0dd797437f222593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 086/170] fix: riscv64 stack frames and stack arguments beyond
 the immediate range

---
 src/cc/arch/riscv64/emit_riscv64.c | 34 ++++++++++++++++++++++--------
 src/cc/arch/riscv64/ir_riscv64.c   | 33 ++++++++++++++++++++++-------
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/cc/arch/riscv64/emit_riscv64.c b/src/cc/arch/riscv64/emit_riscv64.c
index 0bfd16d..60807a7 100644
--- a/src/cc/arch/riscv64/emit_riscv64.c
+++ b/src/cc/arch/riscv64/emit_riscv64.c
@@ -89,9 +89,9 @@ static void move_params_to_assigned(Function *func) {
       if (offset >= -2048) {
         dst = IMMEDIATE_OFFSET(offset, FP);
       } else {
-        LI(T0, IM(offset));
-        ADD(T0, T0, FP);
-        dst = IMMEDIATE_OFFSET0(T0);
+        LI(S1, IM(offset));  // s1 broken.
+        ADD(S1, S1, FP);
+        dst = IMMEDIATE_OFFSET0(S1);
       }
       switch (pow) {
       case 0:  SB(src, dst); break;
@@ -112,8 +112,18 @@ static void move_params_to_assigned(Function *func) {
     if (vreg->flag & VRF_SPILLED) {
       int offset = vreg->frame.offset;
       assert(offset != 0);
-      assert(offset != 0);
-      FSD(src, IMMEDIATE_OFFSET(offset, FP));
+      const char *dst;
+      if (offset >= -2048) {
+        dst = IMMEDIATE_OFFSET(offset, FP);
+      } else {
+        LI(S1, IM(offset));  // s1 broken.
+        ADD(S1, S1, FP);
+        dst = IMMEDIATE_OFFSET0(S1);
+      }
+      if (p->type->flonum.kind >= FL_DOUBLE)
+        FSD(src, dst);
+      else
+        FSW(src, dst);
     } else {
       if (p->index != vreg->phys) {
         const char *dst = kFReg64s[vreg->phys];
@@ -237,8 +247,8 @@ void emit_defun_body(Function *func) {
       if (frame_size < 2048) {
         ADDI(SP, SP, IM(-frame_size));
       } else {
-        LI(T1, IM(frame_size));
-        SUB(SP, SP, T1);
+        LI(S1, IM(frame_size));
+        SUB(SP, SP, S1);
       }
     }
 
@@ -252,8 +262,14 @@ void emit_defun_body(Function *func) {
     if (!no_stmt) {
       if (fp_saved)
         MV(SP, FP);
-      else if (frame_size > 0)
-        ADDI(SP, SP, IM(frame_size));
+      else if (frame_size > 0) {
+        if (frame_size < 2048) {
+          ADDI(SP, SP, IM(frame_size));
+        } else {
+          LI(S1, IM(frame_size));
+          ADD(SP, SP, S1);
+        }
+      }
 
       pop_callee_save_regs(used_reg_bits, fnbe->ra->used_freg_bits);
 
diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 14f37f1..859c62b 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -158,28 +158,42 @@ Vector *collect_caller_save_regs(unsigned long living) {
   return saves;
 }
 
+static const char *caller_save_base(Vector *saves, int *poffset) {
+  // The range of the offset for SD/LD is limited: [-2048,2047]
+  int offset = *poffset;
+  if (saves->len == 0 || offset + (saves->len - 1) * TARGET_POINTER_SIZE <= 2047)
+    return SP;
+
+  LI(kTmpReg, IM(offset));
+  ADD(kTmpReg, kTmpReg, SP);
+  *poffset = 0;
+  return kTmpReg;
+}
+
 static void push_caller_save_regs(Vector *saves, int total) {
   int offset = total;
+  const char *base = caller_save_base(saves, &offset);
   offset += saves->len * TARGET_POINTER_SIZE;
   for (int i = 0; i < saves->len; ) {
     offset -= TARGET_POINTER_SIZE;
     const char *reg = saves->data[i++];
     if (is_freg(reg))
-      FSD(reg, IMMEDIATE_OFFSET(offset, SP));
+      FSD(reg, IMMEDIATE_OFFSET(offset, base));
     else
-      SD(reg, IMMEDIATE_OFFSET(offset, SP));
+      SD(reg, IMMEDIATE_OFFSET(offset, base));
   }
 }
 
 static void pop_caller_save_regs(Vector *saves, int offset) {
   if (saves->len <= 0)
     return;
+  const char *base = caller_save_base(saves, &offset);
   for (int i = saves->len; i > 0; ) {
     const char *reg = saves->data[--i];
     if (is_freg(reg))
-      FLD(reg, IMMEDIATE_OFFSET(offset, SP));
+      FLD(reg, IMMEDIATE_OFFSET(offset, base));
     else
-      LD(reg, IMMEDIATE_OFFSET(offset, SP));
+      LD(reg, IMMEDIATE_OFFSET(offset, base));
     offset += TARGET_POINTER_SIZE;
   }
 }
@@ -929,10 +943,13 @@ static void ei_call(IR *ir) {
 static void ei_subsp(IR *ir) {
   if (ir->opr1->flag & VRF_CONST) {
     // assert(ir->opr1->fixnum % 16 == 0);
-    if (ir->opr1->fixnum > 0)
-      ADDI(SP, SP, IM(-ir->opr1->fixnum));
-    else if (ir->opr1->fixnum < 0)
-      ADDI(SP, SP, IM(-ir->opr1->fixnum));
+    int64_t size = ir->opr1->fixnum;
+    if (!is_im12(-size)) {
+      LI(kTmpReg, IM(size));
+      SUB(SP, SP, kTmpReg);
+    } else if (size != 0) {
+      ADDI(SP, SP, IM(-size));
+    }
   } else {
     SUB(SP, SP, kReg64s[ir->opr1->phys]);
   }
-- 
2.43.0


From b0ae8aa4eac2e12a6b9478e451a99a71f227dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 087/170] fix: riscv64 values narrower than 64bit are extended
 where the upper bits matter

---
 src/cc/arch/riscv64/ir_riscv64.c | 53 +++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 859c62b..aaa39a3 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -204,6 +204,31 @@ static inline bool is_im12(int64_t x) {
   return x <= ((1L << 11) - 1) && x >= -(1L << 11);
 }
 
+// A 32bit value is kept sign extended in a register, regardless of its signedness.
+static char *im_reg(VReg *vreg) {
+  assert(vreg->flag & VRF_CONST);
+  return IM(vreg->vsize < VRegSize8 ? (int32_t)vreg->fixnum : vreg->fixnum);
+}
+
+// The upper bits of a register which holds a value narrower than 32bit are undefined:
+// Extend them before an operation whose result depends on them.
+static void extend_narrow(VReg *vreg, bool is_unsigned) {
+  if (vreg->flag & (VRF_FLONUM | VRF_CONST))
+    return;
+  const char *reg = kReg64s[vreg->phys];
+  switch (vreg->vsize) {
+  case VRegSize1:
+    if (is_unsigned)  ZEXT_B(reg, reg);
+    else              SEXT_B(reg, reg);
+    break;
+  case VRegSize2:
+    if (is_unsigned)  ZEXT_H(reg, reg);
+    else              SEXT_H(reg, reg);
+    break;
+  default: break;
+  }
+}
+
 static void ei_bofs(IR *ir) {
   const char *dst = kReg64s[ir->dst->phys];
   int64_t offset = ir->bofs.frameinfo->offset + ir->bofs.offset;
@@ -287,8 +312,7 @@ static void ei_load(IR *ir) {
       else                         LH(dst, src);
       break;
     case 2:
-      if (ir->flag & IRF_UNSIGNED) LWU(dst, src);
-      else                         LW(dst, src);
+      LW(dst, src);
       break;
     case 3:
       LD(dst, src);
@@ -413,7 +437,7 @@ static void ei_mul(IR *ir) {
     }
   } else {
     assert(!(ir->opr1->flag & VRF_CONST) && !(ir->opr2->flag & VRF_CONST));
-    if (ir->dst->vsize <= 2 && !(ir->flag & IRF_UNSIGNED)) {
+    if (ir->dst->vsize <= 2) {
       MULW(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
     } else {
       MUL(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
@@ -432,6 +456,8 @@ static void ei_div(IR *ir) {
     }
   } else {
     assert(!(ir->opr1->flag & VRF_CONST) && !(ir->opr2->flag & VRF_CONST));
+    extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
+    extend_narrow(ir->opr2, ir->flag & IRF_UNSIGNED);
     if (ir->dst->vsize <= 2) {
       if (!(ir->flag & IRF_UNSIGNED))
         DIVW(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
@@ -449,6 +475,8 @@ static void ei_div(IR *ir) {
 static void ei_mod(IR *ir) {
   assert(!(ir->dst->flag & VRF_FLONUM));
   assert(!(ir->opr1->flag & VRF_CONST) && !(ir->opr2->flag & VRF_CONST));
+  extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
+  extend_narrow(ir->opr2, ir->flag & IRF_UNSIGNED);
   if (ir->dst->vsize <= 2) {
     if (!(ir->flag & IRF_UNSIGNED))
       REMW(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
@@ -508,6 +536,7 @@ static void ei_rshift(IR *ir) {
   assert(!(ir->opr1->flag & VRF_CONST));
   const char *dst = kReg64s[ir->dst->phys];
   const char *opr1 = kReg64s[ir->opr1->phys];
+  extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
   if (ir->opr2->flag & VRF_CONST) {
     if (ir->flag & IRF_UNSIGNED) {
       if ((uint64_t)ir->opr2->fixnum >= (ir->dst->vsize < 3 ? 32 : 64)) {
@@ -546,7 +575,10 @@ static void ei_neg(IR *ir) {
     case SZ_DOUBLE:  FNEG_D(kFReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
     }
   } else {
-    NEG(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys]);
+    if (ir->dst->vsize <= 2)
+      SUBW(kReg64s[ir->dst->phys], ZERO, kReg64s[ir->opr1->phys]);
+    else
+      NEG(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys]);
   }
 }
 
@@ -574,6 +606,7 @@ static void ei_cast(IR *ir) {
       assert(0 <= pows && pows < 4);
 
       const char *src = kReg64s[ir->opr1->phys];
+      extend_narrow(ir->opr1, ir->flag & IRF_UNSIGNED);
       if (ir->opr1->vsize < VRegSize8) {
         switch (ir->dst->vsize) {
         case SZ_FLOAT:
@@ -642,7 +675,7 @@ static void ei_cast(IR *ir) {
     int pow = MIN(powd, pows);
     const char *dst = kReg64s[ir->dst->phys], *src = kReg64s[ir->opr1->phys];
 
-    if (ir->flag & IRF_UNSIGNED) {
+    if ((ir->flag & IRF_UNSIGNED) && !(pow == 2 && powd == 2)) {
       switch (pow) {
       case 0:  ZEXT_B(dst, src); break;
       case 1:  ZEXT_H(dst, src); break;
@@ -675,7 +708,7 @@ static void emit_mov(int dstphys, VReg *opr1) {
   } else {
     const char *dst = kReg64s[dstphys];
     if (opr1->flag & VRF_CONST) {
-      LI(dst, IM(opr1->fixnum));
+      LI(dst, im_reg(opr1));
     } else {
       if (opr1->phys != dstphys) {
         MV(dst, kReg64s[opr1->phys]);
@@ -755,6 +788,8 @@ static void ei_cond(IR *ir) {
   }
 
   const char *opr1 = kReg64s[ir->opr1->phys];
+  extend_narrow(ir->opr1, cond & COND_UNSIGNED);
+  extend_narrow(ir->opr2, cond & COND_UNSIGNED);
 
   switch (cond) {
   case COND_EQ: case COND_EQ | COND_UNSIGNED:
@@ -834,6 +869,9 @@ static void ei_jmp(IR *ir) {
   const char *opr1 = kReg64s[ir->opr1->phys];
   const char *opr2 = !(ir->opr2->flag & VRF_CONST) ? kReg64s[ir->opr2->phys] : ZERO;
 
+  extend_narrow(ir->opr1, cond & COND_UNSIGNED);
+  extend_narrow(ir->opr2, cond & COND_UNSIGNED);
+
   // On aarch64, flag for comparing flonum is signed.
   switch (ir->jmp.cond & (COND_MASK | COND_UNSIGNED)) {
   case COND_EQ | COND_UNSIGNED:  // Fallthrough
@@ -864,6 +902,7 @@ static void ei_tjmp(IR *ir) {
   // dst = label + (opr1 << 3)
   assert(!(ir->opr1->flag & (VRF_FLONUM | VRF_CONST)));
   const char *opr1 = kReg64s[ir->opr1->phys];
+  extend_narrow(ir->opr1, true);
   SLLI(opr1, opr1, IM(3));
   ADD(opr2, opr2, opr1);
   LD(opr2, IMMEDIATE_OFFSET0(opr2));
@@ -904,7 +943,7 @@ static void ei_pusharg(IR *ir) {
     // Assume parameter registers are arranged from index 0.
     const char *dst = kReg64s[ir->pusharg.index];
     if (ir->opr1->flag & VRF_CONST)
-      LI(dst, IM(ir->opr1->fixnum));
+      LI(dst, im_reg(ir->opr1));
     else if (ir->pusharg.index != ir->opr1->phys)
       MV(dst, kReg64s[ir->opr1->phys]);
   }
-- 
2.43.0


From 7212244cf5175d9dcd4b38a5e897e6522108336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 088/170] fix: riscv64 calls farther than the reach of jal are
 linked

---
 src/ld/ld.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index f08bbef..65912e8 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -179,6 +179,10 @@ static uint64_t ld_symbol_address(LinkEditor *ld, const Name *name) {
 #define W_ADDI(rd, rs, imm)       MAKE_CODE32(ITYPE(imm, rs, 0x00, rd, 0x13))
 #define P_NOP()                   W_ADDI(ZERO, ZERO, 0)
 
+static inline bool is_jal_offset(int64_t offset) {
+  return offset < (1L << 20) && offset >= -(1L << 20);
+}
+
 static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf64_Rela *rela, const Elf64_Sym *sym, const ElfSectionInfo *strinfo) {
   uint64_t address = 0;
   switch (ELF64_ST_BIND(sym->st_info)) {
@@ -290,8 +294,17 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
       case R_RISCV_CALL:
         {
           int64_t offset = address - pc;
-          assert(offset < (1L << 19) && offset >= -(1L << 19));  // TODO
-          *(uint32_t*)p = W_JAL(RA, offset);
+          if (is_jal_offset(offset)) {
+            *(uint32_t*)p = W_JAL(RA, offset);
+          } else {
+            // Keep the pair: auipc + jalr
+            assert(offset < (1L << 31) - (1L << 11) && offset >= -(1L << 31) - (1L << 11));
+            const uint32_t MASK20 = (1U << 20) - 1;
+            const uint32_t MASK12 = (1U << 12) - 1;
+            uint32_t *q = (uint32_t*)p;
+            q[0] = (q[0] & MASK12) | ((uint32_t)(offset + (1L << 11)) & ~MASK12);
+            q[1] = (q[1] & MASK20) | (((uint32_t)offset & MASK12) << 20);
+          }
         }
         break;
       case R_RISCV_RELAX:
@@ -301,7 +314,8 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
           const Elf64_Rela *rela0 = &relas[j - 1];
           switch (ELF64_R_TYPE(rela0->r_info)) {
           case R_RISCV_CALL:
-            ((uint32_t*)p)[1] = P_NOP();
+            if ((*(uint32_t*)p & 0x7f) == 0x6f)  // Replaced with jal
+              ((uint32_t*)p)[1] = P_NOP();
             break;
           case R_RISCV_PCREL_HI20:
           case R_RISCV_PCREL_LO12_I:
@@ -359,7 +373,7 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
       case R_RISCV_JAL:
         {
           int64_t offset = address - pc;
-          assert(offset < (1L << 19) && offset >= -(1L << 19));
+          assert(is_jal_offset(offset));
 
           uint32_t *q = (uint32_t*)p;
           assert((*q & 0x0000007f) == 0x6f);  // jal
@@ -378,7 +392,7 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
             assert((*q & 0xc003) == 0xc001);  // c.beqz or c.bnez
             *q = (*q & 0xe383) | SWIZZLE_C_BXX(offset);
           } else {
-            assert(offset < (1 << 13) && offset >= -(1 << 13));
+            assert(offset < (1 << 12) && offset >= -(1 << 12));
             uint32_t *q = (uint32_t*)p;
             *q = (*q & 0x01fff07f) | SWIZZLE_BXX(offset);
           }
-- 
2.43.0


From 578865a104a79fd39dc3a051fdd910d12779d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 089/170] fix: riscv64 assembler encodes operands without a
 compressed form in 32 bits

---
 src/as/arch/riscv64/asm_code.c     | 22 ++++++++++++++--------
 src/as/arch/riscv64/riscv64_code.h |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index ecbb1a4..7d8e75b 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -80,9 +80,9 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
 
   switch (inst->op) {
   case ADD:
-    if (rd == rs1)
+    if (rd == rs1 && rs2 != ZERO)
       C_ADD(rd, rs2);
-    else if (rd == rs2)
+    else if (rd == rs2 && rs1 != ZERO)
       C_ADD(rd, rs1);
     else
       W_ADD(rd, rs1, rs2);
@@ -134,7 +134,7 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
     if (is_im6(imm)) {
       switch (inst->op) {
       case ADDI:   if (imm != 0) { C_ADDI(rd, imm); return code->buf; } break;
-      case ADDIW:  C_ADDIW(rd, imm); return code->buf;
+      case ADDIW:  if (rd != ZERO) { C_ADDIW(rd, imm); return code->buf; } break;
       case ANDI:   if (is_rvc_reg(rd)) { C_ANDI(rd, imm); return code->buf; } break;
       default: break;
       }
@@ -250,11 +250,11 @@ static void li_sub(Inst *inst, Code *code, int64_t imm) {
       l = l - 0x1000;
       imm += 1 << 12;
     }
-    if (is_im6(imm >> 12))
+    if (is_im6(imm >> 12) && rd != ZERO && rd != SP)
       C_LUI(rd, imm);
     else
       W_LUI(rd, imm);
-    if (is_im6(l))
+    if (is_im6(l) && rd != ZERO)
       C_ADDIW(rd, l);
     else
       W_ADDIW(rd, rd, l);
@@ -310,7 +310,7 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
       W_LW(rd, ofs, rs);
       return code->buf;
     case LD:
-      if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP) {
+      if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP && rd != ZERO) {
         C_LDSP(rd, ofs);
         return code->buf;
       }
@@ -388,13 +388,19 @@ static unsigned char *asm_j(Inst *inst, Code *code) {
 
 static unsigned char *asm_jr(Inst *inst, Code *code) {
   int rs = inst->opr[0].reg.no;
-  C_JR(rs);
+  if (rs != ZERO)
+    C_JR(rs);
+  else
+    W_JALR(ZERO, rs, 0);
   return code->buf;
 }
 
 static unsigned char *asm_jalr(Inst *inst, Code *code) {
   int rs = inst->opr[0].reg.no;
-  C_JALR(rs);
+  if (rs != ZERO)
+    C_JALR(rs);
+  else
+    W_JALR(RA, rs, 0);
   return code->buf;
 }
 
diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index f640c5f..cd9622b 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -144,7 +144,7 @@
 #define C_SRAI(rd, imm)           MAKE_CODE16(inst, code, 0x8401 | (IMM(imm, 5, 5) << 12) | (to_rvc_reg(rd) << 7) | (IMM(imm, 4, 0) << 2))
 #define C_LW(rd, imm, rs)         MAKE_CODE16(inst, code, 0x4000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (IMM(imm, 2, 2) << 6) | (IMM(imm, 6, 6) << 5) | (to_rvc_reg(rd) << 2))
 #define C_LD(rd, imm, rs)         MAKE_CODE16(inst, code, 0x6000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rd) << 2))
-#define C_SW(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xc000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
+#define C_SW(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xc000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 2, 2) << 6) | (IMM(imm, 6, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_SD(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xe000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_LDSP(rd, imm)           MAKE_CODE16(inst, code, 0x6002 | (IMM(imm, 5, 5) << 12) | ((rd) << 7) | (IMM(imm, 4, 3) << 5) | (IMM(imm, 8, 6) << 2))
 #define C_SDSP(rs, imm)           MAKE_CODE16(inst, code, 0xe002 | (IMM(imm, 5, 3) << 10) | (IMM(imm, 8, 6) << 7) | ((rs) << 2))
-- 
2.43.0


From 332edcc95de4712f4271cb716bd130085745664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 090/170] fix: riscv64 assembler refuses offsets and shift
 amounts out of range

---
 src/as/arch/riscv64/asm_code.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 7d8e75b..ae7c5b9 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -181,7 +181,7 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
   case SRLIW:
   case SRAI:
   case SRAIW:
-    if (imm >= 64 || (inst->op == SLLIW && imm >= 32) || imm < 0)
+    if (imm >= 64 || ((inst->op == SLLIW || inst->op == SRLIW || inst->op == SRAIW) && imm >= 32) || imm < 0)
       return NULL;
     switch (inst->op) {
     case SLLI:   W_SLLI(rd, rs, imm); break;
@@ -291,14 +291,14 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs = inst->opr[1].indirect.reg.no;
     switch (inst->op) {
     case LB:
-      // TODO: Check offset range.
       W_LB(rd, ofs, rs);
       return code->buf;
     case LH:
-      // TODO: Check offset range.
       W_LH(rd, ofs, rs);
       return code->buf;
     case LW:
@@ -306,7 +306,6 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
         C_LW(rd, ofs, rs);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_LW(rd, ofs, rs);
       return code->buf;
     case LD:
@@ -318,19 +317,15 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
         C_LD(rd, ofs, rs);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_LD(rd, ofs, rs);
       return code->buf;
     case LBU:
-      // TODO: Check offset range.
       W_LBU(rd, ofs, rs);
       return code->buf;
     case LHU:
-      // TODO: Check offset range.
       W_LHU(rd, ofs, rs);
       return code->buf;
     case LWU:
-      // TODO: Check offset range.
       W_LWU(rd, ofs, rs);
       return code->buf;
     default: break;
@@ -343,15 +338,15 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs2 = inst->opr[0].reg.no;
     int rs1 = inst->opr[1].indirect.reg.no;
     switch (inst->op) {
     case SB:
-      // TODO: Check offset range.
       W_SB(rs2, ofs, rs1);
       return code->buf;
     case SH:
-      // TODO: Check offset range.
       W_SH(rs2, ofs, rs1);
       return code->buf;
     case SW:
@@ -359,7 +354,6 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
         C_SW(rs2, ofs, rs1);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_SW(rs2, ofs, rs1);
       return code->buf;
     case SD:
@@ -371,7 +365,6 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
         C_SD(rs2, ofs, rs1);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_SD(rs2, ofs, rs1);
       return code->buf;
     default: break;
@@ -516,6 +509,8 @@ static unsigned char *asm_fld(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs = inst->opr[1].indirect.reg.no;
     if (inst->op == FLD) {
       if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP) {
@@ -527,7 +522,6 @@ static unsigned char *asm_fld(Inst *inst, Code *code) {
         return code->buf;
       }
     }
-    // TODO: Check offset range.
     switch (inst->op) {
     case FLD:  W_FLD(rd, ofs, rs); break;
     case FLW:  W_FLW(rd, ofs, rs); break;
@@ -542,6 +536,8 @@ static unsigned char *asm_fsd(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs2 = inst->opr[0].freg;
     int rs1 = inst->opr[1].indirect.reg.no;
     if (inst->op == FSD) {
@@ -554,7 +550,6 @@ static unsigned char *asm_fsd(Inst *inst, Code *code) {
         return code->buf;
       }
     }
-    // TODO: Check offset range.
     switch (inst->op) {
     case FSD:  W_FSD(rs2, ofs, rs1); break;
     case FSW:  W_FSW(rs2, ofs, rs1); break;
-- 
2.43.0


From 47507d2f451cd7530f3388b6b0067eb8a0de4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 091/170] fix: aarch64 assembler encodes or refuses immediates
 out of the basic range

---
 src/as/arch/aarch64/aarch64_code.h |   9 +-
 src/as/arch/aarch64/asm_code.c     | 129 ++++++++++++++++++++---------
 2 files changed, 93 insertions(+), 45 deletions(-)

diff --git a/src/as/arch/aarch64/aarch64_code.h b/src/as/arch/aarch64/aarch64_code.h
index 001c65c..dd4ad8e 100644
--- a/src/as/arch/aarch64/aarch64_code.h
+++ b/src/as/arch/aarch64/aarch64_code.h
@@ -6,14 +6,15 @@
 #define W_MOVZ(sz, rd, imm, sft)                   MAKE_CODE32(inst, code, 0x52800000U | ((sz) << 31) | ((sft) << 21) | (((imm) & ((1U << 16) - 1)) << 5) | (rd))
 #define W_MOVN(sz, rd, imm, sft)                   MAKE_CODE32(inst, code, 0x12800000U | ((sz) << 31) | ((sft) << 21) | (((imm) & ((1U << 16) - 1)) << 5) | (rd))
 
-#define W_ADD_I(sz, rd, rn, imm)                   MAKE_CODE32(inst, code, 0x11000000U | ((sz) << 31) | (((imm) & ((1U << 12) - 1)) << 10) | ((rn) << 5) | (rd))
+#define ADDSUB_LSL12                               (1U << 12)  // Immediate is shifted left by 12
+#define W_ADD_I(sz, rd, rn, imm)                   MAKE_CODE32(inst, code, 0x11000000U | ((sz) << 31) | (((imm) & ((1U << 13) - 1)) << 10) | ((rn) << 5) | (rd))
 #define W_ADD_S(sz, rd, rn, rm, sft, imm)          MAKE_CODE32(inst, code, 0x0b000000U | ((sz) << 31) | ((sft) << 22) | ((rm) << 16) | (((imm) & ((1U << 6) - 1)) << 10) | ((rn) << 5) | (rd))
 #define W_ADD_E(sz, rd, rn, rm, option, ov)        MAKE_CODE32(inst, code, 0x0b200000U | ((sz) << 31) | ((rm) << 16) | ((option) << 13) | ((ov) << 10) | ((rn) << 5) | (rd))
-#define W_ADDS_I(sz, rd, rn, imm)                  MAKE_CODE32(inst, code, 0x31000000U | ((sz) << 31) | (((imm) & ((1U << 12) - 1)) << 10) | ((rn) << 5) | (rd))
+#define W_ADDS_I(sz, rd, rn, imm)                  MAKE_CODE32(inst, code, 0x31000000U | ((sz) << 31) | (((imm) & ((1U << 13) - 1)) << 10) | ((rn) << 5) | (rd))
 #define W_ADDS_S(sz, rd, rn, rm, imm)              MAKE_CODE32(inst, code, 0x2b000000U | ((sz) << 31) | ((rm) << 16) | (((imm) & ((1U << 6) - 1)) << 10) | ((rn) << 5) | (rd))
-#define W_SUB_I(sz, rd, rn, imm)                   MAKE_CODE32(inst, code, 0x51000000U | ((sz) << 31) | (((imm) & ((1U << 12) - 1)) << 10) | ((rn) << 5) | (rd))
+#define W_SUB_I(sz, rd, rn, imm)                   MAKE_CODE32(inst, code, 0x51000000U | ((sz) << 31) | (((imm) & ((1U << 13) - 1)) << 10) | ((rn) << 5) | (rd))
 #define W_SUB_S(sz, rd, rn, rm, sft, imm)          MAKE_CODE32(inst, code, 0x4b000000U | ((sz) << 31) | ((sft) << 22) | ((rm) << 16) | (((imm) & ((1U << 6) - 1)) << 10) | ((rn) << 5) | (rd))
-#define W_SUBS_I(sz, rd, rn, imm)                  MAKE_CODE32(inst, code, 0x71000000U | ((sz) << 31) | (((imm) & ((1U << 12) - 1)) << 10) | ((rn) << 5) | (rd))
+#define W_SUBS_I(sz, rd, rn, imm)                  MAKE_CODE32(inst, code, 0x71000000U | ((sz) << 31) | (((imm) & ((1U << 13) - 1)) << 10) | ((rn) << 5) | (rd))
 #define W_SUBS_S(sz, rd, rn, rm, imm)              MAKE_CODE32(inst, code, 0x6b000000U | ((sz) << 31) | ((rm) << 16) | (((imm) & ((1U << 6) - 1)) << 10) | ((rn) << 5) | (rd))
 #define W_SUB_E(sz, rd, rn, rm, option, ov)        MAKE_CODE32(inst, code, 0x4b200000U | ((sz) << 31) | ((rm) << 16) | ((option) << 13) | ((ov) << 10) | ((rn) << 5) | (rd))
 #define W_MADD(sz, rd, rn, rm, ra)                 MAKE_CODE32(inst, code, 0x1b000000U | ((sz) << 31) | ((rm) << 16) | ((ra) << 10) | ((rn) << 5) | (rd))
diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 68927cb..44432f3 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -40,6 +40,32 @@ static unsigned char *asm_noop(Inst *inst, Code *code) {
   return p;
 }
 
+// Register number 31 is the zero register unless it is given as `sp`.
+static inline bool is_zero_reg(const Reg *reg) {
+  return reg->no == ZERO && !reg->sp;
+}
+
+static unsigned char *asm_mov_imm(Inst *inst, Code *code, uint32_t sz, uint32_t rd, int64_t imm) {
+  const int64_t max32 = 0xffffffffL;
+  if (sz == 0 && (imm > max32 || imm < -max32 - 1))
+    return NULL;
+  const uint64_t mask = sz ? ~(uint64_t)0 : (uint64_t)max32;
+  for (int neg = 0; neg < 2; ++neg) {
+    uint64_t value = (neg ? ~imm : imm) & mask;
+    for (uint32_t sft = 0; sft < (sz ? 4U : 2U); ++sft) {
+      if ((value & ~((uint64_t)0xffff << (sft * 16))) == 0) {
+        uint32_t imm16 = value >> (sft * 16);
+        if (neg)
+          W_MOVN(sz, rd, imm16, sft);
+        else
+          W_MOVZ(sz, rd, imm16, sft);
+        return code->buf;
+      }
+    }
+  }
+  return NULL;
+}
+
 static unsigned char *asm_mov(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
@@ -48,21 +74,19 @@ static unsigned char *asm_mov(Inst *inst, Code *code) {
     {
       assert(opr1->reg.size == opr2->reg.size);
       uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
-      if (opr1->reg.sp || opr2->reg.sp)
+      if (opr1->reg.sp || opr2->reg.sp) {
+        if (is_zero_reg(&opr1->reg) || is_zero_reg(&opr2->reg))
+          return NULL;
         P_MOV_SP(sz, opr1->reg.no, opr2->reg.no);
-      else
+      } else {
         P_MOV(sz, opr1->reg.no, opr2->reg.no);
+      }
     }
     return code->buf;
   case IMMEDIATE:
     {
       uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
-      int64_t imm = opr2->immediate;
-      if (imm >= 0)
-        W_MOVZ(sz, opr1->reg.no, imm, 0);
-      else
-        W_MOVN(sz, opr1->reg.no, ~imm, 0);
-      return code->buf;
+      return asm_mov_imm(inst, code, sz, opr1->reg.no, opr2->immediate);
     }
   default: assert(false); break;
   }
@@ -75,10 +99,19 @@ static unsigned char *asm_movk(Inst *inst, Code *code) {
   Operand *opr3 = &inst->opr[2];
   assert(opr3->type == SHIFT && (opr3->immediate & 15) == 0);
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  if (opr2->immediate < 0 || opr2->immediate > 0xffff || (sz == 0 && opr3->immediate >= 32))
+    return NULL;
   W_MOVK(sz, opr1->reg.no, opr2->immediate, opr3->immediate >> 4);
   return code->buf;
 }
 
+static bool check_extend(uint32_t sz, Operand *opr1, Operand *opr2, Operand *ext) {
+  assert(ext->type == EXTEND);
+  if (ext->extend.option < 8)  // extend
+    return !is_zero_reg(&opr1->reg) && !is_zero_reg(&opr2->reg) && ext->extend.imm >= 0 && ext->extend.imm <= 4;
+  return ext->extend.imm >= 0 && ext->extend.imm < (sz ? 64 : 32);
+}
+
 static unsigned char *asm_3r(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
@@ -93,13 +126,15 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
       if (!opr1->reg.sp && !opr2->reg.sp) {
         W_ADD_S(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, 0, 0);
       } else {
+        if (is_zero_reg(&opr1->reg) || is_zero_reg(&opr2->reg))
+          return NULL;
         const uint32_t option = 3;  // LSL 0
         W_ADD_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, 0);
       }
     } else {
       Operand *ext = &inst->opr[3];
-      assert(ext->type == EXTEND);
-      // TODO: Range check for imm.
+      if (!check_extend(sz, opr1, opr2, ext))
+        return NULL;
       int option = ext->extend.option;
       if (option < 8)  // extend
         W_ADD_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, ext->extend.imm);
@@ -112,13 +147,15 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
       if (!opr1->reg.sp && !opr2->reg.sp) {
         W_SUB_S(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, 0, 0);
       } else {
+        if (is_zero_reg(&opr1->reg) || is_zero_reg(&opr2->reg))
+          return NULL;
         const uint32_t option = 3;  // LSL 0
         W_SUB_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, 0);
       }
     } else {
       Operand *ext = &inst->opr[3];
-      assert(ext->type == EXTEND);
-      // TODO: Range check for imm.
+      if (!check_extend(sz, opr1, opr2, ext))
+        return NULL;
       int option = ext->extend.option;
       if (option < 8)  // extend
         W_SUB_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, ext->extend.imm);
@@ -141,38 +178,45 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
   return code->buf;
 }
 
+// Immediate for add/sub: 12 bits, optionally shifted left by 12.
+static bool encode_addsub_imm(int64_t imm, uint32_t *encoded) {
+  if (imm < 0 || imm > 0xfff000 || (imm > 0xfff && (imm & 0xfff) != 0))
+    return false;
+  *encoded = imm <= 0xfff ? imm : (imm >> 12) | ADDSUB_LSL12;
+  return true;
+}
+
 static unsigned char *asm_2ri(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
   Operand *opr3 = &inst->opr[2];
   assert(opr1->reg.size == opr2->reg.size);
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
-  int64_t imm = 0;
-  if (opr3->type == IMMEDIATE) {
-    imm = opr3->immediate;
-    if (imm < -(1 << 12) || imm >= (1 << 12)) {
-      switch (inst->op) {
-      case LSL_I:  case LSR_I: case ASR_I:
-        imm &= 63;
-        break;
-      default:
-        return NULL;
-      }
-    }
-  }
+  int64_t imm = opr3->type == IMMEDIATE ? opr3->immediate : 0;
+  uint32_t encoded = 0;
 
   switch (inst->op) {
   case ADD_I:
-    if (imm >= 0)  W_ADD_I(sz, opr1->reg.no, opr2->reg.no, imm);
-    else           W_SUB_I(sz, opr1->reg.no, opr2->reg.no, -imm);
-    break;
   case SUB_I:
-    if (imm >= 0)  W_SUB_I(sz, opr1->reg.no, opr2->reg.no, imm);
-    else           W_ADD_I(sz, opr1->reg.no, opr2->reg.no, -imm);
+    if (is_zero_reg(&opr1->reg) || is_zero_reg(&opr2->reg))
+      return NULL;
+    if (!encode_addsub_imm(imm < 0 ? -imm : imm, &encoded))
+      return NULL;
+    if ((inst->op == ADD_I) == (imm >= 0))  W_ADD_I(sz, opr1->reg.no, opr2->reg.no, encoded);
+    else                                    W_SUB_I(sz, opr1->reg.no, opr2->reg.no, encoded);
+    break;
+  case LSL_I:
+  case LSR_I:
+  case ASR_I:
+    if (imm < 0 || imm >= (sz ? 64 : 32))
+      return NULL;
+    switch (inst->op) {
+    case LSL_I:  P_LSL_I(sz, opr1->reg.no, opr2->reg.no, imm); break;
+    case LSR_I:  P_LSR_I(sz, opr1->reg.no, opr2->reg.no, imm); break;
+    case ASR_I:  P_ASR_I(sz, opr1->reg.no, opr2->reg.no, imm); break;
+    default: assert(false); return NULL;
+    }
     break;
-  case LSL_I:  P_LSL_I(sz, opr1->reg.no, opr2->reg.no, imm); break;
-  case LSR_I:  P_LSR_I(sz, opr1->reg.no, opr2->reg.no, imm); break;
-  case ASR_I:  P_ASR_I(sz, opr1->reg.no, opr2->reg.no, imm); break;
   default: assert(false); return NULL;
   }
   return code->buf;
@@ -216,16 +260,17 @@ static unsigned char *asm_ri(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
-  uint32_t imm = 0;
-  if (opr2->type == IMMEDIATE) {
-    if (opr2->immediate < 0 || opr2->immediate >= (1 << 12))
-      return NULL;
-    imm = opr2->immediate;
-  }
+  int64_t imm = opr2->type == IMMEDIATE ? opr2->immediate : 0;
+  uint32_t encoded = 0;
+  if (is_zero_reg(&opr1->reg) || !encode_addsub_imm(imm < 0 ? -imm : imm, &encoded))
+    return NULL;
 
   switch (inst->op) {
-  case CMP_I:  P_CMP_I(sz, opr1->reg.no, imm); break;
-  case CMN_I:  P_CMN_I(sz, opr1->reg.no, imm); break;
+  case CMP_I:
+  case CMN_I:
+    if ((inst->op == CMP_I) == (imm >= 0))  P_CMP_I(sz, opr1->reg.no, encoded);
+    else                                    P_CMN_I(sz, opr1->reg.no, encoded);
+    break;
   default: assert(false); return NULL;
   }
   return code->buf;
@@ -390,6 +435,8 @@ static unsigned char *asm_ret(Inst *inst, Code *code) {
 
 static unsigned char *asm_svc(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
+  if (opr1->immediate < 0 || opr1->immediate > 0xffff)
+    return NULL;
   W_SVC(opr1->immediate);
   return code->buf;
 }
-- 
2.43.0


From f55adfa9ecc9bb4454a858e0ce485d6fc3328b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:59 +0000
Subject: [PATCH 092/170] fix: riscv64 sext.w of the zero register is not the
 reserved compressed form

---
 src/as/arch/riscv64/riscv64_code.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index cd9622b..2256e4f 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -166,7 +166,7 @@
 #define P_NOT(rd, rs)             W_XORI(rd, rs, -1)
 #define P_SEXT_B(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 56); else W_SLLI(rd, rs, 56); if (is_rvc_reg(rd)) C_SRAI(rd, 56); else W_SRAI(rd, rd, 56); } while (0)
 #define P_SEXT_H(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 48); else W_SLLI(rd, rs, 48); if (is_rvc_reg(rd)) C_SRAI(rd, 48); else W_SRAI(rd, rd, 48); } while (0)
-#define P_SEXT_W(rd, rs)          do { if ((rd) == (rs)) C_ADDIW(rd, 0); else W_ADDIW(rd, rs, 0); } while (0)
+#define P_SEXT_W(rd, rs)          do { if ((rd) == (rs) && (rd) != ZERO) C_ADDIW(rd, 0); else W_ADDIW(rd, rs, 0); } while (0)
 #define P_ZEXT_B(rd, rs)          W_ANDI(rd, rs, 0xff)
 #define P_ZEXT_H(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 48); else W_SLLI(rd, rs, 48); if (is_rvc_reg(rd)) C_SRLI(rd, 48); else W_SRLI(rd, rd, 48); } while (0)
 #define P_ZEXT_W(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 32); else W_SLLI(rd, rs, 32); if (is_rvc_reg(rd)) C_SRLI(rd, 32); else W_SRLI(rd, rd, 32); } while (0)
-- 
2.43.0


From 38d6173cbf627cb77819e793d40db74ba8d797b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 093/170] fix: wasm increment by 64 or more encodes its operand
 as a signed number

---
 src/wcc/gen_wasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 1e4d8ff..5f210eb 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -760,7 +760,7 @@ static void gen_incdec(Expr *expr, bool needval) {
         int i1 = wtype == WT_I32 ? 0 : 1;
         int i2 = IS_DEC(expr) ? 2 : 0;
         ADD_CODE(CONST_OP[i1]);
-        ADD_ULEB128(addend);
+        ADD_LEB128(addend);
         ADD_CODE(ADDSUB_OP[i1 | i2]);
 
         if (type_size(type) < type_size(&tyInt))
-- 
2.43.0


From 787b409fb94a217a8da04b65b32606a613e709a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 094/170] fix: wasm parameters whose address is taken are
 stored from their own index

---
 src/wcc/gen_wasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 5f210eb..09c1116 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1605,7 +1605,7 @@ static uint32_t allocate_local_variables(Function *func, DataStorage *data) {
         if (k >= 0)
           param_index = k;
       }
-      vreg->param_index = ret_param + param_index;
+      vreg->param_index = param_no;
       bool stack_param = is_stack_param(varinfo->type);
       if ((!stack_param && varinfo->storage & VS_REF_TAKEN) ||  // `&` taken wasm local var.
           (stack_param && param_index < 0)) {                   // non-prim variable (not function parameter)
-- 
2.43.0


From 90711aa32a7a20d31666a60bf868f71a4e7e7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 095/170] fix: wasm increment of a variable in memory gives a
 value of its type

---
 src/wcc/traverse.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index a3094b3..0b27c5e 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -424,8 +424,18 @@ static void te_incdec(Expr **pexpr, bool needval) {
                                    : type->kind == TY_FLONUM ? new_expr_flolit(type, token, 1)
 #endif
                                                              : new_expr_fixlit(type, token, 1);
-  Expr *assign_tmp = new_expr_bop(EX_ASSIGN, &tyVoid, token, tmp,
-                                  !post ? new_expr_bop(op, type, token, deref_p, one) : deref_p);
+  Expr *value = deref_p;
+  if (!post) {
+    if (is_fixnum(type->kind) && type_size(type) < type_size(&tyInt)) {
+      // Calculated in int, and narrowed because the variable is held in i32.
+      value = new_expr_cast(type, token, new_expr_bop(op, &tyInt, token,
+                                                      make_cast(&tyInt, token, deref_p, false),
+                                                      new_expr_fixlit(&tyInt, token, 1)));
+    } else {
+      value = new_expr_bop(op, type, token, deref_p, one);
+    }
+  }
+  Expr *assign_tmp = new_expr_bop(EX_ASSIGN, &tyVoid, token, tmp, value);
   Expr *assign_deref_p = new_expr_bop(EX_ASSIGN, &tyVoid, token, deref_p,
                                       !post ? tmp : new_expr_bop(op, type, token, tmp, one));
 
-- 
2.43.0


From 1f00b8cbe7ef2ba797eba850de880a47c45ddacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 096/170] fix: wasm an expression in the left side of an
 assignment gives its value

---
 src/wcc/traverse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 0b27c5e..b9727f2 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -361,7 +361,7 @@ static void te_comma(Expr **pexpr, bool needval) {
 
 static void te_assign(Expr **pexpr, bool needval) {
   Expr *expr = *pexpr;
-  traverse_expr(&expr->bop.lhs, false);
+  traverse_expr(&expr->bop.lhs, true);
   traverse_expr(&expr->bop.rhs, true);
   if (needval) {
     Expr *rhs = expr->bop.rhs;
@@ -393,9 +393,10 @@ static void te_cast(Expr **pexpr, bool needval) {
 
 static void te_incdec(Expr **pexpr, bool needval) {
   Expr *expr = *pexpr;
+  UNUSED(needval);
 
   static const enum ExprKind kOpAddSub[2] = {EX_ADD, EX_SUB};
-  traverse_expr(&expr->unary.sub, needval);
+  traverse_expr(&expr->unary.sub, true);
   Expr *target = expr->unary.sub;
   if (target->kind == EX_COMPLIT)
     target = target->complit.var;
-- 
2.43.0


From 9451eb716a6bdc5b824ab0f05b6463008f3812df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 097/170] fix: wasm initializer of a local variable is not
 transformed twice

---
 src/wcc/traverse.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index b9727f2..07ffcd3 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -611,8 +611,6 @@ static void traverse_varinfo(VarInfo *varinfo) {
         info->flag |= GVF_UNRESOLVED;
     }
   }
-  if (!(varinfo->storage & (VS_EXTERN | VS_STATIC | VS_ENUM_MEMBER)))
-    traverse_initializer(varinfo->local.init);
 }
 
 static void traverse_scope(Scope *scope) {
-- 
2.43.0


From 236efa645d679b88b382e0cbd57803df5ea88870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 098/170] fix: wasm variadic functions with structs among their
 parameters or arguments

---
 src/wcc/gen_wasm.c | 52 +++++++++++++++++++++++-----------------------
 src/wcc/traverse.c |  9 +++++---
 src/wcc/wcc.h      |  1 +
 3 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 09c1116..cd7eb4c 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -296,28 +296,10 @@ static void gen_funcall(Expr *expr) {
   assert(functype != NULL);
   int param_count = functype->func.params != NULL ? functype->func.params->len : 0;
 
-  size_t sarg_siz = 0;
-  for (int i = 0; i < param_count; ++i) {
-    Expr *arg = args->data[i];
-    if (is_stack_param(arg->type))
-      sarg_siz += ALIGN(type_size(arg->type), 4);
-  }
-
-  size_t vaarg_bufsiz = 0;
-  if (functype->func.vaargs) {
-    int d = arg_count - param_count;
-    if (d > 0) {
-      for (int i = 0; i < d; ++i) {
-        Expr *arg = args->data[i + param_count];
-        const Type *t = arg->type;
-        assert(!(t->kind == TY_FIXNUM && t->fixnum.kind < FX_INT));
-        // vaargs are promoted to int, so alignment is not needed.
-        vaarg_bufsiz += type_size(t);
-      }
-    }
-  }
-
-  size_t work_size = sarg_siz + vaarg_bufsiz;
+  // Stack parameters, and then variadic arguments.
+  size_t sarg_siz;
+  size_t work_size = calc_funcall_work_size(expr, &sarg_siz);
+  size_t vaarg_bufsiz = work_size - sarg_siz;
   Expr *lspvar = NULL;
   if (work_size > 0) {
     FuncInfo *finfo = table_get(&func_info_table, curfunc->ident->ident);
@@ -373,7 +355,6 @@ static void gen_funcall(Expr *expr) {
         sarg_offset += size;
       }
     } else {
-      assert(!is_stack_param(arg->type));
       // *(global.sp + sarg_siz + vaarg_offset) = arg
       size_t offset = sarg_siz + vaarg_offset;
       if (offset != 0) {
@@ -388,13 +369,22 @@ static void gen_funcall(Expr *expr) {
       vaarg_offset += type_size(t);
 
       gen_expr(arg, true);
-      gen_store(t);
+      if (is_stack_param(t)) {
+        ADD_CODE(OP_I32_CONST);
+        ADD_LEB128(type_size(t));
+        ADD_CODE(OP_0xFC, OPFC_MEMORY_COPY, 0, 0);  // src, dst
+      } else {
+        gen_store(t);
+      }
     }
   }
   if (functype->func.vaargs) {
     // Top of vaargs.
     if (vaarg_bufsiz > 0) {
-      gen_expr(lspvar, true);
+      gen_expr(sarg_siz > 0 ? new_expr_bop(EX_ADD, &tySize, NULL, lspvar,
+                                           new_expr_fixlit(&tySize, NULL, sarg_siz))
+                            : lspvar,
+               true);
     } else {
       ADD_CODE(OP_I32_CONST, 0);  // NULL
     }
@@ -1637,6 +1627,16 @@ static uint32_t allocate_local_variables(Function *func, DataStorage *data) {
   return frame_size + finfo->stack_work_size;
 }
 
+// Number of parameters passed through wasm locals, except the pointer to variadic arguments.
+static uint32_t count_prim_params(const Type *functype) {
+  uint32_t count = functype->func.ret->kind != TY_VOID && !is_prim_type(functype->func.ret) ? 1 : 0;
+  for (int i = 0; i < functype->func.params->len; ++i) {
+    if (!is_stack_param(functype->func.params->data[i]))
+      ++count;
+  }
+  return count;
+}
+
 static void gen_defun(Function *func) {
   if (func->scopes == NULL)  // Prototype definition
     return;
@@ -1668,7 +1668,7 @@ static void gen_defun(Function *func) {
     VReg *vreg = varinfo->local.vreg;
     assert(vreg != NULL);
     ADD_CODE(OP_LOCAL_GET);
-    ADD_ULEB128(functype->func.params->len);
+    ADD_ULEB128(count_prim_params(functype));
     ADD_CODE(OP_LOCAL_SET);
     ADD_ULEB128(vreg->prim.local_index);
   }
diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 07ffcd3..d1dd671 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -212,7 +212,7 @@ static void traverse_func_expr(Expr **pexpr) {
   }
 }
 
-static size_t calc_funcall_work_size(Expr *expr) {
+size_t calc_funcall_work_size(Expr *expr, size_t *psarg_siz) {
   assert(expr->kind == EX_FUNCALL);
   Expr *func = expr->funcall.func;
   Type *functype = get_callee_type(func->type);
@@ -224,8 +224,11 @@ static size_t calc_funcall_work_size(Expr *expr) {
   for (int i = 0; i < param_count; ++i) {
     Expr *arg = args->data[i];
     if (is_stack_param(arg->type))
-      sarg_siz += ALIGN(type_size(arg->type), 4);
+      sarg_siz = ALIGN(sarg_siz, align_size(arg->type)) + type_size(arg->type);
   }
+  sarg_siz = ALIGN(sarg_siz, 8);
+  if (psarg_siz != NULL)
+    *psarg_siz = sarg_siz;
 
   size_t vaarg_bufsiz = 0;
   if (functype->func.vaargs) {
@@ -286,7 +289,7 @@ static void te_funcall(Expr **pexpr, bool needval) {
       parse_error(PE_NOFATAL, func->token, "function's parameters must be known");
   }
 
-  size_t work_size = calc_funcall_work_size(expr);
+  size_t work_size = calc_funcall_work_size(expr, NULL);
   if (work_size > 0) {
     work_size = ALIGN(work_size, 8);
     assert(curfunc != NULL);
diff --git a/src/wcc/wcc.h b/src/wcc/wcc.h
index 025f2d1..8a750b2 100644
--- a/src/wcc/wcc.h
+++ b/src/wcc/wcc.h
@@ -79,6 +79,7 @@ typedef struct {
 void traverse_ast(Vector *decls);
 
 bool is_stack_param(const Type *type);
+size_t calc_funcall_work_size(Expr *expr, size_t *psarg_siz);
 GVarInfo *get_gvar_info_from_name(const Name *name);
 GVarInfo *get_gvar_info(Expr *expr);
 int getsert_func_type_index(const Type *type, bool reg);
-- 
2.43.0


From 5aebb7dc38034ad25aa7ef2625b10738144d5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:05 +0000
Subject: [PATCH 099/170] fix: -l with its library name in the next argument

---
 src/wcc/wcc.c  | 6 +++---
 src/xcc/main.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index d171113..b2aa417 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -390,7 +390,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
@@ -582,11 +582,11 @@ static int do_compile(Options *opts) {
         UNUSED(search_library);
         vec_push(obj_files, src);
 #else
-        const char *path = search_library(opts->lib_paths, optarg);
+        const char *path = search_library(opts->lib_paths, src + 2);
         if (path != NULL) {
           vec_push(obj_files, path);
         } else {
-          fprintf(stderr, "%s: library not found\n", optarg);
+          fprintf(stderr, "%s: library not found\n", src + 2);
           ++error_count;
         }
 #endif
diff --git a/src/xcc/main.c b/src/xcc/main.c
index 6931599..1042b9c 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -445,7 +445,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
-- 
2.43.0


From 12563e55e7c6e8ee9a7633c3d5bb45fa6cb0db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:05 +0000
Subject: [PATCH 100/170] fix: the wasm linker gives a segment's alignment to
 the symbol defined in it

---
 src/wcc/wasm_linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index bb49804..4c3814b 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -415,7 +415,7 @@ static void read_linking(WasmObj *wasmobj, unsigned char *p, unsigned char *end)
           // Search correspoinding symbol.
           for (; index < (uint32_t)symtab->len; ++index) {
             SymbolInfo *sym = symtab->data[index];
-            if (sym->kind == SIK_SYMTAB_DATA)
+            if (sym->kind == SIK_SYMTAB_DATA && !(sym->flags & WASM_SYM_UNDEFINED))
               break;
           }
           if (index >= (uint32_t)symtab->len) {
-- 
2.43.0


From 71f235650c14731e048a2166a2f001b060cf016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:05 +0000
Subject: [PATCH 101/170] fix: the wasm linker reports errors found in archive
 members

---
 src/wcc/wasm_linker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index 4c3814b..c15dc4e 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -647,6 +647,7 @@ static void *load_wasmobj(FILE *fp, const char *name, size_t size) {
 static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
   Table *unresolved = &linker->unresolved;
   Table *table = &ar->symbol_table;
+  int err_count = 0;
   for (;;) {
     bool retry = false;
     const Name *name;
@@ -658,7 +659,7 @@ static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
 
       WasmObj *wasmobj = load_archive_content(ar, symbol, load_wasmobj);
       if (wasmobj != NULL) {
-        resolve_symbols_wasmobj(linker, wasmobj);
+        err_count += resolve_symbols_wasmobj(linker, wasmobj);
         retry = true;
         break;
       }
@@ -666,7 +667,7 @@ static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
     if (!retry)
       break;
   }
-  return 0;
+  return err_count;
 }
 
 static void resolve_symbols_auto_fill(WasmLinker *linker) {
-- 
2.43.0


From 9e4daf431dc9c7981e145ed89517d9de162f2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 102/170] fix: __cxa_atexit keeps 32 functions like atexit, so
 the ninth destructor runs

---
 libsrc/stdlib/__cxa_atexit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/stdlib/__cxa_atexit.c b/libsrc/stdlib/__cxa_atexit.c
index aab121a..77c94ba 100644
--- a/libsrc/stdlib/__cxa_atexit.c
+++ b/libsrc/stdlib/__cxa_atexit.c
@@ -1,7 +1,7 @@
 #include "stdlib.h"
 #include "_exit.h"
 
-#define MAX  (8)
+#define MAX  (32)
 
 typedef struct {
   void (*dtor)(void*);
-- 
2.43.0


From cdc2e42cbf334108c4be164f859200a46fd09ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:12 +0000
Subject: [PATCH 103/170] fix: change_ext allocates room for the terminating
 NUL (xcc -c and -S without -o aborted)

---
 src/util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.c b/src/util/util.c
index d4d1ea6..02745a8 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -244,7 +244,7 @@ char *change_ext(const char *path, const char *ext) {
   const char *q = strrchr(p, '.');
   size_t len = q != NULL ? (size_t)(q - path) : strlen(path);
   size_t ext_len = strlen(ext);
-  char *s = malloc(len + 1 + ext_len);
+  char *s = malloc(len + 1 + ext_len + 1);
   if (s != NULL) {
     memcpy(s, path, len);
     s[len] = '.';
-- 
2.43.0


From effb13da21e16bf20846b430d1ab474a18f6409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:12 +0000
Subject: [PATCH 104/170] fix: xcc removes the objects it assembles from .s
 files for a link

---
 src/xcc/main.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 1042b9c..86e9886 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -163,6 +163,18 @@ enum OutType {
   OutExecutable,
 };
 
+static int open_tmp_obj(const char **pfn) {
+  char template[] = "/tmp/xcc-XXXXXX.o";
+  int fd = mkstemps(template, 2);
+  if (fd == -1) {
+    perror("Failed to open output file");
+    exit(1);
+  }
+  *pfn = strdup(template);
+  vec_push(&remove_on_exit, *pfn);
+  return fd;
+}
+
 static int compile_csource(const char *source_fn, enum OutType out_type, const char *ofn, int ofd,
                            Vector *cpp_cmd, Vector *cc1_cmd, Vector *as_cmd, Vector *ld_cmd) {
   const char *objfn = NULL;
@@ -171,14 +183,7 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
     if (ofn != NULL && out_type < OutExecutable) {
       objfn = ofn;
     } else {
-      char template[] = "/tmp/xcc-XXXXXX.o";
-      obj_fd = mkstemps(template, 2);
-      if (obj_fd == -1) {
-        perror("Failed to open output file");
-        exit(1);
-      }
-      objfn = strdup(template);
-      vec_push(&remove_on_exit, objfn);
+      obj_fd = open_tmp_obj(&objfn);
     }
   }
 
@@ -221,11 +226,8 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
     if (ofn != NULL && out_type < OutExecutable) {
       objfn = ofn;
     } else {
-      size_t len = strlen(source_fn);
-      char *p = malloc_or_die(len + 3);
-      memcpy(p, source_fn, len);
-      strcpy(p + len, ".o");
-      objfn = p;
+      int obj_fd = open_tmp_obj(&objfn);
+      close(obj_fd);
     }
 
     assert(as_cmd->len >= 3);
-- 
2.43.0


From ddceacbad8928d4456fef7b38e5e421706c49b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:24 +0000
Subject: [PATCH 105/170] fix: xcc -S and -E leave no output file when they
 fail

---
 src/xcc/main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 86e9886..f98400c 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -94,6 +94,12 @@ static void remove_tmp_files(void) {
   }
 }
 
+static void remove_output(const char *fn) {
+  struct stat st;
+  if (fn != NULL && stat(fn, &st) == 0 && S_ISREG(st.st_mode))  // Keep devices like /dev/null.
+    remove(fn);
+}
+
 static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd) {
   int ofd2 = ofd;
   int cc_fd[2];
@@ -205,7 +211,7 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
 
   if (res != 0 && as_pid != -1) {
     kill(as_pid, SIGKILL);
-    remove(ofn);
+    remove_output(ofn);
   }
   if (as_pid != -1) {
     close(as_fd[0]);
@@ -589,8 +595,11 @@ static int do_compile(Options *opts, const char *root) {
         vec_push(opts->ld_cmd, src);
       break;
     }
-    if (res != 0)
+    if (res != 0) {
+      if (opts->out_type <= OutAssembly && outfn != NULL && strcmp(outfn, "-") != 0)
+        remove_output(outfn);
       break;
+    }
   }
 
   if (res == 0 && opts->out_type >= OutExecutable) {
-- 
2.43.0


From 9e21ef3e9948f1bacbd1e4ecdc27a8bf3f4d479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 106/170] fix: ++ and -- of an array or a structure is reported

---
 src/cc/frontend/fe_misc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index aa97175..2c35217 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1215,6 +1215,11 @@ static Expr *transform_incdec_of_bool(enum ExprKind kind, Expr *target, const To
 
 Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
   check_referable(tok, target, "lvalue expected");
+  if (!is_number(target->type) && target->type->kind != TY_PTR) {
+    parse_error(PE_NOFATAL, tok, "Cannot apply `%.*s' except number or pointer types",
+                (int)(tok->end - tok->begin), tok->begin);
+    return target;
+  }
 #ifndef __NO_BITFIELD
   if (target->kind == EX_MEMBER) {
     const MemberInfo *minfo = target->member.info;
-- 
2.43.0


From fc6aaa0255f201eedcbcd4b2e76591d9cf41c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 107/170] fix: comparing structures is reported

---
 src/cc/frontend/fe_misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 2c35217..2569a9a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1250,6 +1250,9 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       }
       if (!cast_numbers(&lhs, &rhs, false))
         parse_error(PE_FATAL, tok, "Cannot compare except numbers");
+    } else if (!(is_number(lt) || ptr_or_array(lt)) || !(is_number(rt) || ptr_or_array(rt))) {
+      parse_error(PE_NOFATAL, tok, "Cannot compare except numbers");
+      return new_expr_fixlit(&tyBool, tok, 0);
     }
   }
 
-- 
2.43.0


From 58100d63c95beba19b43b202c3e34c49490f525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 108/170] fix: % of floating-point operands is reported

---
 src/cc/frontend/parser_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 4241e3f..9d719ee 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -431,7 +431,9 @@ static Expr *binary(Expr *lhs, Token *tok) {
   switch (kind) {
   case TK_ADD: case TK_SUB:
     return new_expr_addsub(kind + (EX_ADD - TK_ADD), tok, lhs, rhs);
-  case TK_MUL: case TK_DIV: case TK_MOD:
+  case TK_MOD:
+    return new_expr_int_bop(EX_MOD, tok, lhs, rhs);
+  case TK_MUL: case TK_DIV:
     return new_expr_num_bop(kind + (EX_MUL - TK_MUL), tok, lhs, rhs);
   case TK_LSHIFT: case TK_RSHIFT:
     if (!is_fixnum(lhs->type->kind) ||
-- 
2.43.0


From bb3b5caedddec559ee67e6a4c209109a27a20d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 109/170] fix: switch on a value that is not an integer is
 reported

---
 src/cc/frontend/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 5d2fe1a..f5acdfa 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -347,6 +347,8 @@ static Stmt *parse_switch(const Token *tok) {
   consume(TK_RPAR, "`)' expected");
   if (is_fixnum(value->type->kind))
     value = promote_to_int(value);
+  else
+    parse_error(PE_NOFATAL, value->token, "int type expected");
 
   Stmt *stmt = new_stmt_switch(tok, value);
   SAVE_LOOP_SCOPE(save, stmt, NULL);
-- 
2.43.0


From 41418c6d7f6550232b709ed68f98357216cdf89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 110/170] fix: an array designator beyond the end of its array
 is reported

---
 src/cc/frontend/initializer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 37295d0..dae7c5a 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -335,6 +335,10 @@ static Initializer *find_desig_indices(InitFlattener *flattener, Initializer *in
         return NULL;
       } else {
         index = init->bracket.index;
+        if (type->pa.length >= 0 && index >= type->pa.length) {
+          parse_error(PE_NOFATAL, init->token, "Initializer more than array size");
+          return NULL;
+        }
         init = init->bracket.value;
         type = type->pa.ptrof;
       }
-- 
2.43.0


From 493495954128e8d2b701fa1ac4ee294628e77c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 111/170] fix: `signed unsigned` is reported

---
 src/cc/frontend/fe_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 2569a9a..c9f6515 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -112,7 +112,7 @@ const enum FixnumKind kLongKinds[] = {
 };
 
 void check_type_combination(const TypeCombination *tc, const Token *tok) {
-  if (tc->unsigned_num > 1 || tc->signed_num > 1 ||
+  if (tc->unsigned_num > 1 || tc->signed_num > 1 || (tc->unsigned_num > 0 && tc->signed_num > 0) ||
       tc->char_num > 1 || tc->short_num > 1 || tc->int_num > 1 ||
       tc->long_num >= (int)ARRAY_SIZE(kLongKinds) ||
       ((tc->char_num > 0) + (tc->short_num > 0) + (tc->long_num > 0) > 1) ||
-- 
2.43.0


From ab7bd9015adf2175f9296c82c2db64c029f1658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 112/170] fix: compiling goes on after several initializers for
 a scalar instead of aborting

---
 src/cc/frontend/initializer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index dae7c5a..38e01d1 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -528,7 +528,10 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
   } else {
     switch (init->kind) {
     case IK_MULTI:
-      if (init->multi->len == 0) {
+      if (init->multi->len != 1 ||
+          ((Initializer*)init->multi->data[0])->kind != IK_SINGLE) {
+        if (init->multi->len != 0)
+          parse_error(PE_NOFATAL, init->token, "Requires scaler");
         init->kind = IK_SINGLE;
 #ifndef __NO_FLONUM
         if (is_flonum(type)) {
@@ -539,10 +542,6 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
         init->single = new_expr_fixlit(type, init->token, 0);
         break;
       }
-      if (init->multi->len != 1 || ((Initializer*)init->multi->data[0])->kind != IK_SINGLE) {
-        parse_error(PE_NOFATAL, init->token, "Requires scaler");
-        break;
-      }
       init = init->multi->data[0];
       assert(init->kind == IK_SINGLE);
       // Fallthrough
-- 
2.43.0


From 6fa59e6f4b729b5435da8730fb3a20c145326f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 113/170] fix: compiling goes on after a shift of something
 else than integers instead of aborting

---
 src/cc/frontend/parser_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 9d719ee..484661f 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -437,8 +437,10 @@ static Expr *binary(Expr *lhs, Token *tok) {
     return new_expr_num_bop(kind + (EX_MUL - TK_MUL), tok, lhs, rhs);
   case TK_LSHIFT: case TK_RSHIFT:
     if (!is_fixnum(lhs->type->kind) ||
-        !is_fixnum(rhs->type->kind))
+        !is_fixnum(rhs->type->kind)) {
       parse_error(PE_NOFATAL, tok, "Cannot use `%.*s' except numbers.", (int)(tok->end - tok->begin), tok->begin);
+      return new_expr_fixlit(&tyInt, tok, 0);
+    }
 
     lhs = promote_to_int(lhs);
     if (is_const(lhs) && is_const(rhs)) {
-- 
2.43.0


From c47869fa6f845380d42c435a563380aee39d367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 114/170] fix: compiling goes on after a void argument instead
 of aborting

---
 src/cc/frontend/fe_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index c9f6515..bb21da4 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1731,7 +1731,8 @@ Expr *transform_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
 
 static Expr *unnest_arg(Expr *arg, Vector *unnested) {
   Type *type = arg->type;
-  assert(type->kind != TY_VOID);
+  if (type->kind == TY_VOID)  // Reported already.
+    return arg;
   Expr *tmp = alloc_tmp_var(curscope, type);
   Expr *assign = new_expr_bop(EX_ASSIGN, type, arg->token, tmp, arg);
   assert(assign->kind == EX_ASSIGN && assign->bop.lhs->kind == EX_VAR);
-- 
2.43.0


From b39c4df993e05cb8ca7b1368fe9252608e17581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 115/170] fix: a void or incomplete variadic argument is
 reported

---
 src/cc/frontend/fe_misc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index bb21da4..088b1c5 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1557,6 +1557,13 @@ void check_funcall_args(Expr *func, Vector *args, Scope *scope) {
         if (type->flonum.kind < FL_DOUBLE)  // Promote variadic argument.
           arg = make_cast(&tyDouble, arg->token, arg, false);
         break;
+      case TY_STRUCT:
+        if (!ensure_struct(arg->type, arg->token, scope))
+          continue;
+        break;
+      case TY_VOID:
+        not_void(type, arg->token);
+        break;
       default: break;
       }
     }
-- 
2.43.0


From 649fd18ab8f911f5b03624714a0d35b32a162ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 116/170] fix: a function can be declared twice in one block

---
 src/cc/frontend/fe_misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 088b1c5..ba9aca1 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -151,6 +151,8 @@ VarInfo *find_var_from_scope(Scope *scope, const Token *ident, Type *type, int s
           varinfo->storage &= ~VS_EXTERN;
         else if (is_global_scope(scope) && varinfo->global.init == NULL)
           ;  // Ignore variable duplication if predecessor doesn't have initializer.
+        else if (type->kind == TY_FUNC)
+          ;  // A function can be declared repeatedly in a block, too.
         else
           parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
       }
-- 
2.43.0


From d386c471c03013a6096b12824174dc68e456d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:51 +0000
Subject: [PATCH 117/170] fix: a constant cast to a pointer does not take its
 signedness from another member of its type

---
 src/cc/frontend/fe_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index ba9aca1..69c6944 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -401,7 +401,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     if (is_bool(type))
       value = sub->fixnum != 0;
     else
-      value = wrap_value(sub->fixnum, type_size(type), type->fixnum.is_unsigned);
+      value = wrap_value(sub->fixnum, type_size(type), !is_fixnum(type->kind) || type->fixnum.is_unsigned);
     sub->fixnum = value;
     sub->type = type;
     return sub;
-- 
2.43.0


From 81628bde751939454f4e9fa4c8001a4904c1dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:38 +0000
Subject: [PATCH 118/170] fix: parsing goes on with a value after a missing
 expression instead of using a null pointer

---
 src/cc/frontend/parser_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 484661f..ccd5eae 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -200,7 +200,7 @@ static Expr *parse_generic(void) {
   }
   if (default_value == NULL) {
     parse_error(PE_NOFATAL, target->token, "no matching type found");
-    default_value = exprs->data[0];
+    default_value = exprs->len > 0 ? exprs->data[0] : new_expr_fixlit(&tyInt, target->token, 0);
   }
   return default_value;
 }
@@ -242,7 +242,7 @@ static Expr *parse_precedence(Precedence precedence) {
   if (prefixRule == NULL) {
     parse_error(PE_NOFATAL, previous, "expression expected");
     unget_token(previous);
-    return NULL;
+    return new_expr_fixlit(&tyInt, previous, 0);  // Dummy
   }
 
   Expr *expr = prefixRule(previous);
-- 
2.43.0


From d2906a94ab62c0578040578523dea7d7baa2e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 119/170] fix: the assembler does not read beyond an empty line
 or go on with an illegal label

---
 src/as/parse_asm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3e1b44c..5762254 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -191,6 +191,8 @@ bool is_label_chr(char c) {
 static const char *get_label_end(ParseInfo *info) {
   const char *start = info->p;
   const char *p = start;
+  if (*p == '\0')
+    return p;
   if (*p == '"') {
     ++p;
     for (;;) {
@@ -203,7 +205,7 @@ static const char *get_label_end(ParseInfo *info) {
       ++p;
       if (c == '"')
         break;
-      if (c == '\\')
+      if (c == '\\' && *p != '\0')
         ++p;
     }
     start += 2;
@@ -244,7 +246,7 @@ const Name *unquote_label(const char *p, const char *q) {
 static const Name *parse_label(ParseInfo *info) {
   const char *start = info->p;
   const char *p = get_label_end(info);
-  if (p == start)
+  if (p == NULL || p == start)
     return NULL;
 
   info->p = p;
@@ -686,6 +688,8 @@ Line *parse_line(ParseInfo *info) {
   const char *p = skip_whitespaces(info->rawline);
   info->p = p;
   const char *q = get_label_end(info);
+  if (q == NULL)
+    return NULL;
   const char *r = skip_whitespaces(q);
   if (*r == ':') {
     const Name *label = unquote_label(p, q);
@@ -777,7 +781,7 @@ static char *parse_string(ParseInfo *info) {
 
   info->p = start;
   const char *p = get_label_end(info);
-  if (p == start)
+  if (p == NULL || p == start)
     return NULL;
 
   info->p = p;
-- 
2.43.0


From 9b7f3edecf31e4424bb3be128f91dd9835cbbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 120/170] fix: the assembler reports a value of the wrong kind
 in .byte and .float directives

---
 src/as/parse_asm.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 5762254..469b5b2 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -964,7 +964,12 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         break;
       }
 
-      assert(expr->kind != EX_FLONUM);
+#ifndef __NO_FLONUM
+      if (expr->kind == EX_FLONUM) {
+        parse_error(info, "integer expected");
+        break;
+      }
+#endif
       if (expr->kind == EX_FIXNUM) {
         // TODO: Target endian.
         long value = expr->fixnum;
@@ -994,7 +999,7 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       case EX_FIXNUM:  value = expr->fixnum; break;
       case EX_FLONUM:  value = expr->flonum; break;
       default:
-        assert(false);
+        parse_error(info, "number expected");
         value = -1;
         break;
       }
-- 
2.43.0


From dd4da8c3a38ebccf6c1365cac883c517376b5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 121/170] fix: #include of something that is no name is
 reported

---
 src/cpp/preprocessor.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index b738c3f..974f873 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -352,7 +352,8 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
 
     set_source_string(p, stream->filename, stream->lineno);
     Token *ident = match(TK_IDENT);
-    assert(ident != NULL);
+    if (ident == NULL)
+      break;
     if (can_expand_ident(ident->ident)) {
       Vector *tokens = new_vector();
       vec_push(tokens, ident);
-- 
2.43.0


From 15e14d83ec8fe55d05fbf76e81535a1f68473321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 122/170] fix: `long long long` is reported

---
 src/cc/frontend/parser_type.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index b5de00d..d86f378 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -255,6 +255,10 @@ Type *parse_raw_type(int *pstorage) {
       ++tc.int_num;
       continue;
     case TK_LONG:
+      if (tc.long_num >= 2) {
+        parse_error(PE_NOFATAL, tok, ILLEGAL_TYPE_COMBINATION);
+        continue;
+      }
       ++tc.long_num;
       continue;
     case TK_FLOAT:
-- 
2.43.0


From c6c73f868c2dcef0e35ada3ccb7e242c6febb41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 123/170] fix: an array of arrays of unknown size is reported

---
 src/cc/frontend/parser_type.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index d86f378..18f8c0c 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -542,6 +542,10 @@ static Type *parse_direct_declarator_suffix(Type *type) {
     }
     const Type *basetype = type;
     Type *subtype = parse_direct_declarator_suffix(type);
+    if (subtype->kind == TY_ARRAY && subtype->pa.length == LEN_UND) {
+      parse_error(PE_NOFATAL, tok, "array of incomplete type");
+      subtype = arrayof(subtype->pa.ptrof, 1);  // Deceive to continue compiling.
+    }
 #ifndef __NO_VLA
     if (vla == NULL && subtype->kind == TY_ARRAY && subtype->pa.vla != NULL) {
       // If subtype is VLA, then make parent VLA, too.
-- 
2.43.0


From 3b601214f775f29547ed95c55584d9c058e4bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 124/170] fix: an assignment outside of functions is reported

---
 src/cc/frontend/fe_misc.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 69c6944..b228dd6 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1130,7 +1130,10 @@ Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInf
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned, 0);
 
   Type *ptype = ptrof(type);
-  assert(!is_global_scope(curscope));
+  if (is_global_scope(curscope)) {
+    parse_error(PE_NOFATAL, tok, "constant expression expected");
+    return lhs;
+  }
   Expr *ptr = alloc_tmp_var(curscope, ptype);
   Expr *ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(lhs->token, lhs));
 
@@ -1154,7 +1157,10 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, target->type->fixnum.is_unsigned, 0);
 
   Type *ptype = ptrof(type);
-  assert(!is_global_scope(curscope));
+  if (is_global_scope(curscope)) {
+    parse_error(PE_NOFATAL, tok, "constant expression expected");
+    return target;
+  }
   Expr *ptr = alloc_tmp_var(curscope, ptype);
   Expr *ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(target->token, target));
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
@@ -1202,7 +1208,10 @@ static Expr *transform_incdec_of_bool(enum ExprKind kind, Expr *target, const To
   bool post = kind >= EX_POSTINC;
   Type *type = target->type;
   Type *ptype = ptrof(type);
-  assert(!is_global_scope(curscope));
+  if (is_global_scope(curscope)) {
+    parse_error(PE_NOFATAL, tok, "constant expression expected");
+    return target;
+  }
   Expr *ptr = alloc_tmp_var(curscope, ptype);
   Expr *ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(target->token, target));
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
@@ -1689,7 +1698,10 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, lhs->type->fixnum.is_unsigned, 0);
 
   Type *ptype = ptrof(type);
-  assert(!is_global_scope(curscope));
+  if (is_global_scope(curscope)) {
+    parse_error(PE_NOFATAL, tok, "constant expression expected");
+    return lhs;
+  }
   Expr *ptr = alloc_tmp_var(curscope, ptype);
   Expr *ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(lhs->token, lhs));
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
@@ -1723,8 +1735,12 @@ Expr *transform_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
     }
 #endif
 
+    if (is_global_scope(curscope)) {
+      parse_error(PE_NOFATAL, tok, "constant expression expected");
+      return lhs;
+    }
+
     Type *ptype = ptrof(lhs->type);
-    assert(!is_global_scope(curscope));
     Expr *ptr = alloc_tmp_var(curscope, ptype);
     tmp_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(lhs->token, lhs));
     lhs = new_expr_unary(EX_DEREF, lhs->type, lhs->token, ptr);
-- 
2.43.0


From 14052e8035dd7af070786a6a17dc6f114a620508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 125/170] fix: compiling goes on after an illegal designator
 instead of aborting

---
 src/cc/frontend/initializer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 38e01d1..32d6e80 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -218,7 +218,8 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
   Vector *indices = flattener->indices;
   for (;;) {
     int depth = indices->len;
-    assert(depth > 0);
+    if (depth == 0)
+      return NULL;  // After an illegal designator: the error is already reported.
     intptr_t last_index = VOIDP2INT(indices->data[depth - 1]) + 1;
     indices->data[depth - 1] = INT2VOIDP(last_index);
 
-- 
2.43.0


From 413fade14d94c804979d93b8cd9c6eaf3301e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 126/170] fix: a wrong number of arguments is reported for a
 function without a name, too

---
 src/cc/frontend/fe_misc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b228dd6..d733309 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1533,8 +1533,12 @@ void check_funcall_args(Expr *func, Vector *args, Scope *scope) {
     int argc = args->len;
     int paramc = types->len;
     if (!(argc == paramc || (vaargs && argc >= paramc))) {
-      parse_error(PE_NOFATAL, func->token, "function `%.*s' expect %d arguments, but %d",
-                  NAMES(func->var.name), paramc, argc);
+      if (func->kind == EX_VAR) {
+        parse_error(PE_NOFATAL, func->token, "function `%.*s' expect %d arguments, but %d",
+                    NAMES(func->var.name), paramc, argc);
+      } else {
+        parse_error(PE_NOFATAL, func->token, "function expect %d arguments, but %d", paramc, argc);
+      }
       return;
     }
   }
-- 
2.43.0


From 60e6d80c419f5568de73cb35df6b74a0eb791cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 127/170] fix: compiling goes on after a static initializer
 that refers to a local variable

---
 src/cc/frontend/initializer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 32d6e80..c5dd671 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -584,7 +584,7 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
       if (!is_global_scope(scope) && !(varinfo->storage & VS_STATIC) &&
           get_callee_type(value->type) == NULL) {
         parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
-        return NULL;
+        return value;
       }
       *isconst = value->type->kind == TY_ARRAY || value->type->kind == TY_FUNC ||
                  (value->type->kind == TY_PTR && value->type->pa.ptrof->kind == TY_FUNC);
@@ -616,7 +616,7 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
     value->member.target = check_global_initializer_fixnum(value->member.target, isconst);
     if (value->token->kind != TK_DOT) {
       parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
-      return NULL;
+      return value;
     }
     *isconst = value->type->kind == TY_ARRAY;
     break;
-- 
2.43.0


From f804b35a0bb550117c3ae97f31697218f4bf5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 128/170] fix: wcc reports va_arg without a type

---
 src/wcc/gen_wasm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index cd7eb4c..1dc1e7e 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -2037,6 +2037,10 @@ static Expr *proc_builtin_va_arg(const Token *ident) {
   consume(TK_COMMA, "`,' expected");
   Type *type = parse_var_def(NULL, NULL, NULL);
   consume(TK_RPAR, "`)' expected");
+  if (type == NULL) {
+    parse_error(PE_NOFATAL, ident, "type expected");
+    type = &tyInt;
+  }
 
   mark_var_used(ap);
 
-- 
2.43.0


From 9a7301ec69ef57af4a9fcf6a33a3734feaafc783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 129/170] fix: #include of an undefined name is reported
 instead of running forever

---
 src/cpp/preprocessor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 974f873..dd12a1b 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -370,6 +370,8 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
       p = expanded;
 
       // TODO: Recursive back.
+    } else {
+      break;
     }
   }
 
-- 
2.43.0


From 1f52ad2fb00d818be11ae419216e40d9a3466452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 130/170] fix: a macro name without arguments can be followed
 by directives up to the end of the file

---
 src/cpp/preprocessor.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index dd12a1b..cd2d467 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -851,9 +851,11 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
 }
 
 static void adjust_output_lineno(PreprocessFile *ppf) {
-  assert(ppf->out_lineno <= ppf->stream.lineno);
   int d = ppf->stream.lineno - ppf->out_lineno;
-  if (d > 0) {
+  if (d < 0) {  // Directives were read while looking for the arguments of a macro.
+    fprintf(pp_ofp, "# %d \"%s\"\n", ppf->stream.lineno + 1, ppf->stream.filename);
+    ppf->out_lineno = ppf->stream.lineno;
+  } else if (d > 0) {
     if (d >= 5) {
       if (expanding)  // In the middle of the line.
         fputc('\n', pp_ofp);
-- 
2.43.0


From 7229be211ef8c61172d68055752488dc1f22b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 131/170] fix: the assembler does not read beyond the end of a
 line without a closing quote

---
 src/as/parse_asm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 469b5b2..d786752 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -760,8 +760,10 @@ static size_t unescape_string(ParseInfo *info, char *dst) {
   size_t len = 0;
   for (; *info->p != '"'; ++info->p, ++len) {
     char c = *info->p;
-    if (c == '\0')
+    if (c == '\0' || (c == '\\' && info->p[1] == '\0')) {
       parse_error(info, "string not closed");
+      return len;
+    }
     if (c == '\\') {
       ++info->p;
       c = unescape_char(info);
@@ -821,8 +823,10 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   case DT_ASCII:
   case DT_STRING:
     {
-      if (*info->p != '"')
+      if (*info->p != '"') {
         parse_error(info, "`\"' expected");
+        break;
+      }
       ++info->p;
       const char *p = info->p;
       size_t len = unescape_string(info, NULL);
-- 
2.43.0


From fdc8f01ce70fcc18188823e05745c39f6a09db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 132/170] fix: compiling goes on after a missing statement of
 if, switch or a loop

---
 src/cc/frontend/parser.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index f5acdfa..416315f 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -326,15 +326,25 @@ static bool parse_vardecl(Vector *stmts) {
   return true;
 }
 
+// Statement which cannot be omitted.
+static Stmt *parse_substmt(const Token *tok) {
+  Stmt *stmt = parse_stmt();
+  if (stmt == NULL) {
+    parse_error(PE_NOFATAL, NULL, "statement expected");
+    stmt = new_stmt(ST_EMPTY, tok);  // Dummy
+  }
+  return stmt;
+}
+
 static Stmt *parse_if(const Token *tok) {
   consume(TK_LPAR, "`(' expected");
   Expr *cond = parse_expr();
   mark_var_used(cond);
   consume(TK_RPAR, "`)' expected");
-  Stmt *tblock = parse_stmt();
+  Stmt *tblock = parse_substmt(tok);
   Stmt *fblock = NULL;
   if (match(TK_ELSE)) {
-    fblock = parse_stmt();
+    fblock = parse_substmt(tok);
   }
   return new_stmt_if(tok, make_cond(cond), tblock, fblock);
 }
@@ -354,7 +364,7 @@ static Stmt *parse_switch(const Token *tok) {
   SAVE_LOOP_SCOPE(save, stmt, NULL);
   loop_scope.swtch = stmt;
 
-  stmt->switch_.body = parse_stmt();
+  stmt->switch_.body = parse_substmt(tok);
 
   RESTORE_LOOP_SCOPE(save);
 
@@ -422,7 +432,7 @@ static Stmt *parse_while(const Token *tok) {
 
   SAVE_LOOP_SCOPE(save, stmt, stmt);
 
-  stmt->while_.body = parse_stmt();
+  stmt->while_.body = parse_substmt(tok);
 
   RESTORE_LOOP_SCOPE(save);
 
@@ -434,7 +444,7 @@ static Stmt *parse_do_while(const Token *tok) {
 
   SAVE_LOOP_SCOPE(save, stmt, stmt);
 
-  stmt->while_.body = parse_stmt();
+  stmt->while_.body = parse_substmt(tok);
 
   RESTORE_LOOP_SCOPE(save);
 
@@ -486,7 +496,7 @@ static Stmt *parse_for(const Token *tok) {
 
   SAVE_LOOP_SCOPE(save, stmt, stmt);
 
-  stmt->for_.body = parse_stmt();
+  stmt->for_.body = parse_substmt(tok);
 
   RESTORE_LOOP_SCOPE(save);
 
-- 
2.43.0


From de67ecec82df2d56077be81d00acca1f0327312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 133/170] fix: a statement expression outside of functions is
 reported

---
 src/cc/frontend/parser_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index ccd5eae..77c6330 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -610,6 +610,8 @@ static Expr *lparen(Token *tok) {
       return grouping();
 
     // gcc extension: Statement expression ({})
+    if (curfunc == NULL)
+      parse_error(PE_FATAL, tok, "statement expression outside of functions");
     Stmt *block = parse_block(tok, NULL);
     consume(TK_RPAR, "`)' expected");
     Vector *stmts = block->block.stmts;
-- 
2.43.0


From be6ec3361804fc81497172d5c66b756597d347a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 134/170] fix: a flexible array member without a name does not
 abort the compiler

---
 src/cc/frontend/parser_type.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 18f8c0c..bc40914 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -119,7 +119,6 @@ static StructInfo *parse_struct(bool is_union) {
         }
 #endif
         if (type->pa.length == LEN_UND) {
-          assert(ident != NULL);
           flex_arr_mem = ident;
           type->pa.length = LEN_FAM;
         }
@@ -127,7 +126,6 @@ static StructInfo *parse_struct(bool is_union) {
       case TY_STRUCT:
         assert(type->struct_.info != NULL);
         if (type->struct_.info->is_flexible) {
-          assert(ident != NULL);
           flex_arr_mem = ident;
         }
         break;
-- 
2.43.0


From 15fbec37ca3069bfa5e79084674ecd3efec5c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 135/170] fix: compiling goes on after a static variable that
 redeclares a parameter

---
 src/cc/frontend/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c5dd671..c2bec17 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -949,7 +949,7 @@ Initializer *check_vardecl(Type **ptype, const Token *ident, int storage, Initia
     varinfo->type = type;
 
     // TODO: Check `init` can be cast to `type`.
-    if (storage & VS_STATIC) {
+    if (varinfo->storage & VS_STATIC) {  // Not `storage`: it might be declared twice by mistake.
       VarInfo *gvarinfo = varinfo->static_.svar;
       assert(gvarinfo != NULL);
       gvarinfo->global.init = init = check_global_initializer(type, init);
-- 
2.43.0


From 5ca66aba71eb04be824fc63b091ee55656981970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 136/170] fix: a cast to an incomplete structure is reported

---
 src/cc/frontend/parser_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 77c6330..a93838f 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -632,6 +632,8 @@ static Expr *lparen(Token *tok) {
     parse_error(PE_NOFATAL, token, "auto type not allowed");
     type = &tyInt;  // Dummy
   }
+  if (type->kind == TY_STRUCT && !ensure_struct(type, token, curscope))
+    type = &tyInt;  // Dummy
 
   if (fetch_token()->kind == TK_LBRACE)
     return parse_compound_literal(type);
-- 
2.43.0


From 60eb2ce13001b6878ba64754c5abddd31297a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 137/170] fix: compiling goes on after a variable length array
 outside of functions

---
 src/cc/frontend/parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 416315f..b908364 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -922,8 +922,10 @@ static void parse_global_var_decl(Type *rawtype, int storage, Type *type, Token
       type = parse_type_suffix(type);
 
 #ifndef __NO_VLA
-    if (type->kind == TY_ARRAY && type->pa.vla != NULL)
-      type = array_to_ptr(type);
+    if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
+      parse_error(PE_NOFATAL, ident, "Variable length array cannot use in global scope");
+      type = arrayof(type->pa.ptrof, 1);  // Deceive to continue compiling.
+    }
 #endif
 
     if (storage & VS_TYPEDEF) {
-- 
2.43.0


From 8b89d1705edab5c8f55b10bb80e6417fc8461a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 138/170] fix: comparing a pointer with a floating-point number
 is reported

---
 src/cc/frontend/fe_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index d733309..29ec9e2 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1261,7 +1261,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       }
       if (!cast_numbers(&lhs, &rhs, false))
         parse_error(PE_FATAL, tok, "Cannot compare except numbers");
-    } else if (!(is_number(lt) || ptr_or_array(lt)) || !(is_number(rt) || ptr_or_array(rt))) {
+    } else if (!(is_fixnum(lt->kind) || ptr_or_array(lt)) || !(is_fixnum(rt->kind) || ptr_or_array(rt))) {
       parse_error(PE_NOFATAL, tok, "Cannot compare except numbers");
       return new_expr_fixlit(&tyBool, tok, 0);
     }
-- 
2.43.0


From 6b018be3e5069bfdbc12ebfb37d1b40e308a03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 139/170] fix: a string in #if is reported

---
 src/cpp/pp_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 3486320..a2abfea 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -311,7 +311,9 @@ static PpResult literal(Token *tok) {
   case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
     return tok->flonum;
 #endif
-  default: assert(false); return 0;  // Unreachable.
+  default:
+    pp_parse_error(tok, "Number expected");
+    return 0;  // Unreachable.
   }
 }
 
-- 
2.43.0


From d7179b5d5cb108ae15d053157d777bf96501bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 140/170] fix: compiling goes on after a local variable that
 redeclares a static one

---
 src/cc/frontend/initializer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c2bec17..ff8e71a 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -869,7 +869,8 @@ void construct_initializing_stmts(Vector *decls) {
   for (int i = 0; i < decls->len; ++i) {
     VarDecl *decl = decls->data[i];
     VarInfo *varinfo = decl->varinfo;
-    assert(!(varinfo->storage & (VS_STATIC | VS_EXTERN)));
+    if (varinfo->storage & (VS_STATIC | VS_EXTERN))  // Declared twice by mistake.
+      continue;
     Expr *var = new_expr_variable(varinfo->ident->ident, varinfo->type, NULL, curscope);
     assert(!is_global_scope(curscope));
     if (varinfo->local.init != NULL) {
-- 
2.43.0


From 7e2c04acf9dfa718991c7e18d34a5165e3b32dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:11 +0000
Subject: [PATCH 141/170] fix: a variable length array of an incomplete
 structure is reported

---
 src/cc/frontend/parser_type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index bc40914..ec1065f 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -550,6 +550,8 @@ static Type *parse_direct_declarator_suffix(Type *type) {
       vla = new_expr_fixlit(&tySize, tok, length);
     }
     if (vla != NULL) {
+      if (!ensure_struct(subtype, tok, curscope))
+        subtype = &tyInt;  // Deceive to continue compiling.
       // VLA: Convert most outer type as a pointer, not an array.
       type = arrayof(subtype, LEN_VLA);
       type->pa.vla = vla;
-- 
2.43.0


From 90fb96022b002d5880b62727e71544f8acff6c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 142/170] fix: a string in #if is reported (without unreachable
 code)

---
 src/cpp/pp_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index a2abfea..80ba6fb 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -313,7 +313,6 @@ static PpResult literal(Token *tok) {
 #endif
   default:
     pp_parse_error(tok, "Number expected");
-    return 0;  // Unreachable.
   }
 }
 
-- 
2.43.0


From f334ef5e00a9cd40801b975c3a2d4acf99a3d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 143/170] fix: `defined` at the end of a line is reported

---
 src/cpp/pp_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 80ba6fb..2d5aa2c 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -143,7 +143,10 @@ Token *pp_consume(enum TokenKind kind, const char *error) {
 static PpResult parse_defined(void) {
   bool lpar = pp_match(TK_LPAR) != NULL;
 
-  const char *start = skip_whitespaces(get_lex_p());
+  const char *start = get_lex_p();
+  if (start == NULL)
+    pp_parse_error(NULL, "ident expected");
+  start = skip_whitespaces(start);
   const char *end = read_ident(start);
   if (end == NULL) {
     lex_error(start, "ident expected");
-- 
2.43.0


From 922b9e419cb78827812cd5f872ce7905336dc79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 144/170] fix: casts to arrays and compound literals of void
 are reported

---
 src/cc/frontend/parser_expr.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index a93838f..df9af94 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -635,8 +635,17 @@ static Expr *lparen(Token *tok) {
   if (type->kind == TY_STRUCT && !ensure_struct(type, token, curscope))
     type = &tyInt;  // Dummy
 
-  if (fetch_token()->kind == TK_LBRACE)
+  if (fetch_token()->kind == TK_LBRACE) {
+    if (type->kind == TY_VOID || type->kind == TY_FUNC) {
+      parse_error(PE_NOFATAL, token, "illegal type for compound literal");
+      type = &tyInt;  // Dummy
+    }
     return parse_compound_literal(type);
+  }
+  if (type->kind == TY_ARRAY) {
+    parse_error(PE_NOFATAL, token, "cannot cast to array type");
+    type = ptrof(type->pa.ptrof);  // Deceive to continue compiling.
+  }
 
   // Cast expression.
   Expr *sub = parse_precedence(PREC_POSTFIX);
-- 
2.43.0


From 80dd3d989327acb42c31f43ea8ae0abbba5c62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 145/170] fix: arrays of void and of functions are reported

---
 src/cc/frontend/parser.c      | 5 ++++-
 src/cc/frontend/parser_type.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index b908364..72c6044 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -924,7 +924,10 @@ static void parse_global_var_decl(Type *rawtype, int storage, Type *type, Token
 #ifndef __NO_VLA
     if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
       parse_error(PE_NOFATAL, ident, "Variable length array cannot use in global scope");
-      type = arrayof(type->pa.ptrof, 1);  // Deceive to continue compiling.
+      do {
+        type = type->pa.ptrof;
+      } while (type->kind == TY_ARRAY);
+      type = arrayof(type, 1);  // Deceive to continue compiling.
     }
 #endif
 
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index ec1065f..4cc1b95 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -540,7 +540,10 @@ static Type *parse_direct_declarator_suffix(Type *type) {
     }
     const Type *basetype = type;
     Type *subtype = parse_direct_declarator_suffix(type);
-    if (subtype->kind == TY_ARRAY && subtype->pa.length == LEN_UND) {
+    if (subtype->kind == TY_VOID || subtype->kind == TY_FUNC) {
+      parse_error(PE_NOFATAL, tok, "illegal type for element of array");
+      subtype = &tyInt;  // Deceive to continue compiling.
+    } else if (subtype->kind == TY_ARRAY && subtype->pa.length == LEN_UND) {
       parse_error(PE_NOFATAL, tok, "array of incomplete type");
       subtype = arrayof(subtype->pa.ptrof, 1);  // Deceive to continue compiling.
     }
-- 
2.43.0


From fd6fe0033db93239418c79995e80ac112ccebd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 146/170] fix: compiling goes on after a floating-point literal
 cast to something else than a number

---
 src/cc/frontend/fe_misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 29ec9e2..fdcc037 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -381,6 +381,8 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
                               type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
+      if (type->kind != TY_FLONUM)  // The error is already reported.
+        return new_expr_cast(type, token, sub);
       return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
-- 
2.43.0


From 9b7c578b1b41eaad4bbb039b12e2c2e0a7a12f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:45 +0000
Subject: [PATCH 147/170] fix: wcc: a variable declared extern in a block and
 at file scope is linked

---
 src/wcc/traverse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index d1dd671..0b25c51 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -329,7 +329,13 @@ static void te_var(Expr **pexpr, bool needval) {
     register_indirect_function(expr->var.name);
     traverse_func_expr(pexpr);
   } else {
-    if (is_global_scope(expr->var.scope)) {
+    bool global = is_global_scope(expr->var.scope);
+    if (!global) {
+      VarInfo *varinfo = scope_find(expr->var.scope, expr->var.name, NULL);
+      assert(varinfo != NULL);
+      global = (varinfo->storage & VS_EXTERN) != 0;  // Local extern declaration.
+    }
+    if (global) {
       // Register used global variable even if the entity is `extern`.
       get_gvar_info(expr);
     }
-- 
2.43.0


From 35b17d50e8e6739e68a013bf22d3fb5099627550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 148/170] fix: a global initializer that refers to a value of a
 variable is reported

---
 src/cc/frontend/initializer.c | 45 ++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index ff8e71a..75a9351 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -560,6 +560,34 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
 
 static Initializer *check_global_initializer(Type *type, Initializer *init);
 
+static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst);
+
+// Check whether the address of lvalue is constant.
+static Expr *check_global_initializer_lval(Expr *value, bool *isconst) {
+  switch (value->kind) {
+  case EX_DEREF:
+    value->unary.sub = check_global_initializer_fixnum(value->unary.sub, isconst);
+    break;
+  case EX_MEMBER:
+    if (value->token->kind != TK_DOT) {
+      parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
+      *isconst = true;  // Already reported.
+      break;
+    }
+    value->member.target = check_global_initializer_lval(value->member.target, isconst);
+    break;
+  case EX_VAR:
+  case EX_COMPLIT:
+    value = check_global_initializer_fixnum(value, isconst);
+    *isconst = true;
+    break;
+  default:
+    value = check_global_initializer_fixnum(value, isconst);
+    break;
+  }
+  return value;
+}
+
 static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
   switch (value->kind) {
   case EX_FIXNUM:
@@ -586,8 +614,7 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
         parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
         return value;
       }
-      *isconst = value->type->kind == TY_ARRAY || value->type->kind == TY_FUNC ||
-                 (value->type->kind == TY_PTR && value->type->pa.ptrof->kind == TY_FUNC);
+      *isconst = varinfo->type->kind == TY_ARRAY || varinfo->type->kind == TY_FUNC;
     }
     break;
   case EX_COMPLIT:
@@ -605,20 +632,16 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
     }
     break;
   case EX_REF:
-    value->unary.sub = check_global_initializer_fixnum(value->unary.sub, isconst);
-    *isconst = true;
+    value->unary.sub = check_global_initializer_lval(value->unary.sub, isconst);
     break;
-  case EX_DEREF:
   case EX_CAST:
     value->unary.sub = check_global_initializer_fixnum(value->unary.sub, isconst);
     break;
+  case EX_DEREF:
   case EX_MEMBER:
-    value->member.target = check_global_initializer_fixnum(value->member.target, isconst);
-    if (value->token->kind != TK_DOT) {
-      parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
-      return value;
-    }
-    *isconst = value->type->kind == TY_ARRAY;
+    value = check_global_initializer_lval(value, isconst);
+    if (value->type->kind != TY_ARRAY && value->type->kind != TY_FUNC)
+      *isconst = false;
     break;
   default:
     *isconst = false;
-- 
2.43.0


From 7b2f963f8e20acf33fae4109551e132c55b677a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 149/170] fix: an array of zero length can have an initializer

---
 src/cc/frontend/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 75a9351..d5cdc8e 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -62,7 +62,7 @@ Type *fix_array_size(Type *type, Initializer *init, const Token *token) {
     cloned->pa.length = arr_len;
     return cloned;
   } else {
-    assert(arr_len > 0);
+    assert(arr_len >= 0);
     assert(!is_str || init->single->kind == EX_STR);
     ssize_t init_len = is_str ? (ssize_t)init->single->str.len : (ssize_t)init->multi->len;
     if (init_len > arr_len && (!is_str || init_len - 1 > arr_len))  // Allow non-nul string.
-- 
2.43.0


From 47a34e9d25829d48a1d6dc423a18ba72f298e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 150/170] fix: a floating-point number in an integer operand is
 reported

---
 src/as/parse_asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index d786752..11c3778 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -1169,7 +1169,7 @@ Value calc_expr(Table *label_table, const Expr *expr) {
       return value;
     }
 
-  default: assert(false); break;
+  default: error("Illegal expression"); break;
   }
   return (Value){.label = NULL, .offset = 0};
 }
-- 
2.43.0


From a475cbf5efd87ecf6d4a11b7f45818bbbd04eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 151/170] fix: data in the bss section is reported

---
 src/as/arch/aarch64/ir_asm_aarch64.c | 3 ++-
 src/as/arch/riscv64/ir_asm_riscv64.c | 3 ++-
 src/as/arch/x64/ir_asm_x64.c         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/as/arch/aarch64/ir_asm_aarch64.c b/src/as/arch/aarch64/ir_asm_aarch64.c
index 4f28143..03b9726 100644
--- a/src/as/arch/aarch64/ir_asm_aarch64.c
+++ b/src/as/arch/aarch64/ir_asm_aarch64.c
@@ -9,7 +9,8 @@
 #include "util.h"
 
 static void sec_add_data(SectionInfo *section, const void *data, size_t bytes) {
-  assert(!(section->flag & SF_BSS));
+  if (section->flag & SF_BSS)
+    error("Data in the bss section");
   data_append(section->ds, data, bytes);
 }
 
diff --git a/src/as/arch/riscv64/ir_asm_riscv64.c b/src/as/arch/riscv64/ir_asm_riscv64.c
index 83ca624..8faaa80 100644
--- a/src/as/arch/riscv64/ir_asm_riscv64.c
+++ b/src/as/arch/riscv64/ir_asm_riscv64.c
@@ -23,7 +23,8 @@ static const Name *alloc_dummy_label(void) {
 }
 
 static void sec_add_data(SectionInfo *section, const void *data, size_t bytes) {
-  assert(!(section->flag & SF_BSS));
+  if (section->flag & SF_BSS)
+    error("Data in the bss section");
   data_append(section->ds, data, bytes);
 }
 
diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index ee4ec82..b430ec5 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -10,7 +10,8 @@
 #include "util.h"
 
 static void sec_add_data(SectionInfo *section, const void *data, size_t bytes) {
-  assert(!(section->flag & SF_BSS));
+  if (section->flag & SF_BSS)
+    error("Data in the bss section");
   data_append(section->ds, data, bytes);
 }
 
-- 
2.43.0


From e9bc019979926f608e97a85bd3fc834aa7d58a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 152/170] fix: an asterisk without a left operand in #if is
 reported

---
 src/cpp/pp_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 2d5aa2c..30ead02 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -403,7 +403,7 @@ static const ParseRule *get_rule(enum TokenKind kind) {
   static const ParseRule kRules[] = {
     [TK_LPAR]          = {grouping},
 
-    [TK_MUL]           = {unary,    binary,    PREC_FACTOR},
+    [TK_MUL]           = {NULL,     binary,    PREC_FACTOR},
     [TK_DIV]           = {NULL,     binary,    PREC_FACTOR},
     [TK_MOD]           = {NULL,     binary,    PREC_FACTOR},
 
-- 
2.43.0


From 60f6c85426ca0a5f99c323e60eef32778e865740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:11 +0000
Subject: [PATCH 153/170] fix: the address of a member through a constant
 pointer can initialize a global variable

---
 src/cc/frontend/initializer.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index d5cdc8e..e58b7f5 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -569,12 +569,10 @@ static Expr *check_global_initializer_lval(Expr *value, bool *isconst) {
     value->unary.sub = check_global_initializer_fixnum(value->unary.sub, isconst);
     break;
   case EX_MEMBER:
-    if (value->token->kind != TK_DOT) {
-      parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
-      *isconst = true;  // Already reported.
-      break;
-    }
-    value->member.target = check_global_initializer_lval(value->member.target, isconst);
+    if (value->token->kind == TK_DOT)
+      value->member.target = check_global_initializer_lval(value->member.target, isconst);
+    else
+      value->member.target = check_global_initializer_fixnum(value->member.target, isconst);
     break;
   case EX_VAR:
   case EX_COMPLIT:
-- 
2.43.0


From 1a89c139be3c871554fa73e70755e1d5f6c8e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 154/170] fix: a floating-point number in an integer operand is
 reported (without unreachable code)

---
 src/as/parse_asm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 11c3778..1cdb9bf 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -1169,7 +1169,7 @@ Value calc_expr(Table *label_table, const Expr *expr) {
       return value;
     }
 
-  default: error("Illegal expression"); break;
+  default: break;
   }
-  return (Value){.label = NULL, .offset = 0};
+  error("Illegal expression");
 }
-- 
2.43.0


From 9bdfc15d40792244c09711a89dbf8d024000044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 155/170] fix: constant pointers are compared as unsigned

---
 src/cc/frontend/fe_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index fdcc037..f5be410 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1288,7 +1288,8 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
     case EX_FIXNUM:
       switch (rhs->kind) {
       case EX_FIXNUM:
-        if (lhs->type->fixnum.is_unsigned || rhs->type->fixnum.is_unsigned) {
+        if (!is_fixnum(lhs->type->kind) || lhs->type->fixnum.is_unsigned ||  // Pointers are unsigned.
+            !is_fixnum(rhs->type->kind) || rhs->type->fixnum.is_unsigned) {
           UFixnum l = lhs->fixnum, r = rhs->fixnum;
           JUDGE(kind, tf, l, r);
         } else {
-- 
2.43.0


From 7f87a2d4f5b130eb370f951c4661cb20efa819b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:12 +0000
Subject: [PATCH 156/170] fix: an ampersand without a left operand in #if is
 reported

---
 src/cpp/pp_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 30ead02..2697845 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -421,7 +421,7 @@ static const ParseRule *get_rule(enum TokenKind kind) {
     [TK_EQ]            = {NULL,     binary,    PREC_EQ},
     [TK_NE]            = {NULL,     binary,    PREC_EQ},
 
-    [TK_AND]           = {unary,    binary,    PREC_BITAND},
+    [TK_AND]           = {NULL,     binary,    PREC_BITAND},
     [TK_HAT]           = {NULL,     binary,    PREC_BITXOR},
     [TK_OR]            = {NULL,     binary,    PREC_BITOR},
 
-- 
2.43.0


From c1c534fb9b52ca5ede7252b00a5ff83fa8c53fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 157/170] fix: wcc: a function can have parameters without
 names

---
 src/cc/frontend/fe_misc.c | 5 ++---
 src/cc/frontend/fe_misc.h | 2 +-
 src/wcc/gen_wasm.c        | 4 ++--
 src/wcc/traverse.c        | 2 +-
 4 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index f5be410..775983c 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -2143,11 +2143,10 @@ bool check_funcend_return(Stmt *stmt) {
   return false;
 }
 
-int get_funparam_index(Function *func, const Name *name) {
+int get_funparam_index(Function *func, const VarInfo *varinfo) {
   const Vector *params = func->params;
   for (int i = 0, param_count = params->len; i < param_count; ++i) {
-    VarInfo *v = params->data[i];
-    if (equal_name(v->ident->ident, name))
+    if (params->data[i] == varinfo)
       return i;
   }
   return -1;
diff --git a/src/cc/frontend/fe_misc.h b/src/cc/frontend/fe_misc.h
index 312dd8f..85dbc60 100644
--- a/src/cc/frontend/fe_misc.h
+++ b/src/cc/frontend/fe_misc.h
@@ -126,7 +126,7 @@ void check_unused_variables(Function *func);
 void check_func_reachability(Function *func);
 bool check_funcend_return(Stmt *stmt);
 
-int get_funparam_index(Function *func, const Name *name);  // -1: Not funparam.
+int get_funparam_index(Function *func, const VarInfo *varinfo);  // -1: Not funparam.
 
 bool satisfy_inline_criteria(const VarInfo *varinfo);
 Stmt *embed_inline_funcall(VarInfo *varinfo);
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 1dc1e7e..a753dc5 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1521,7 +1521,7 @@ static uint32_t allocate_local_variables(Function *func, DataStorage *data) {
 
       int param_index = -1;
       if (i == 0 && param_count > 0) {
-        int k = get_funparam_index(func, varinfo->ident->ident);
+        int k = get_funparam_index(func, varinfo);
         if (k >= 0) {
           param_index = k;
           if (!is_stack_param(varinfo->type))
@@ -1591,7 +1591,7 @@ static uint32_t allocate_local_variables(Function *func, DataStorage *data) {
       varinfo->local.vreg = vreg;
       int param_index = -1;
       if (i == 0 && param_count > 0) {
-        int k = get_funparam_index(func, varinfo->ident->ident);
+        int k = get_funparam_index(func, varinfo);
         if (k >= 0)
           param_index = k;
       }
diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 0b25c51..df09edb 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -863,7 +863,7 @@ static bool detect_compile_unit_sp(Function *func) {
 
       int param_index = -1;
       if (i == 0 && param_count > 0) {
-        int k = get_funparam_index(func, varinfo->ident->ident);
+        int k = get_funparam_index(func, varinfo);
         if (k >= 0) {
           param_index = k;
           if (!is_stack_param(varinfo->type))
-- 
2.43.0


From 859c2611c695769cb30f0d3d954c7d59263ec46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 158/170] fix: an array of zero length can be initialized with
 an empty string

---
 src/cc/frontend/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index e58b7f5..175b8e8 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -703,7 +703,7 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
       {
         Expr *e = strip_cast(init->single);
         if (e->kind == EX_STR && is_char_type(type->pa.ptrof, e->str.kind)) {
-          assert(type->pa.length > 0);
+          assert(type->pa.length >= 0);
           if ((ssize_t)e->str.len - 1 > type->pa.length) {  // Allow non-nul string.
             parse_error(PE_NOFATAL, init->single->token, "Array size shorter than initializer");
           }
-- 
2.43.0


From 33e8228643eb5ae2a90ca5179c5f8b66f9dc588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 159/170] fix: a function that returns an array or a function
 is reported

---
 src/cc/frontend/parser_type.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 4cc1b95..a820ea5 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -566,13 +566,17 @@ static Type *parse_direct_declarator_suffix(Type *type) {
       if (basetype->qualifier & TQ_CONST)
         type->qualifier |= TQ_CONST;
     }
-  } else if (match(TK_LPAR)) {
+  } else if ((tok = match(TK_LPAR)) != NULL) {
     bool vaargs;
     Vector *param_vars = parse_funparams(&vaargs);
     Type *rettype = parse_direct_declarator_suffix(type);
     if (rettype->kind == TY_AUTO) {
       parse_error(PE_NOFATAL, NULL, "auto type not allowed in function return type");
       rettype = &tyInt;
+    } else if (rettype->kind == TY_ARRAY || rettype->kind == TY_FUNC) {
+      parse_error(PE_NOFATAL, tok, "function cannot return %s",
+                  rettype->kind == TY_ARRAY ? "an array" : "a function");
+      rettype = &tyInt;  // Deceive to continue compiling.
     }
 
     Vector *param_types = extract_varinfo_types(param_vars);
@@ -592,7 +596,14 @@ Type *parse_direct_declarator(Type *type, Token **pident) {
     type = parse_declarator(placeholder, &ident);
     consume(TK_RPAR, "`)' expected");
 
+    Token *tok = fetch_token();
     Type *inner = parse_direct_declarator_suffix(ret);
+    if (type->kind == TY_FUNC && type->func.ret == placeholder &&
+        (inner->kind == TY_ARRAY || inner->kind == TY_FUNC)) {
+      parse_error(PE_NOFATAL, tok, "function cannot return %s",
+                  inner->kind == TY_ARRAY ? "an array" : "a function");
+      inner = &tyInt;  // Deceive to continue compiling.
+    }
     memcpy(placeholder, inner, sizeof(*placeholder));
   } else {
     ident = match(TK_IDENT);
-- 
2.43.0


From 6e82f3c3f2ccbe0411097cb32bc8460ec9e04916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 160/170] fix: redundant parentheses around a declarator keep
 what follows them

---
 src/cc/frontend/parser_type.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index a820ea5..3cf1df7 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -585,6 +585,20 @@ static Type *parse_direct_declarator_suffix(Type *type) {
   }
   return type;
 }
+
+// Pairs of a type of a parenthesized declarator and the outer one, which is not determined yet.
+static Vector *pending_types;  // <Type*>
+
+static void determine_type(Type *placeholder, const Type *type) {
+  memcpy(placeholder, type, sizeof(*placeholder));
+  if (pending_types != NULL) {
+    for (int i = 0; i < pending_types->len; i += 2) {
+      if (pending_types->data[i + 1] == placeholder)
+        determine_type(pending_types->data[i], type);
+    }
+  }
+}
+
 Type *parse_direct_declarator(Type *type, Token **pident) {
   Token *ident = NULL;
   if (match(TK_LPAR)) {
@@ -604,7 +618,13 @@ Type *parse_direct_declarator(Type *type, Token **pident) {
                   inner->kind == TY_ARRAY ? "an array" : "a function");
       inner = &tyInt;  // Deceive to continue compiling.
     }
-    memcpy(placeholder, inner, sizeof(*placeholder));
+    determine_type(placeholder, inner);
+    if (inner == ret) {  // No suffix: It might be determined later.
+      if (pending_types == NULL)
+        pending_types = new_vector();
+      vec_push(pending_types, placeholder);
+      vec_push(pending_types, ret);
+    }
   } else {
     ident = match(TK_IDENT);
     type = parse_direct_declarator_suffix(type);
-- 
2.43.0


From d29329149f82606e0d556b582e8f40054dea977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 161/170] fix: braces around the initializer of a designated
 scalar

---
 src/cc/frontend/initializer.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 175b8e8..9cb6e42 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -380,9 +380,7 @@ static Initializer *find_desig_indices(InitFlattener *flattener, Initializer *in
       }
       break;
     case IK_MULTI:
-      if (is_multi_type(type->kind))
-        init = flatten_initializer_multi(type, init);
-      return init;
+      return flatten_initializer(type, init);
     case IK_SINGLE:
       if (is_multi_type(type->kind) &&
           !same_type_without_qualifier(type, init->single->type, true) &&
-- 
2.43.0


From 42f4035b8f5f4d3a924b94aac88a6be1173c632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 162/170] fix: compiling goes on after an array initialized
 with a compound literal of another type

---
 src/cc/frontend/initializer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 9cb6e42..db77808 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -24,7 +24,8 @@ Type *fix_array_size(Type *type, Initializer *init, const Token *token) {
       is_str = is_char_type(type->pa.ptrof, single->str.kind);
       break;
     case EX_COMPLIT:
-      assert(single->type->kind == TY_ARRAY);
+      if (single->type->kind != TY_ARRAY)
+        break;
       if (arr_len == -1) {
         type = single->type;
       } else {
-- 
2.43.0


From 6bd1b8f28921de58c31f36cc196825e0ce74e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:56 +0000
Subject: [PATCH 163/170] fix: wcc: a function can flow off its end without a
 value

---
 src/cc/frontend/fe_misc.c |  8 ++++---
 src/wcc/gen_wasm.c        | 47 +++++++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 775983c..bbcaeb8 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -2125,9 +2125,11 @@ bool check_funcend_return(Stmt *stmt) {
     return true;
   case ST_IF:
     {
-      bool t = check_funcend_return(stmt->if_.tblock);
-      bool f = stmt->if_.fblock == NULL || check_funcend_return(stmt->if_.fblock);
-      return t && f;  // Return true even if else is not exist.
+      if (is_const(stmt->if_.cond)) {
+        return check_funcend_return(is_const_truthy(stmt->if_.cond) ? stmt->if_.tblock
+                                                                    : stmt->if_.fblock);
+      }
+      return check_funcend_return(stmt->if_.tblock) && check_funcend_return(stmt->if_.fblock);
     }
   case ST_BLOCK:
     {
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index a753dc5..2b5b54e 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -71,6 +71,24 @@ static unsigned char get_func_ret_wtype(const Type *rettype) {
                                   : WT_I32;  // Pointer.
 }
 
+// Put a value for the end of a function body where no `return' statement is.
+static void gen_funcend_value(Stmt *body, const Type *rettype) {
+  if (rettype->kind == TY_VOID || check_funcend_return(body))
+    return;
+  if (body->reach & REACH_STOP) {
+    ADD_CODE(OP_UNREACHABLE);
+    return;
+  }
+  // Flow off the end: the value is undefined, but its type must match.
+  switch (get_func_ret_wtype(rettype)) {
+  case WT_I32: ADD_CODE(OP_I32_CONST, 0); break;
+  case WT_I64: ADD_CODE(OP_I64_CONST, 0); break;
+  case WT_F32: ADD_CODE(OP_F32_CONST, 0, 0, 0, 0); break;
+  case WT_F64: ADD_CODE(OP_F64_CONST, 0, 0, 0, 0, 0, 0, 0, 0); break;
+  default: assert(!"Illegal"); break;
+  }
+}
+
 static void gen_load(const Type *type) {
   switch (type->kind) {
   case TY_FIXNUM:
@@ -967,13 +985,9 @@ static void gen_inlined(Expr *expr, bool needval) {
 
     assert(embedded->kind == ST_BLOCK);
     Vector *stmts = embedded->block.stmts;
-    if (stmts->len > 0) {
-      Stmt *last = stmts->data[stmts->len - 1];
-      if (last->kind != ST_ASM && rettype->kind != TY_VOID && !check_funcend_return(embedded)) {
-        assert(embedded->reach & REACH_STOP);
-        ADD_CODE(OP_UNREACHABLE);
-      }
-    }
+    Stmt *last = stmts->len > 0 ? stmts->data[stmts->len - 1] : NULL;
+    if (last == NULL || last->kind != ST_ASM)
+      gen_funcend_value(embedded, rettype);
   } ADD_CODE(OP_END);
 
   if (wt != WT_VOID && !needval)
@@ -1412,8 +1426,12 @@ static void gen_if(Stmt *stmt, bool is_last) {
   }
 
   unsigned char wt = WT_VOID;
-  if (is_last && check_funcend_return(stmt))
-    wt = get_func_ret_wtype(curfunc->type->func.ret);
+  if (is_last) {
+    // Value can be left only if both branches return.
+    is_last = check_funcend_return(stmt);
+    if (is_last)
+      wt = get_func_ret_wtype(curfunc->type->func.ret);
+  }
 
   gen_cond(stmt->if_.cond, true, true);
   ADD_CODE(OP_IF, wt);
@@ -1725,14 +1743,9 @@ static void gen_defun(Function *func) {
 
   {
     Vector *stmts = func->body_block->block.stmts;
-    if (stmts->len > 0) {
-      Stmt *last = stmts->data[stmts->len - 1];
-      if (last->kind != ST_ASM && functype->func.ret->kind != TY_VOID &&
-          !check_funcend_return(func->body_block)) {
-        assert(func->body_block->reach & REACH_STOP);
-        ADD_CODE(OP_UNREACHABLE);
-      }
-    }
+    Stmt *last = stmts->len > 0 ? stmts->data[stmts->len - 1] : NULL;
+    if (last == NULL || last->kind != ST_ASM)
+      gen_funcend_value(func->body_block, functype->func.ret);
   }
 
   // Epilogue
-- 
2.43.0


From 7b43c08e490ebeca90c09cd43563a94d5ecb8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:07 +0000
Subject: [PATCH 164/170] fix: wcc: an inlined function that ends with if-else
 has its own return type

---
 src/wcc/gen_wasm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 2b5b54e..f732cfe 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -58,6 +58,8 @@ struct VReg {
   };
 };
 
+static const Type *cur_rettype;  // Return type of the function or inlined function.
+
 static void gen_stmt(Stmt *stmt, bool is_last);
 static void gen_stmts(Vector *stmts, bool is_last);
 
@@ -979,6 +981,8 @@ static void gen_inlined(Expr *expr, bool needval) {
   cur_depth = 1;
 
   const Type *rettype = expr->type;
+  const Type *bak_rettype = cur_rettype;
+  cur_rettype = rettype;
   unsigned char wt = get_func_ret_wtype(rettype);
   ADD_CODE(OP_BLOCK, wt); {
     gen_stmt(embedded, true);
@@ -993,6 +997,7 @@ static void gen_inlined(Expr *expr, bool needval) {
   if (wt != WT_VOID && !needval)
     ADD_CODE(OP_DROP);
 
+  cur_rettype = bak_rettype;
   cur_depth = bak_depth;
   finfo->flag = bak_flag;
   curscope = bak_curscope;
@@ -1430,7 +1435,7 @@ static void gen_if(Stmt *stmt, bool is_last) {
     // Value can be left only if both branches return.
     is_last = check_funcend_return(stmt);
     if (is_last)
-      wt = get_func_ret_wtype(curfunc->type->func.ret);
+      wt = get_func_ret_wtype(cur_rettype);
   }
 
   gen_cond(stmt->if_.cond, true, true);
@@ -1674,6 +1679,7 @@ static void gen_defun(Function *func) {
   uint32_t frame_size = allocate_local_variables(func, code);
 
   curfunc = func;
+  cur_rettype = func->type->func.ret;
   curcodeds = code;
 
   // Prologue
-- 
2.43.0


From 7b1aa204bd0576f531b20cd21af1417948224b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 165/170] fix: a quote at the end of a line is reported without
 reading beyond it

---
 src/cc/frontend/lexer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index f971dd6..4f65243 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -556,6 +556,8 @@ static Token *read_char(const char **pp) {
 
   if (*p == '\'')
     lex_error(p, "Empty character");
+  if (*p == '\0')
+    lex_error(p, "Character not closed");
 
   int c;
   p = read_utf8_char(p, is_wide, &c);
-- 
2.43.0


From 708cac72cc254c69879d7a628af9f3ee15da46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 166/170] fix: a function that returns an incomplete structure
 is reported

---
 src/cc/frontend/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 72c6044..d753bd3 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -834,6 +834,9 @@ static Declaration *parse_defun(Type *functype, int storage, Token *ident, const
                                 Table *attributes) {
   assert(functype->kind == TY_FUNC);
 
+  if (!ensure_struct(functype->func.ret, ident, curscope))
+    functype->func.ret = &tyInt;  // Deceive to continue compiling.
+
   const Vector *param_vars = functype->func.param_vars;
   if (functype->func.params == NULL) {  // Old-style
     // Treat it as a zero-parameter function.
-- 
2.43.0


From ddbf6e1ff3267d7fd02b7a7d8c9d5cb21a1e10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 167/170] fix: initializing an array of more than INT_MAX
 elements is reported

---
 src/cc/frontend/initializer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index db77808..8247fc4 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -2,6 +2,7 @@
 #include "initializer.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdbool.h>
 
 #include "fe_misc.h"
@@ -178,6 +179,8 @@ static Initializer *reserve_init_for_multi(Type *type, const Token *token) {
     }
     break;
   case TY_ARRAY:
+    if (type->pa.length > INT_MAX)
+      parse_error(PE_FATAL, token, "Array too large to be initialized");
     n = type->pa.length;
     if (n < 0) {
       // If n < 0 ([], FAM), then the array length is expanded according to initializer.
-- 
2.43.0


From 736b6b6eedd94fdfa2aa68cf0cc66bde7a36bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:51 +0000
Subject: [PATCH 168/170] fix: the size of a flexible array member is reported
 as unknown

---
 src/cc/frontend/parser_expr.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index df9af94..5d05435 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -729,11 +729,10 @@ static Expr *size_align_of(Token *token) {
 #endif
   switch (type->kind) {
   case TY_ARRAY:
-    if (type->pa.length == -1) {
+    if (type->pa.length < 0) {
       parse_error(PE_NOFATAL, tok, "size unknown");
-      type->pa.length = 1;  // Continue parsing.
+      return new_expr_fixlit(&tySize, token, 1);  // Continue parsing.
     }
-    assert(type->pa.length >= 0);
     break;
   case TY_AUTO:
     parse_error(PE_NOFATAL, tok, "size unknown");
-- 
2.43.0


From de5a81169ad65b8a982a06844c322f8512fa7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 169/170] fix: compiling goes on after a member that is a VLA
 of VLAs

---
 src/cc/frontend/parser_type.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 3cf1df7..734565d 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -114,8 +114,12 @@ static StructInfo *parse_struct(bool is_union) {
         if (type->pa.vla != NULL) {
           parse_error(PE_NOFATAL, ident, "VLA not allowed in struct/union");
           // To continue compile.
-          type->pa.vla = NULL;
-          type->pa.length = 1;
+          for (Type *t = type; t->kind == TY_ARRAY; t = t->pa.ptrof) {
+            if (t->pa.vla != NULL) {
+              t->pa.vla = NULL;
+              t->pa.length = 1;
+            }
+          }
         }
 #endif
         if (type->pa.length == LEN_UND) {
-- 
2.43.0


From 64435990fafdf837ccd1c4d465cfa4c8ffd450d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:08 +0000
Subject: [PATCH 170/170] fix: wcc: va_arg for a type of unknown size is
 reported

---
 src/wcc/gen_wasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index f732cfe..e0021a6 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -2059,6 +2059,11 @@ static Expr *proc_builtin_va_arg(const Token *ident) {
   if (type == NULL) {
     parse_error(PE_NOFATAL, ident, "type expected");
     type = &tyInt;
+  } else if (!ensure_struct(type, ident, curscope)) {
+    type = &tyInt;  // Deceive to continue compiling.
+  } else if (type->kind == TY_ARRAY && type->pa.length < 0) {
+    parse_error(PE_NOFATAL, ident, "size unknown");
+    type = &tyInt;
   }
 
   mark_var_used(ap);
-- 
2.43.0

