From 5d14a9733bcaf0631ecbf61da7112a868a9348d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:41 +0000
Subject: [PATCH 01/80] fix: shift operators take the type of the promoted left
 operand

---
 c.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index 203f0e5..6155c94 100644
--- a/c.c
+++ b/c.c
@@ -208,6 +208,14 @@ static ts_t ts_arith_common(ts_t ts1, ts_t ts2)
   return TS_INT;
 }
 
+/* operation type for binary op on ts1 and ts2; shifts have the type of the promoted left operand */
+static ts_t ts_binary_common(tt_t op, ts_t ts1, ts_t ts2)
+{
+  ts_t ts = ts_arith_common(ts1, ts2);
+  if ((op == TT_SHL || op == TT_SHR) && ts != TS_FLOAT && ts != TS_DOUBLE) return ts_integral_promote(ts1);
+  return ts;
+}
+
 /* ts2 can be promoted up to ts1 with implicit cast */
 static bool ts_arith_assign_compatible(ts_t ts1, ts_t ts2)
 {
@@ -380,7 +388,7 @@ static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
 /* binary operation between two numbers */
 static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const numval_t *pvy, numval_t *pvz)
 {
-  ts_t tz = ts_arith_common(tx, ty);
+  ts_t tz = ts_binary_common(op, tx, ty);
   numval_t vx = *pvx, vy = *pvy; 
   numval_convert(tz, tx, &vx); numval_convert(tz, ty, &vy);
   switch (tz) {
@@ -427,8 +435,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->u = integral_mask(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->u = integral_mask(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->u = integral_mask(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); break;
+        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); else tz = TS_VOID; break;
+        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
@@ -449,8 +457,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); break;
+        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); else tz = TS_VOID; break;
+        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
@@ -2936,7 +2944,7 @@ static node_t *compile_binary(node_t *prn, node_t *pan1, tt_t op, node_t *pan2)
     if (ts2 == TS_ENUM) ts2 = TS_INT;
   }
   if (ts_numerical(ts1) && ts_numerical(ts2)) {
-    ts_t rts = ts_arith_common(ts1, ts2); 
+    ts_t rts = ts_binary_common(op, ts1, ts2); 
     node_t rtn = mknd(), *prtn, *pcn = npnewcode(prn); ndsettype(&rtn, rts);
     if (rts != ts1) pan1 = compile_cast(prn, &rtn, pan1); /* fixme: constant fold oportunity */
     if (rts != ts2) pan2 = compile_cast(prn, &rtn, pan2); /* fixme: constant fold oportunity */
-- 
2.43.0


From 6fe764f192baface3ffc1ca6631e4983df7a8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 02/80] fix: common type of long and unsigned int is unsigned
 long when long is 32-bit

---
 c.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c.c b/c.c
index 6155c94..883bd8b 100644
--- a/c.c
+++ b/c.c
@@ -203,6 +203,8 @@ static ts_t ts_arith_common(ts_t ts1, ts_t ts2)
   if (ts1 == TS_ULLONG || ts2 == TS_ULLONG) return TS_ULLONG;
   if (ts1 == TS_LLONG  || ts2 == TS_LLONG)  return TS_LLONG;
   if (ts1 == TS_ULONG  || ts2 == TS_ULONG)  return TS_ULONG;
+  if (ts1 == TS_LONG && ts2 == TS_UINT || ts1 == TS_UINT && ts2 == TS_LONG) 
+    return TS_ULONG; /* wasm32: long can't represent all uint values */
   if (ts1 == TS_LONG   || ts2 == TS_LONG)   return TS_LONG;
   if (ts1 == TS_UINT   || ts2 == TS_UINT)   return TS_UINT;
   return TS_INT;
@@ -221,6 +223,7 @@ static bool ts_arith_assign_compatible(ts_t ts1, ts_t ts2)
 {
   assert(ts_numerical_or_enum(ts1) && ts_numerical_or_enum(ts2));
   if (ts1 == ts2) return true;
+  if (ts1 == TS_LONG && ts2 == TS_UINT) return true;
   return ts_arith_common(ts1, ts2) == ts1;
 }
 
-- 
2.43.0


From e11b235e341b9d1ef51b43d5d1bd522efb40d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 03/80] fix: casting float to bool compares the value with zero

---
 c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c.c b/c.c
index 883bd8b..41aacb9 100644
--- a/c.c
+++ b/c.c
@@ -2370,6 +2370,11 @@ static void asm_numerical_cast(ts_t tsto, ts_t tsfrom, icbuf_t *pdata)
           icbnewbk(pdata)->in = IN_F64_NE; /* i.e. x != 0.0 */
           return;
         } break;
+        case TS_FLOAT: { 
+          inscode_t *pic = icbnewbk(pdata); pic->in = IN_F32_CONST; pic->arg.f = 0.0f;
+          icbnewbk(pdata)->in = IN_F32_NE; /* i.e. x != 0.0f */
+          return;
+        } break;
         case TS_CHAR:  case TS_SHORT:  case TS_INT:  case TS_LONG:/* wasm32 */ 
         case TS_UCHAR: case TS_USHORT: case TS_UINT: case TS_ULONG:/* wasm32 */ {
           /* these are all ints, we need to compare to zero and negate */
-- 
2.43.0


From 4b9273de72ae53c62a936d76a46917d5ac09e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 04/80] fix: && and || convert their right operand to 0 or 1

---
 c.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/c.c b/c.c
index 41aacb9..cea7021 100644
--- a/c.c
+++ b/c.c
@@ -3057,6 +3057,21 @@ node_t *compile_booltest(node_t *prn, node_t *pan)
   return pan;
 }
 
+/* compile x to serve as a right operand of && or || (i.e. convert it to 0/1); pn is x's source */
+static node_t *compile_boolval(node_t *prn, const node_t *pn, node_t *pan)
+{
+  if (ts_numerical(acode_type(pan)->ts)) {
+    bool is01 = (pn->nt == NT_PREFIX && pn->op == TT_NOT) || 
+      (pn->nt == NT_INFIX && (pn->op == TT_AND_AND || pn->op == TT_OR_OR || (pn->op >= TT_LT && pn->op <= TT_NE)));
+    if (!is01) {
+      node_t tn = mknd(); ndsettype(&tn, TS_BOOL);
+      pan = compile_cast(prn, &tn, pan);
+      ndfini(&tn);
+    }
+  }
+  return pan;
+}
+
 /* compile x to serve as an integer selector */
 node_t *compile_intsel(node_t *prn, node_t *pan)
 {
@@ -3819,9 +3834,11 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
       node_t *pan2 = expr_compile(ndcref(pn, 1), prib, NULL);
       switch (pn->op) {
         case TT_AND_AND: {
+          pan2 = compile_boolval(pn, ndcref(pn, 1), pan2);
           pcn = compile_cond(pn, pan1, pan2, compile_numlit(pn, TS_INT, (v.i = 0, &v)));
         } break;
         case TT_OR_OR: {
+          pan2 = compile_boolval(pn, ndcref(pn, 1), pan2);
           pcn = compile_cond(pn, pan1, compile_numlit(pn, TS_INT, (v.i = 1, &v)), pan2);
         } break;
         default: { /* normal binary */
-- 
2.43.0


From 4242e8b49f7ab03ce1ea8661399abf5340ace5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 05/80] fix: 32-bit constants are emitted in the signed 32-bit
 range

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index cea7021..1f2c0f1 100644
--- a/c.c
+++ b/c.c
@@ -490,7 +490,7 @@ static void asm_numerical_const(ts_t ts, numval_t *pval, inscode_t *pic)
     case TS_SHORT: case TS_USHORT:
     case TS_INT:   case TS_UINT:   case TS_ENUM:
     case TS_LONG:  case TS_ULONG: /* wasm32 */
-      pic->in = IN_I32_CONST; pic->arg.u = pval->u;
+      pic->in = IN_I32_CONST; pic->arg.i = integral_sext(TS_INT, pval->i); /* i32 range */
       break;
     case TS_LLONG: case TS_ULLONG: 
       pic->in = IN_I64_CONST; pic->arg.u = pval->u;
-- 
2.43.0


From 49f5929ab3a5d72486767373053a65ffe349f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 06/80] fix: constant ?: tests the whole condition and has the
 common type of its branches

---
 c.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index 1f2c0f1..c5e0d83 100644
--- a/c.c
+++ b/c.c
@@ -948,11 +948,15 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       return ok;
     } break;
     case NT_COND: {
-      seval_t r; bool ok = false; int cond;
+      seval_t rc, r, ro; bool ok = false;
       assert(ndlen(pn) == 3);
-      if (arithmetic_eval_to_int(ndref(pn, 0), prib, &cond)) {
-        if (cond) ok = static_eval(ndref(pn, 1), prib, &r);
-        else ok = static_eval(ndref(pn, 2), prib, &r);
+      if (static_eval(ndref(pn, 0), prib, &rc) && ts_numerical(rc.ts)) {
+        numval_convert(TS_BOOL, rc.ts, &rc.val); /* no truncation to int! */
+        ok = static_eval(ndref(pn, rc.val.u ? 1 : 2), prib, &r);
+        if (ok && ts_numerical(r.ts) && static_eval(ndref(pn, rc.val.u ? 2 : 1), prib, &ro) && ts_numerical(ro.ts)) {
+          ts_t ts = ts_arith_common(r.ts, ro.ts); /* type does not depend on the condition */
+          numval_convert(ts, r.ts, &r.val); r.ts = ts;
+        }
         if (ok) *pr = r; /* can be num or ptr! */
       } 
       return ok;
-- 
2.43.0


From 541ec7cda7804400e6628b755ab5aabb6cef2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 07/80] fix: folding LLONG_MIN / -1 does not crash the compiler

---
 c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index c5e0d83..a61ef70 100644
--- a/c.c
+++ b/c.c
@@ -458,8 +458,10 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_AND:   pvz->i = integral_sext(tz, x & y); break;
         case TT_OR:    pvz->i = integral_sext(tz, x | y); break;
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
-        case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
-        case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
+        case TT_SLASH: if (y == -1) pvz->i = integral_sext(tz, (long long)(0 - (unsigned long long)x)); 
+                       else if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
+        case TT_REM:   if (y == -1) pvz->i = 0; /* avoid overflow trap */
+                       else if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
         case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); else tz = TS_VOID; break;
         case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
-- 
2.43.0


From 0c1ad7a0869c01a5869640b683377ec0f5053217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 08/80] fix: ?: with a non-constant branch is not a constant of
 the other branch's type

---
 c.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c.c b/c.c
index a61ef70..03939de 100644
--- a/c.c
+++ b/c.c
@@ -788,6 +788,8 @@ static sym_t intern_strlit(node_t *pn)
   return pn->name;
 }
 
+static bool arithmetic_constant_expr(node_t *pn);
+
 /* evaluate pn expression statically, putting result into pr */
 bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
 {
@@ -955,9 +957,12 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       if (static_eval(ndref(pn, 0), prib, &rc) && ts_numerical(rc.ts)) {
         numval_convert(TS_BOOL, rc.ts, &rc.val); /* no truncation to int! */
         ok = static_eval(ndref(pn, rc.val.u ? 1 : 2), prib, &r);
-        if (ok && ts_numerical(r.ts) && static_eval(ndref(pn, rc.val.u ? 2 : 1), prib, &ro) && ts_numerical(ro.ts)) {
-          ts_t ts = ts_arith_common(r.ts, ro.ts); /* type does not depend on the condition */
-          numval_convert(ts, r.ts, &r.val); r.ts = ts;
+        if (ok && ts_numerical(r.ts)) { /* type does not depend on the condition */
+          node_t *pon = ndref(pn, rc.val.u ? 2 : 1);
+          if (static_eval(pon, prib, &ro) && ts_numerical(ro.ts)) {
+            ts_t ts = ts_arith_common(r.ts, ro.ts); 
+            numval_convert(ts, r.ts, &r.val); r.ts = ts;
+          } else if (!arithmetic_constant_expr(pon)) ok = false; /* unknown type */
         }
         if (ok) *pr = r; /* can be num or ptr! */
       } 
-- 
2.43.0


From 19f6e21ee2fe3c9f3c2546090420310bb6cc4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 09/80] fix: switch over widely separated case values does not
 overflow

---
 c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 03939de..9d331fc 100644
--- a/c.c
+++ b/c.c
@@ -3510,7 +3510,7 @@ static node_t *compile_branch(node_t *prn, node_t *pan, sym_t lname)
 /* try to compile switch to a jump table (br_table) or return NULL if too sparse */
 static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t *pcv, size_t cc)
 {
-  size_t i, ti; sym_t dlname; int off, curidx, idx;
+  size_t i, ti; sym_t dlname; int off; long long curidx, idx; /* full range of differences */
   const node_t *pni, *psn, *pgn; node_t *pcn; size_t dfillc = 0;
   assert(cc >= 1); /* default goto, followed by 0 or more case gotos */
   if (cc < 3) return NULL; /* we need at least 2 cases */
@@ -3531,7 +3531,7 @@ static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t
     const node_t *pni = pcv+i; assert(pni->nt == NT_CASE && ndlen(pni) == 2);
     psn = ndcref(pni, 0); assert(psn->nt == NT_LITERAL && psn->ts == TS_INT);
     pgn = ndcref(pni, 1); assert(pgn->nt == NT_GOTO && pgn->name != 0);
-    idx = (int)psn->val.i - off; assert(idx >= 0);
+    idx = (long long)(int)psn->val.i - off; assert(idx >= 0);
     while (curidx < idx) { /* fill gap with defaults */
       acode_pushin_id(pcn, IN_BR, dlname); /* NB: not an actual instruction! */
       ++curidx; ++dfillc;
-- 
2.43.0


From d39c736702ea891989f8fdc99c22547cd120305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 10/80] fix: union initialisers with an element for the first
 member are accepted

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 9d331fc..17a27f4 100644
--- a/c.c
+++ b/c.c
@@ -1188,7 +1188,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
         } else {
           neprintf(pdn, "initializer is too short");
         }
-        if (ptn->ts == TS_UNION) break; /* first member only! */
+        if (ptn->ts == TS_UNION) { ++j; break; } /* first member only! */
       }
       if (j != ndlen(pdn)) 
         neprintf(pdn, "initializer is too long");
-- 
2.43.0


From 5783022f90e2f7edca301acd4df315a036632d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 11/80] fix: address initialisers may refer to data placed
 later

---
 w.c | 66 ++++++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/w.c b/w.c
index 1234fc5..ec78149 100644
--- a/w.c
+++ b/w.c
@@ -4011,32 +4011,6 @@ size_t watify_wat_module(wat_module_t* pm)
         align = pd->align, n = addr % align;
         if (n > 0) addr += align - n;
         if (n > 0) bufresize(&dseg, buflen(&dseg) + (align-n));
-        if (icblen(&pd->code) > 0) { /* patch pd->data */
-          size_t i; cbuf_t cb = mkcb(); bool gotarg = false;
-          for (i = 0; i < icblen(&pd->code); ++i) {
-            modid_t mi; dpme_t *pdpme; size_t off; 
-            inscode_t *pic = icbref(&pd->code, i);
-            if (!gotarg && pic->in == IN_REF_DATA) {
-              unsigned address;
-              mi.mod = pic->arg2.mod; mi.id = pic->id;
-              pdpme = bufsearch(&dpmap, &mi, &modid_cmp); /* linear, still adding to it */
-              if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
-                mi.mod ? symname(mi.mod) : "?", mi.id ? symname(mi.id) : "?");
-              address = (unsigned)((long long)pdpme->address + pic->arg.i);
-              bufclear(&cb); binuint(address, &cb); /* wasm32 */
-              gotarg = true;
-            } else if (gotarg && pic->in == IN_DATA_PUT_REF) {
-              off = (size_t)pic->arg.u; assert(pic->id == 0);
-              if (off % 4 != 0 || off + 4 > cblen(&pd->data)) /* wasm32 */
-                eprintf("internal error: cannot patch data: bad offset %lu", (unsigned long)off);
-              memcpy(cbdata(&pd->data) + off, cbdata(&cb), 4); /* wasm32 */
-              gotarg = false;
-            } else {
-              eprintf("internal error in data patch");
-            }
-          }
-          cbfini(&cb);
-        }
         cbcat(&dseg, &pd->data);
         curaddr = addr + buflen(&pd->data);
       }
@@ -4044,7 +4018,8 @@ size_t watify_wat_module(wat_module_t* pm)
       pme->mod = pd->mod; pme->id = pd->id;
       pme->address = addr;
       vverbosef("  addr = %u\n", (unsigned)addr);
-      watiefini(pd); bufrem(&pm->exports, i);
+      if (icblen(&pd->code) > 0) ++i; /* to be patched below, when all addresses are known */
+      else { watiefini(pd); bufrem(&pm->exports, i); }
     } else {
       ++i;
     }
@@ -4053,6 +4028,43 @@ size_t watify_wat_module(wat_module_t* pm)
   /* prepare dpmap for binary search */
   bufqsort(&dpmap, &modid_cmp);
   
+  /* patch addresses inside the data chunk */
+  for (i = 0; i < watieblen(&pm->exports); /* del or bumpi */) {
+    watie_t *pd = watiebref(&pm->exports, i);
+    if (pd->iek == IEK_DATA) {
+      size_t j, base; cbuf_t cb = mkcb(); bool gotarg = false;
+      modid_t mi; dpme_t *pdpme;
+      mi.mod = pd->mod; mi.id = pd->id;
+      pdpme = bufbsearch(&dpmap, &mi, &modid_cmp); assert(pdpme);
+      base = pdpme->address - g_sdbaddr; 
+      for (j = 0; j < icblen(&pd->code); ++j) {
+        inscode_t *pic = icbref(&pd->code, j);
+        if (!gotarg && pic->in == IN_REF_DATA) {
+          unsigned address;
+          mi.mod = pic->arg2.mod; mi.id = pic->id;
+          pdpme = bufbsearch(&dpmap, &mi, &modid_cmp);
+          if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
+            mi.mod ? symname(mi.mod) : "?", mi.id ? symname(mi.id) : "?");
+          address = (unsigned)((long long)pdpme->address + pic->arg.i);
+          bufclear(&cb); binuint(address, &cb); /* wasm32 */
+          gotarg = true;
+        } else if (gotarg && pic->in == IN_DATA_PUT_REF) {
+          size_t off = (size_t)pic->arg.u; assert(pic->id == 0);
+          if (off % 4 != 0 || off + 4 > cblen(&pd->data)) /* wasm32 */
+            eprintf("internal error: cannot patch data: bad offset %lu", (unsigned long)off);
+          memcpy(cbdata(&dseg) + base + off, cbdata(&cb), 4); /* wasm32 */
+          gotarg = false;
+        } else {
+          eprintf("internal error in data patch");
+        }
+      }
+      cbfini(&cb);
+      watiefini(pd); bufrem(&pm->exports, i);
+    } else {
+      ++i;
+    }
+  }
+  
   /* patch IN_REF_{DATA,FUNC}s, memory export, zero globals */
   for (i = 0; i < watieblen(&pm->exports); ++i) {
     watie_t *pe = watiebref(&pm->exports, i);
-- 
2.43.0


From 30040048744fc021936c73fdcbabffeb4a2846c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 12/80] fix: sizeof of elements reached through pointer
 arithmetic is not the promoted size

---
 c.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 17a27f4..d72d1cb 100644
--- a/c.c
+++ b/c.c
@@ -610,13 +610,28 @@ static const node_t *type_eval(node_t *pn, buf_t *prib)
       }
     } break;
     case NT_PREFIX: {
-      if (pn->op == TT_STAR && ndlen(pn) == 1) {
+      if (pn->op == TT_AND && ndlen(pn) == 1) {
+        const node_t *ptn = type_eval(ndref(pn, 0), prib);
+        if (ptn) return wrap_type_pointer(ndcpy(npalloc(), ptn));
+      } else if (pn->op == TT_STAR && ndlen(pn) == 1) {
         const node_t *ptn = type_eval(ndref(pn, 0), prib);
         if (ptn && ptn->ts == TS_PTR && ndlen(ptn) == 1) {
           if (ndlen(ptn) == 1) return ndcref(ptn, 0); 
         }
       }
     } break;
+    case NT_INFIX: { /* pointer/array plus or minus an offset */
+      if ((pn->op == TT_PLUS || pn->op == TT_MINUS) && ndlen(pn) == 2) {
+        const node_t *pt1 = type_eval(ndref(pn, 0), prib), *pt2 = type_eval(ndref(pn, 1), prib), *ptn = pt1;
+        if (pt2 && (pt2->ts == TS_ARRAY || pt2->ts == TS_PTR)) {
+          if (pn->op == TT_MINUS || (pt1 && (pt1->ts == TS_ARRAY || pt1->ts == TS_PTR))) break;
+          ptn = pt2;
+        }
+        if (ptn && ptn->ts == TS_PTR) return ptn;
+        if (ptn && ptn->ts == TS_ARRAY && ndlen(ptn) > 0)
+          return wrap_type_pointer(ndcpy(npalloc(), ndcref(ptn, 0)));
+      }
+    } break;
     default:
       break;
   }
-- 
2.43.0


From fb860cb2de548ba25d613b2c623aa3a5c0af322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 13/80] fix: sizeof a string literal counts its characters

---
 c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c.c b/c.c
index d72d1cb..51e0264 100644
--- a/c.c
+++ b/c.c
@@ -842,6 +842,8 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
         else ptn = type_eval(ndref(pn, 0), prib);
         if (!ptn) return false; /* can't get type */
         measure_type(ptn, pn, &size, &align, 0);
+        if (ndref(pn, 0)->nt == NT_LITERAL && (ndref(pn, 0)->ts == TS_STRING || ndref(pn, 0)->ts == TS_LSTRING))
+          size = buflen(&ndref(pn, 0)->data); /* string literal is an array; its data ends in zero character */
         pr->ts = TS_INT; 
         if (pn->intr == INTR_SIZEOF) pr->val.i = (int)size;
         else pr->val.i = (int)align;
-- 
2.43.0


From 09d8784389d07ad863891e84942cd3f2c2a4e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 14/80] fix: static_assert tests the whole value of its
 expression

---
 c.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 51e0264..172044d 100644
--- a/c.c
+++ b/c.c
@@ -1017,6 +1017,18 @@ bool arithmetic_eval_to_int(node_t *pn, buf_t *prib, int *pri)
   return ok;
 }
 
+/* same, for values compared with zero: no truncation to int */
+static bool arithmetic_eval_to_bool(node_t *pn, buf_t *prib, int *pri)
+{
+  seval_t r; bool ok = false;
+  if (static_eval(pn, prib, &r) && ts_numerical(r.ts)) {
+    numval_convert(TS_BOOL, r.ts, &r.val);
+    *pri = (int)r.val.u;
+    ok = true;
+  }
+  return ok;
+}
+
 /* calculate effective ts for v128's boolean */
 static ts_t v128_int_ts_for_bool(int cnt)
 {
@@ -1051,7 +1063,7 @@ static void check_static_assert(node_t *pn, buf_t *prib)
     pen = ndref(pn, 0), psn = ndlen(pn) == 2 ? ndref(pn, 1) : NULL;
     if (psn && (psn->nt != NT_LITERAL || psn->ts != TS_STRING))
       neprintf(pn, "unexpected 2nd arg of static_assert (string literal expected)");
-    if (!arithmetic_eval_to_int(pen, prib, &res))
+    if (!arithmetic_eval_to_bool(pen, prib, &res))
       n2eprintf(pen, pn, "unexpected lhs of static_assert comparison (static test expected)");
     if (res == 0) {
       if (!psn) neprintf(pn, "static_assert failed");
-- 
2.43.0


From c13c06f5cc64af8a5f288a813020fb0436af115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 15/80] fix: array sizes that do not fit into int are rejected,
 not truncated

---
 c.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 172044d..5f6b6cf 100644
--- a/c.c
+++ b/c.c
@@ -638,6 +638,8 @@ static const node_t *type_eval(node_t *pn, buf_t *prib)
   return NULL;
 }
 
+static bool arithmetic_eval_to_count(node_t *pn, buf_t *prib, int *pri);
+
 /* calc size/align for ptn; prn is NULL or reference node for errors */
 void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign, int lvl)
 {
@@ -720,7 +722,7 @@ void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign,
         const node_t *petn = ndcref(ptn, 0), *pcn = ndcref(ptn, 1); 
         int count = 0;
         /* fixme: eval may need to see local vars, so prib is needed */
-        if (!arithmetic_eval_to_int((node_t*)pcn, NULL, &count) || count <= 0)
+        if (!arithmetic_eval_to_count((node_t*)pcn, NULL, &count) || count <= 0)
           n2eprintf(pcn, prn, "can't allocate/measure data for arrays of nonconstant/nonpositive size");
         measure_type(petn, prn, psize, palign, lvl+1);
         *psize *= count;
@@ -1017,6 +1019,17 @@ bool arithmetic_eval_to_int(node_t *pn, buf_t *prib, int *pri)
   return ok;
 }
 
+/* same, for array sizes: integers that don't fit into int fail */
+static bool arithmetic_eval_to_count(node_t *pn, buf_t *prib, int *pri)
+{
+  seval_t r;
+  if (!static_eval(pn, prib, &r) || !ts_numerical(r.ts)) return false;
+  if (ts_unsigned(r.ts) ? r.val.u > INT_MAX : (r.ts != TS_FLOAT && r.ts != TS_DOUBLE && r.val.i != (int)r.val.i)) return false;
+  numval_convert(TS_INT, r.ts, &r.val);
+  *pri = (int)r.val.i;
+  return true;
+}
+
 /* same, for values compared with zero: no truncation to int */
 static bool arithmetic_eval_to_bool(node_t *pn, buf_t *prib, int *pri)
 {
@@ -1112,7 +1125,7 @@ static node_t *vardef_check_type(node_t *ptn)
         neprintf(ptn, "not supported: flexible array as global variable type");
       } else if (pcn->nt != NT_LITERAL || pcn->ts != TS_INT) {
         int count = 0;
-        if (!arithmetic_eval_to_int(pcn, NULL, &count) || count <= 0)
+        if (!arithmetic_eval_to_count(pcn, NULL, &count) || count <= 0)
           n2eprintf(pcn, ptn, "array size should be positive constant");
         ndset(pcn, NT_LITERAL, pcn->pwsid, pcn->startpos);
         pcn->ts = TS_INT; pcn->val.i = count;
-- 
2.43.0


From 8820bb94b19492cb4017ebeccdae2967a0393178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 16/80] fix: overflowing escapes in string literals are
 diagnosed

---
 p.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/p.c b/p.c
index a586a92..7aaa84e 100644
--- a/p.c
+++ b/p.c
@@ -2583,24 +2583,27 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
     case TT_STRING: {
       char *ns = pw->tokstr; unsigned long ul; bool raw;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      while (*ns && (errno = 0, ul = strtou8cc32(ns, &ns, &raw), !errno && ul <= 0x10FFFFUL)) {
-        if (raw) { assert(ul <= 0xFFL); cbputc(ul, &pn->data); }
+      while (*ns) {
+        errno = 0, ul = strtou8cc32(ns, &ns, &raw);
+        if (errno || ul > (raw ? 0xFFUL : 0x10FFFFUL))
+          reprintf(pw, startpos+(int)(ns-pw->tokstr), "string literal char overflow");
+        if (raw) cbputc(ul, &pn->data);
         else cbputlc(ul, &pn->data); /* in utf-8 */
       }
       cbputc(0, &pn->data); /* terminating zero char, C-style */
-      if (*ns) 
-        reprintf(pw, startpos+(int)(ns-pw->tokstr), "string literal char overflow");
       pn->ts = TS_STRING;
       dropt(pw);
     } break;
     case TT_LSTRING: {
       char *ns = pw->tokstr; unsigned long ul;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      while (*ns && (errno = 0, ul = strtou8cc32(ns, &ns, NULL), !errno && ul <= 0x10FFFFUL)) {
+      while (*ns) {
+        errno = 0, ul = strtou8cc32(ns, &ns, NULL);
+        if (errno || ul > 0x10FFFFUL)
+          reprintf(pw, startpos+(int)(ns-pw->tokstr), "long string literal char overflow");
         cbput4le((unsigned)ul, &pn->data); /* 4 bytes, in LE order */
       }
       cbput4le(0, &pn->data); /* terminating zero wchar, C-style */
-      if (*ns) reprintf(pw, startpos+(int)(ns-pw->tokstr), "long string literal char overflow");
       pn->ts = TS_LSTRING;
       dropt(pw);
     } break;
-- 
2.43.0


From d128a7c9215feb7fb098bb40489a241c5137689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 17/80] fix: address-taken narrow parameters keep their type

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 5f6b6cf..981ae61 100644
--- a/c.c
+++ b/c.c
@@ -2202,7 +2202,8 @@ static void fundef_wasmify(node_t *pdn)
             psn = ndinsbk(pni, NT_IDENTIFIER); psn->name = name;
             psn = ndinsbk(pni, NT_IDENTIFIER); psn->name = hname;
             pni = ndinsfr(pbn, NT_VARDECL); pni->sc = SC_AUTO;
-            pni->name = name; ndcpy(ndnewbk(pni), ptni);
+            pni->name = name; pni = ndnewbk(pni); ndcpy(pni, ptni);
+            if (cast != TS_VOID) pni->ts = cast; /* keep narrow type */
             pdni->name = pvi->name = pvi->reg = hname;
             pdni->sc = SC_NONE;
           } else {
-- 
2.43.0


From bafce36b980cf41e36fd46fd01ce74be3730cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 18/80] fix: v128 values can be stored in memory, globals and
 variable arguments

---
 c.c | 10 ++++++++--
 p.c |  2 +-
 w.c |  3 ++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index 981ae61..d205d51 100644
--- a/c.c
+++ b/c.c
@@ -2555,6 +2555,11 @@ static inscode_t *asm_load(ts_t tsto, ts_t tsfrom, unsigned off, icbuf_t *pdata)
         case TS_DOUBLE: in = IN_F64_LOAD; align = 3; break;
         default:;
       } break;
+    case TS_V128:
+      switch (tsfrom) {
+        case TS_V128:   in = IN_V128_LOAD; align = 4; break;
+        default:;
+      } break;
     default: assert(false);
   }
   assert(in);
@@ -2574,6 +2579,7 @@ static void asm_instr_load_to_store(const inscode_t *plic, inscode_t *psic)
     case IN_I64_LOAD: in = IN_I64_STORE; break;
     case IN_F32_LOAD: in = IN_F32_STORE; break;
     case IN_F64_LOAD: in = IN_F64_STORE; break;
+    case IN_V128_LOAD: in = IN_V128_STORE; break;
     case IN_I32_LOAD8_S:  case IN_I32_LOAD8_U:  in = IN_I32_STORE8; break;
     case IN_I32_LOAD16_S: case IN_I32_LOAD16_U: in = IN_I32_STORE16; break;
     case IN_I64_LOAD8_S:  case IN_I64_LOAD8_U:  in = IN_I64_STORE8; break;
@@ -2868,7 +2874,7 @@ static int acode_rval_load(node_t *pan)
 {
   if (pan->nt == NT_ACODE && icblen(&pan->data) >= 1) {
     instr_t in = icbref(&pan->data, icblen(&pan->data)-1)->in;
-    return (in >= IN_I32_LOAD && in <= IN_I64_LOAD32_U) ? in : 0;
+    return ((in >= IN_I32_LOAD && in <= IN_I64_LOAD32_U) || in == IN_V128_LOAD) ? in : 0;
   } 
   return 0;
 }
@@ -3315,7 +3321,7 @@ static node_t *compile_asncombo(node_t *prn, node_t *pan, node_t *pctn, tt_t op,
     }
     return pan;    
   } else if (acode_rval_load(pan)) {
-    /* pan code ends in one of IN_I32_LOAD..IN_I64_LOAD32_U instructions */
+    /* pan code ends in IN_V128_LOAD or one of IN_I32_LOAD..IN_I64_LOAD32_U instructions */
     sym_t pname = rpalloc(VT_I32); /* function-unique register name (wasm32) */
     node_t *ptn, *pdn;
     asm_popbk(&pan->data, &lic); /* now pointer is on stack, save it as p$ */
diff --git a/p.c b/p.c
index 7aaa84e..0356595 100644
--- a/p.c
+++ b/p.c
@@ -2702,7 +2702,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
           parse_base_type(pw, ptn);
           if (parse_declarator(pw, ptn)) 
             reprintf(pw, startpos, "unexpected identifier in abstract type specifier");
-          if (ptn->ts != TS_PTR && ptn->ts != TS_ENUM && !(TS_INT <= ptn->ts && ptn->ts <= TS_DOUBLE))
+          if (ptn->ts != TS_PTR && ptn->ts != TS_ENUM && ptn->ts != TS_V128 && !(TS_INT <= ptn->ts && ptn->ts <= TS_DOUBLE))
             reprintf(pw, startpos, "unsuported vararg type");
           expect(pw, TT_RPAR, ")"); 
         } break;
diff --git a/w.c b/w.c
index ec78149..43f9d1c 100644
--- a/w.c
+++ b/w.c
@@ -4097,6 +4097,7 @@ size_t watify_wat_module(wat_module_t* pm)
           case VT_F32: pe->ic.in = IN_F32_CONST; break;
           case VT_I64: pe->ic.in = IN_I64_CONST; break;
           case VT_I32: pe->ic.in = IN_I32_CONST; break;
+          case VT_V128: pe->ic.in = IN_V128_CONST; pe->ic.arg2.u = 0; break;
           default:;
         }
       } else if (pe->ic.in == IN_REF_DATA) {
@@ -4476,7 +4477,7 @@ static void wat_to_wasm_ie(bool import, watiebuf_t *pieb, wasm_module_t *pbm)
         if (import) pe->imported = true;
         else pe->exported = pie->exported;
         pe->vt = pie->vt; pe->mut = pie->mut;
-        assert(IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST);
+        assert((IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST) || pie->ic.in == IN_V128_CONST);
         pdc = icbnewbk(&pe->code); *pdc = pie->ic; pdc->id = 0;
         icbnewbk(&pe->code)->in = IN_END; 
       } break;
-- 
2.43.0


From c47a7b9044935266e2e308b3dfe6c8b0cb5ec8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 19/80] fix: v128.load32_zero and load64_zero take an address
 and no lane

---
 lib/include/wasm_simd128.h | 4 ++--
 w.c                        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/wasm_simd128.h b/lib/include/wasm_simd128.h
index e6a7e4f..2bb48b6 100644
--- a/lib/include/wasm_simd128.h
+++ b/lib/include/wasm_simd128.h
@@ -39,10 +39,10 @@
 #define wasm_u64x2_load32x2(p) ((v128_t(*)(const void*))asm(v128.load32x2_u offset=0 align=4)(p))
 
 /* v128_t wasm_v128_load32_zero(const void *p); -- loads lane 0 only? */
-#define wasm_v128_load32_zero(p) ((v128_t(*)(int32_t))asm(v128.load32_zero offset=0 align=4 0)(p))
+#define wasm_v128_load32_zero(p) ((v128_t(*)(const void*))asm(v128.load32_zero offset=0 align=4)(p))
 
 /* v128_t wasm_v128_load64_zero(const void *p); -- loads lane 0 only? */
-#define wasm_v128_load64_zero(p) ((v128_t(*)(int32_t))asm(v128.load64_zero offset=0 align=8 0)(p))
+#define wasm_v128_load64_zero(p) ((v128_t(*)(const void*))asm(v128.load64_zero offset=0 align=8)(p))
 
 /* v128_t wasm_v128_load8_lane(const void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
 #define wasm_v128_load8_lane(p, v, i) ((v128_t(*)(const void*, v128_t))asm(v128.load8_lane offset=0 align=1 i)(p, v))
diff --git a/w.c b/w.c
index 43f9d1c..5d8c801 100644
--- a/w.c
+++ b/w.c
@@ -1695,6 +1695,7 @@ insig_t instr_sig(instr_t in)
     case IN_V128_LOAD32X2_S:      case IN_V128_LOAD32X2_U:
     case IN_V128_LOAD8_SPLAT:     case IN_V128_LOAD16_SPLAT:
     case IN_V128_LOAD32_SPLAT:    case IN_V128_LOAD64_SPLAT:
+    case IN_V128_LOAD32_ZERO:     case IN_V128_LOAD64_ZERO:
     case IN_V128_STORE:      
       return INSIG_MEMARG;
     case IN_I8X16_SHUFFLE:       
@@ -1712,7 +1713,6 @@ insig_t instr_sig(instr_t in)
     case IN_V128_LOAD32_LANE:     case IN_V128_LOAD64_LANE:
     case IN_V128_STORE8_LANE:     case IN_V128_STORE16_LANE:
     case IN_V128_STORE32_LANE:    case IN_V128_STORE64_LANE:
-    case IN_V128_LOAD32_ZERO:     case IN_V128_LOAD64_ZERO:
       return INSIG_MEMARG_LANEIDX;
     /* internal use */
     case IN_REF_DATA:
-- 
2.43.0


From cccd745f40b572f17b194c06317164c4bf68fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 20/80] fix: i8x16.shuffle lanes 16 to 31 select from the
 second operand

---
 lib/include/wasm_simd128.h | 19 ++++++++++++-------
 p.c                        | 17 ++++++++++-------
 w.c                        | 19 +++++++++++--------
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/lib/include/wasm_simd128.h b/lib/include/wasm_simd128.h
index 2bb48b6..a13f3af 100644
--- a/lib/include/wasm_simd128.h
+++ b/lib/include/wasm_simd128.h
@@ -779,13 +779,19 @@
 /* v128_t wasm_f64x2_promote_low_f32x4(v128_t a); */
 #define wasm_f64x2_promote_low_f32x4(a) ((v128_t(*)(v128_t))asm(f64x2.promote_low_f32x4)(a))
 
-/* kluge: __wasm_i8x16_shuffle defined below */
+/* lane indices 0..15 select from a, 16..31 from b; out of range indices swizzle to 0 */
 #define _wasm_i8x16_shuffle(a, b, c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15) \
-  (__wasm_i8x16_shuffle(a, b,
-    (((c0  & 0xfULL) << 60) | ((c1 &  0xfULL) << 56) | ((c2  & 0xfULL) << 52) | ((c3  & 0xfULL) << 48) | \
-     ((c4  & 0xfULL) << 44) | ((c5 &  0xfULL) << 40) | ((c6  & 0xfULL) << 36) | ((c7  & 0xfULL) << 32) | \
-     ((c8  & 0xfULL) << 28) | ((c9 &  0xfULL) << 24) | ((c10 & 0xfULL) << 20) | ((c11 & 0xfULL) << 16) | \
-     ((c12 & 0xfULL) << 12) | ((c13 & 0xfULL) <<  8) | ((c14 & 0xfULL) <<  4) | ((c15 & 0xfULL)))))
+  (wasm_v128_or( \
+    wasm_i8x16_swizzle(a, wasm_u8x16_const( \
+      (c0) & 31, (c1) & 31, (c2) & 31, (c3) & 31, \
+      (c4) & 31, (c5) & 31, (c6) & 31, (c7) & 31, \
+      (c8) & 31, (c9) & 31, (c10) & 31, (c11) & 31, \
+      (c12) & 31, (c13) & 31, (c14) & 31, (c15) & 31)), \
+    wasm_i8x16_swizzle(b, wasm_u8x16_const( \
+      ((c0) & 31) ^ 16, ((c1) & 31) ^ 16, ((c2) & 31) ^ 16, ((c3) & 31) ^ 16, \
+      ((c4) & 31) ^ 16, ((c5) & 31) ^ 16, ((c6) & 31) ^ 16, ((c7) & 31) ^ 16, \
+      ((c8) & 31) ^ 16, ((c9) & 31) ^ 16, ((c10) & 31) ^ 16, ((c11) & 31) ^ 16, \
+      ((c12) & 31) ^ 16, ((c13) & 31) ^ 16, ((c14) & 31) ^ 16, ((c15) & 31) ^ 16))))
 
 /* v128_t wasm_i8x16_shuffle(v128_t a, v128_t b, uint8_t c0, ..., uint8_t c15); __REQUIRE_CONSTANT(c0, ..., c15); */
 #define wasm_i8x16_shuffle(a, b, c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15) \
@@ -812,7 +818,6 @@
     (c1)*8, (c1)*8 + 1, (c1)*8 + 2, (c1)*8 + 3, (c1)*8 + 4, \
     (c1)*8 + 5, (c1)*8 + 6, (c1)*8 + 7))
 
-#define __wasm_i8x16_shuffle(a, b, s) ((v128_t(*)(v128_t, v128_t))asm(i8x16.shuffle s)(a, b))
 
 
 /* v128_t wasm_i8x16_swizzle(v128_t a, v128_t b); */
diff --git a/p.c b/p.c
index 0356595..4b3df97 100644
--- a/p.c
+++ b/p.c
@@ -3075,7 +3075,7 @@ static void parse_asm_instr(pws_t *pw, node_t *pan)
       } break;
       case INSIG_LANEIDX:
         if (peekt(pw) == TT_IDENTIFIER) pic->id = getid(pw);
-        else pic->arg.u = parse_asm_unsigned(pw, 16);
+        else pic->arg.u = parse_asm_unsigned(pw, 15);
         break;
       case INSIG_MEMARG_LANEIDX: {
         unsigned a = 0;
@@ -3097,18 +3097,21 @@ static void parse_asm_instr(pws_t *pw, node_t *pan)
           pic->arg2.ux2[1] = a;
         } else pic->arg2.ux2[1] = 0;
         if (peekt(pw) == TT_IDENTIFIER) pic->id = getid(pw);
-        else pic->arg.u = parse_asm_unsigned(pw, 16);
+        else pic->arg.u = parse_asm_unsigned(pw, 15);
       } break;
       case INSIG_LANEIDX16: {
-        size_t i; unsigned long long lidxv = 0;
+        size_t i; unsigned long long lidxv = 0, hibits = 0;
         if (peekt(pw) == TT_IDENTIFIER) { 
           pic->id = getid(pw); /* packed */
         } else for (i = 0; i < 16; ++i) {
-          unsigned long long lidx = parse_asm_unsigned(pw, i == 0 ? UINT32_MAX : 16);
-          lidxv = (lidxv << 4) | lidx;
-          if (peekt(pw) == TT_COMMA || peekt(pw) == TT_RPAR) break;
+          unsigned long long lidx = parse_asm_unsigned(pw, i == 0 ? UINT32_MAX : 31);
+          tt_t tt = peekt(pw);
+          if (i == 0 && (tt == TT_COMMA || tt == TT_RPAR)) { lidxv = lidx; break; } /* packed */
+          lidxv = (lidxv << 4) | (lidx & 0xFULL);
+          hibits = (hibits << 1) | (lidx >> 4);
+          if (tt == TT_COMMA || tt == TT_RPAR) break;
         }
-        pic->arg.u = lidxv;
+        pic->arg.u = lidxv; pic->arg2.u = hibits;
       } break;
       case INSIG_LS_L: case INSIG_PR:
         /* fixme? */
diff --git a/w.c b/w.c
index 5d8c801..5e72865 100644
--- a/w.c
+++ b/w.c
@@ -400,9 +400,10 @@ static void wasm_expr(icbuf_t *pcb)
         wasm_byte((unsigned)pic->arg.u);
         break;
       case INSIG_LANEIDX16: {
-        int i; unsigned long long lidxv;
+        int i; unsigned long long lidxv; /* high bits of lanes are in arg2 */
         for (lidxv = pic->arg.u, i = 16-1; i >= 0; --i) {
           unsigned off = i*4, lidx = (unsigned)((lidxv >> off) & 0xFULL);
+          if ((pic->arg2.u >> i) & 1) lidx += 16;
           wasm_byte(lidx);
         }
       } break;
@@ -1825,6 +1826,7 @@ char *format_inscode(inscode_t *pic, cbuf_t *pcb)
       if (pic->id) cbputf(pcb, " $%s", symname(pic->id)); 
       else for (lidxv = pic->arg.u, i = 16-1; i >= 0; --i) {
         unsigned off = i*4, lidx = (unsigned)((lidxv >> off) & 0xFULL);
+        if ((pic->arg2.u >> i) & 1) lidx += 16;
         cbputf(pcb, " %u", lidx); 
       } 
     } break;      
@@ -3316,10 +3318,10 @@ static unsigned parse_align(sws_t *pw)
   return 0; /* won't happen */
 }
 
-static unsigned parse_laneidx(sws_t *pw)
+static unsigned parse_laneidx(sws_t *pw, unsigned max)
 {
   unsigned ui = parse_uint(pw);
-  if (ui > 16) seprintf(pw, "lineidx arg is out of range: %u", ui);
+  if (ui > max) seprintf(pw, "lineidx arg is out of range: %u", ui);
   return ui;
 }
 
@@ -3406,7 +3408,7 @@ static void parse_ins(sws_t *pw, inscode_t *pic, icbuf_t *pexb)
         pic->arg2.u = a;
       } break;
       case INSIG_LANEIDX: {
-        pic->arg.u = parse_laneidx(pw);
+        pic->arg.u = parse_laneidx(pw, 15);
       } break;
       case INSIG_MEMARG_LANEIDX: {
         unsigned offset = parse_offset(pw), align = parse_align(pw);
@@ -3421,15 +3423,16 @@ static void parse_ins(sws_t *pw, inscode_t *pic, icbuf_t *pexb)
           default: assert(false);
         }
         pic->arg2.ux2[1] = a;
-        pic->arg.u = parse_laneidx(pw);
+        pic->arg.u = parse_laneidx(pw, 15);
       } break;
       case INSIG_LANEIDX16: {
-        size_t i; unsigned long long lidxv = 0ULL;
+        size_t i; unsigned long long lidxv = 0ULL, hibits = 0ULL;
         for (i = 0; i < 16; ++i) {
-          unsigned long long lidx = parse_laneidx(pw);
+          unsigned long long lidx = parse_laneidx(pw, 31);
           lidxv = (lidxv << 4) | (lidx & 0xFULL);
+          hibits = (hibits << 1) | (lidx >> 4);
         }
-        pic->arg.u = lidxv;
+        pic->arg.u = lidxv; pic->arg2.u = hibits;
       } break;
       case INSIG_RF: { /* ref.func */
         sym_t mod, id; parse_mod_id(pw, &mod, &id);
-- 
2.43.0


From cda4c792b2d9d01e250fd986e0daf5f689fcdf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 21/80] fix: ill-typed initialisers, void variables,
 dereferences and returns are diagnosed

---
 c.c | 11 +++++------
 w.c |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/c.c b/c.c
index d205d51..bca9574 100644
--- a/c.c
+++ b/c.c
@@ -1316,7 +1316,6 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
       }
     }
   } else {
-    assert(false);
     neprintf(pdn, "valid initializer expected");
   }
   return pd;
@@ -1371,6 +1370,7 @@ static void process_vardecl(sym_t mmod, node_t *pdn, node_t *pin)
         if (fold_simd_display(pvn, NULL)) {
           assert(pvn->nt == NT_LITERAL && pvn->ts == TS_V128);
           assert(cblen(&pvn->data) == 16);
+          if (ptn->ts != TS_V128) neprintf(pin, "unexpected initializer for a non-vector type");
           asm_simd128_const((ts_t)pvn->val.i, &pvn->data, &pg->ic);
         } else if (!static_eval(pvn, NULL, &r)) {
           neprintf(pin, "non-constant initializer");
@@ -2261,10 +2261,8 @@ static void fundef_wasmify(node_t *pdn)
         pvi->reg = intern("fp$"); pvi->fld = name;
         ndrem(pbn, i); 
       } break;
-      default: {
-        assert(false);
-        ++i;
-      } break;
+      default:
+        neprintf(pdni, "local variables of type %s are not supported", ts_name(ptni->ts));
     }
   }
   
@@ -3199,6 +3197,7 @@ static node_t *compile_ataddr(node_t *prn, node_t *pan)
   node_t *patn = acode_type(pan), *petn = NULL;
   if (patn->ts == TS_PTR) petn = ndref(patn, 0);
   else neprintf(prn, "cannot dereference non-pointer expression");  
+  if (petn->ts == TS_VOID) neprintf(prn, "cannot dereference pointer to void");
   if (ts_bulk(petn->ts)) {
     /* {bulk_t* | x} => {bulk_t | x} */
     lift_arg0(patn);
@@ -3385,7 +3384,7 @@ static node_t *compile_call(node_t *prn, node_t *pfn, buf_t *pab, node_t *pdn)
     *(node_t **)bufins(pab, 0) = pdn;
     ndsettype(ndnewbk(pcn), TS_VOID);
   } else { 
-    assert(!pdn);
+    if (pdn) n2eprintf(ndref(prn, 0), prn, "call does not return bulk value");
     ndpushbk(pcn, ndref(pftn, 0));
   }
   if (acode_func_ref(pfn)) {
diff --git a/w.c b/w.c
index 5e72865..b9196ea 100644
--- a/w.c
+++ b/w.c
@@ -1817,7 +1817,7 @@ char *format_inscode(inscode_t *pic, cbuf_t *pcb)
       else cbputf(pcb, " offset=%llu align=%u", pic->arg.u, 1<<(int)pic->arg2.u); 
       break;
     case INSIG_MEMARG_LANEIDX: {
-      cbputf(pcb, " offset=%llu align=%u", pic->arg2.ux2[0], 1<<(int)pic->arg2.ux2[1]); 
+      cbputf(pcb, " offset=%u align=%u", pic->arg2.ux2[0], 1<<(int)pic->arg2.ux2[1]); 
       if (pic->id) cbputf(pcb, " $%s", symname(pic->id)); 
       else cbputf(pcb, " %llu", pic->arg.u); 
     } break;      
-- 
2.43.0


From d354cbf832202a184cbcf0c04c43d067daf4963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 22/80] fix: function bodies after non-function declarations
 are diagnosed

---
 p.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 4b3df97..39547ad 100644
--- a/p.c
+++ b/p.c
@@ -3899,7 +3899,8 @@ static void parse_top_decl(pws_t *pw, node_t *pn)
       reprintf(pw, pw->pos, "top-level auto/register declarations are not supported"); 
     if (peekt(pw) == TT_LBRC) {
       /* must be single function declaration */
-      if (ndlen(pn) == 1 && ndref(pn, 0)->nt == NT_VARDECL) { 
+      if (ndlen(pn) == 1 && ndref(pn, 0)->nt == NT_VARDECL 
+        && ndref(ndref(pn, 0), 0)->ts == TS_FUNCTION) { 
         node_t nd = mknd(), *pbn;
         ndswap(ndref(pn, 0), &nd);
         nd.nt = NT_FUNDEF;
-- 
2.43.0


From 0abd44e62624f214a28f1234b2889e993a61648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 23/80] fix: isspace accepts vertical tab and form feed;
 iscntrl is false above 0x7f

---
 lib/src/ctype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 4b7cab3..a2daf76 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -12,7 +12,7 @@ int isalpha(int c)
 
 int iscntrl(int c)
 {
-  return !isprint(c);
+  return (c >= 0 && c < ' ') || c == 0x7f;
 }
 
 int isdigit(int c)
@@ -42,7 +42,7 @@ int ispunct(int c)
 
 int isspace(int c)
 {
-  return c == ' ' || c == '\n' || c == '\t' || c == '\r';
+  return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
 int isupper(int c)
-- 
2.43.0


From 5ac10c9f83be4156cc3a2147e4ce657a579362e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 24/80] fix: strtod rounds correctly, reports range errors and
 stops at the longest valid prefix

---
 lib/src/stdlib.c | 282 +++++++++++++++++++++++++----------------------
 1 file changed, 150 insertions(+), 132 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3493ac8..7ad0038 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -130,160 +130,172 @@ long long atoll(const char *s)
   return neg ? n : -n;
 }
 
-/* poor man's strtod: rounding errors are possible in decimal, hex is exact */
+/* strtod: approximates the value with double arithmetics, then corrects the
+ * approximation by comparing the exact value with midpoints between doubles */
 
-#define MAX_BASE10_EXPONENT 511 /* largest possible base 10 exponent */
-#define MAX_BASE10_DIGS 18 /* more than this won't affect the result */
+#define MAX_BASE10_DIGS 800 /* more than this (plus sticky digit) won't affect the result */
+#define MAX_BASE16_DIGS 30  /* more than this (plus sticky digit) won't affect the result */
 static double powers_of_10[] = { 10., 100., 1.0e4, 1.0e8, 1.0e16, 1.0e32, 1.0e64, 1.0e128, 1.0e256 };
 
-static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
-{
-  bool negexp = false;
-  double fraction, exponent, *pd;
-  int c, exp = 0, fracexp = 0;
-  int mantsz = 0, dotpos = -1, expsz = -1;
-  const char *pexp;
+#define BIGNUM_MAX 136 /* x 32 bits; enough for MAX_BASE10_DIGS+1 digits scaled by 2^1076 */
+typedef struct { int n; uint32_t d[BIGNUM_MAX]; } bignum_t;
 
-  while (true) {
-    if (!isdigit(c = *pc)) {
-      if ((c != '.') || (dotpos >= 0)) break;
-      dotpos = mantsz;
-    }
-    ++pc; ++mantsz;
-  }
-  pexp = pc; pc -= mantsz;
-  if (dotpos < 0) dotpos = mantsz; 
-  else --mantsz;
-  if (mantsz > MAX_BASE10_DIGS) mantsz = MAX_BASE10_DIGS;
-  fracexp = dotpos - mantsz;
-  if (mantsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
-  } else {
-    long long frac = 0LL;
-    while (mantsz-- > 0) {
-      if ((c = *pc++) == '.') c = *pc++;
-      frac = 10LL * frac + (c - '0');
-    }
-    fraction = (double)frac;
-  }
-  pc = pexp;
-  if ((*pc == 'E') || (*pc == 'e')) {
-    expsz = 0;
-    if (*++pc == '-') { ++pc; negexp = true; }
-    else if (*pc == '+') ++pc;
-    while (isdigit(*pc)) {
-      exp = exp * 10 + (*pc++ - '0');
-      ++expsz;
-    }
-  }
-  if (expsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
-  }
-  if (negexp) exp = fracexp - exp;
-  else exp = fracexp + exp;
-  if (exp < 0) { negexp = true; exp = -exp; } 
-  else negexp = false;
-  if (exp > MAX_BASE10_EXPONENT) {
-    if (endp != NULL) *endp = (char *)pc;
-    errno = ERANGE;
-    return neg ? -HUGE_VAL : HUGE_VAL;
-  }
-  exponent = 1.0;
-  for (pd = &powers_of_10[0]; exp != 0; exp >>= 1, ++pd) {
-    if (exp & 1) exponent *= *pd;
+static void bigmuladd(bignum_t *pb, uint32_t m, uint32_t a)
+{
+  uint64_t c = a; int i;
+  for (i = 0; i < pb->n; ++i) {
+    c += (uint64_t)pb->d[i] * m;
+    pb->d[i] = (uint32_t)c; c >>= 32;
   }
-  if (negexp) fraction /= exponent;
-  else fraction *= exponent;
+  if (c) pb->d[pb->n++] = (uint32_t)c;
+}
 
-  if (endp != NULL) *endp = (char *)pc;
-  return neg ? -fraction : fraction;
+static void bigmulpow10(bignum_t *pb, int e)
+{
+  for (; e >= 9; e -= 9) bigmuladd(pb, (uint32_t)1000000000, 0);
+  for (; e > 0; --e) bigmuladd(pb, 10, 0);
 }
 
-#define MAX_BASE2_EXPONENT 1024 /* largest possible base 2 exponent */
-#define MAX_BASE16_DIGS 15 /* more than this won't affect the result */
+static void bigshl(bignum_t *pb, int s)
+{
+  int i, w = s / 32;
+  if (w > 0) {
+    for (i = pb->n - 1; i >= 0; --i) pb->d[i + w] = pb->d[i];
+    for (i = 0; i < w; ++i) pb->d[i] = 0;
+    pb->n += w;
+  }
+  bigmuladd(pb, (uint32_t)1 << (s % 32), 0);
+}
 
-static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
+/* compares d * base^exp (exp is in bits for base 16) with m * 2^k; m > 0, d > 0 */
+static int bigcmp(const bignum_t *pd, int base, int exp, uint64_t m, int k)
 {
-  bool negexp = false;
-  double fraction; // , exponent, *pd;
-  int c, exp = 0, fracexp = 0, val;
-  int mantsz = 0, dotpos = -1, expsz = -1;
-  const char *pexp;
+  bignum_t x, y; int i;
+  x = *pd; y.d[0] = (uint32_t)m; y.d[1] = (uint32_t)(m >> 32);
+  y.n = y.d[1] ? 2 : 1;
+  if (base == 16) k -= exp;
+  else if (exp > 0) bigmulpow10(&x, exp);
+  else bigmulpow10(&y, -exp);
+  if (k > 0) bigshl(&y, k); else bigshl(&x, -k);
+  if (x.n != y.n) return x.n < y.n ? -1 : 1;
+  for (i = x.n - 1; i >= 0; --i) 
+    if (x.d[i] != y.d[i]) return x.d[i] < y.d[i] ? -1 : 1;
+  return 0;
+}
 
-  while (true) {
-    if (!isxdigit(c = *pc)) {
-      if ((c != '.') || (dotpos >= 0)) break;
-      dotpos = mantsz;
+/* d * base^exp rounded to nearest even, given its approximation z */
+static double bigtod(const bignum_t *pd, int base, int exp, double z)
+{
+  union { uint64_t u; double d; } v;
+  uint64_t m; int c, k; v.d = z;
+  if (v.u >= 0x7ff0000000000000ULL) v.u = 0x7fefffffffffffffULL;
+  for (;;) {
+    m = v.u & 0xfffffffffffffULL; k = (int)(v.u >> 52);
+    if (k) m += 0x10000000000000ULL; else k = 1;
+    k -= 1075; /* v.d == m * 2^k */
+    c = bigcmp(pd, base, exp, 2*m + 1, k - 1);
+    if (c > 0 || (c == 0 && (m & 1))) {
+      if (++v.u == 0x7ff0000000000000ULL) break;
+      continue;
     }
-    ++pc; ++mantsz;
-  }
-  pexp = pc; pc -= mantsz;
-  if (dotpos < 0) dotpos = mantsz;
-  else --mantsz;
-  if (mantsz > MAX_BASE16_DIGS) mantsz = MAX_BASE16_DIGS;
-  fracexp = (dotpos - mantsz)*4;
-  if (mantsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
-  } else {
-    long long frac = 0LL;
-    while (mantsz-- > 0) {
-      if ((c = *pc++) == '.') c = *pc++;
-      if ('0' <= c && c <= '9') val = c - '0';
-      else if ('a' <= c && c <= 'f') val = c - 'a' + 10;
-      else val = c - 'A' + 10;
-      frac = 16LL * frac + val;
+    if (m == 0) break;
+    if (m == 0x10000000000000ULL && k > -1074) c = bigcmp(pd, base, exp, 4*m - 1, k - 2);
+    else c = bigcmp(pd, base, exp, 2*m - 1, k - 1);
+    if (c < 0 || (c == 0 && (m & 1))) {
+      --v.u;
+      continue;
     }
-    fraction = (double)frac;
+    break;
+  }
+  /* overflow or inexact underflow */
+  if (v.u >= 0x7ff0000000000000ULL) errno = ERANGE;
+  else if (v.u < 0x10000000000000ULL && (m == 0 || bigcmp(pd, base, exp, m, k) != 0)) errno = ERANGE;
+  return v.d;
+}
+
+static int digitval(int c);
+
+static double strtod_num(const char *s, const char *pc, bool neg, bool hex, char **endp)
+{
+  int base = hex ? 16 : 10, ebits = hex ? 4 : 1, maxd = hex ? MAX_BASE16_DIGS : MAX_BASE10_DIGS;
+  int v, nd = 0, nf = 0, exp = 0, e; bool any = false, dot = false, sticky = false;
+  long long frac = 0LL; double z; bignum_t d;
+  const char *pexp, *pc0 = pc;
+
+  d.n = 0;
+  for (;; ++pc) {
+    if (*pc == '.' && !dot) { dot = true; continue; }
+    v = digitval(*pc);
+    if (v < 0 || v >= base) break;
+    any = true;
+    if (nd == 0 && v == 0) { /* leading zero */
+      if (dot && exp > -100000) exp -= ebits;
+    } else if (nd < maxd) {
+      bigmuladd(&d, (uint32_t)base, (uint32_t)v); ++nd;
+      if (nf < 15) { frac = frac * base + v; ++nf; }
+      if (dot) exp -= ebits;
+    } else {
+      if (v) sticky = true;
+      if (!dot && exp < 100000) exp += ebits;
+    }
+  }
+  if (!any) {
+    if (endp != NULL) *endp = hex ? (char *)pc0 - 1 : (char *)s;
+    return hex && neg ? -0.0 : 0.0;
   }
-  pc = pexp;
-  if ((*pc == 'P') || (*pc == 'p')) {
-    expsz = 0;
+  pexp = pc;
+  if (hex ? (*pc == 'P' || *pc == 'p') : (*pc == 'E' || *pc == 'e')) {
+    bool negexp = false;
     if (*++pc == '-') { ++pc; negexp = true; }
     else if (*pc == '+') ++pc;
-    while (isdigit(*pc)) {
-      exp = exp * 10 + (*pc++ - '0');
-      ++expsz;
+    if (isdigit(*pc)) {
+      for (e = 0; isdigit(*pc); ++pc) {
+        if (e < 1000000) e = e * 10 + (*pc - '0');
+      }
+      exp += negexp ? -e : e;
+    } else {
+      pc = pexp;
     }
   }
-  if (expsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
-  }
-  if (negexp) exp = fracexp - exp;
-  else exp = fracexp + exp;
-  if (exp < 0) { negexp = true; exp = -exp; }
-  else negexp = false;
-  if (exp > MAX_BASE2_EXPONENT) {
-    if (endp != NULL) *endp = (char *)pc;
+  if (endp != NULL) *endp = (char *)pc;
+  if (nd == 0) return neg ? -0.0 : 0.0;
+  if (sticky) { bigmuladd(&d, (uint32_t)base, 1); exp -= ebits; ++nd; }
+  /* get rid of the values which are way out of range */
+  if (nd*ebits + exp > (hex ? 1030 : 310)) {
     errno = ERANGE;
     return neg ? -HUGE_VAL : HUGE_VAL;
+  } else if (nd*ebits + exp < (hex ? -1080 : -326)) {
+    errno = ERANGE;
+    return neg ? -0.0 : 0.0;
   }
-  fraction = ldexp(fraction, negexp ? -exp : exp);
-
-  if (endp != NULL) *endp = (char *)pc;
-  return neg ? -fraction : fraction;
+  /* find an approximation; it is exact if both operands are exact */
+  z = (double)frac; e = exp + (nd - nf)*ebits;
+  if (hex) {
+    z = ldexp(z, e);
+  } else {
+    double *pd = &powers_of_10[0];
+    if (nd == nf && e >= -22 && e <= 22) {
+      double p = 1.0; v = e < 0 ? -e : e;
+      for (; v != 0; v >>= 1, ++pd) if (v & 1) p *= *pd;
+      z = e < 0 ? z / p : z * p;
+      return neg ? -z : z;
+    }
+    v = e < 0 ? -e : e;
+    for (; v != 0; v >>= 1, ++pd) if (v & 1) z = e < 0 ? z / *pd : z * *pd;
+  }
+  z = bigtod(&d, base, exp, z);
+  return neg ? -z : z;
 }
 
-/* internal scanner for special values */
+/* internal scanner for special values: length of s if it is a prefix of pc, or 0 */
 static int strtod_s(const char *pc, const char *s)
 {
-  int n = 0; bool full = true;
-  while (*s) {
-    int c = *pc;
-    if (c == 0) break;
-    if (*s == '*') {
-      full = false;
-      if (c == ')') { ++s; full = true; }
-      else ++pc;
-    } else if (tolower(*s) == tolower(c)) {
-      ++s; ++pc;
-    } else break;
+  int n = 0;
+  while (s[n]) {
+    if (tolower(s[n]) != tolower(pc[n])) return 0;
     ++n;
   }
-  return full ? n : -1;
+  return n;
 }
 
 double strtod(const char *s, char **endp)
@@ -294,10 +306,11 @@ double strtod(const char *s, char **endp)
   if (*pc == '-') { ++pc; neg = true; }
   else if (*pc == '+') ++pc;
   if (pc[0] == '0' && (pc[1] == 'x' || pc[1] == 'X')) {
-    return strtod_hex(s, pc + 2, neg, endp);
+    return strtod_num(s, pc + 2, neg, true, endp);
   } else if (pc[0] == 'I' || pc[0] == 'i') {
     int n = strtod_s(pc, "INFINITY");
-    if (n == 3 || n == 8) {
+    if (n == 0) n = strtod_s(pc, "INF");
+    if (n > 0) {
       if (endp) *endp = (char *)pc + n;
       return neg ? -HUGE_VAL : HUGE_VAL;
     } else {
@@ -305,8 +318,13 @@ double strtod(const char *s, char **endp)
       return 0.0;
     }
   } else if (pc[0] == 'N' || pc[0] == 'n') {
-    int n = strtod_s(pc, "NAN(*)");
-    if (n >= 3) {
+    int n = strtod_s(pc, "NAN");
+    if (n > 0) {
+      if (pc[n] == '(') {
+        int i = n + 1;
+        while (isalnum(pc[i]) || pc[i] == '_') ++i;
+        if (pc[i] == ')') n = i + 1;
+      }
       if (endp) *endp = (char *)pc + n;
       return -HUGE_VAL + HUGE_VAL; /* fixme */
     } else {
@@ -314,7 +332,7 @@ double strtod(const char *s, char **endp)
       return 0.0;
     }
   }
-  return strtod_dec(s, pc, neg, endp);
+  return strtod_num(s, pc, neg, false, endp);
 }
 
 static int digitval(int c)
-- 
2.43.0


From 2056d5b519549fab0dd2d9aa61c410545382df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 25/80] fix: integer conversions saturate, report range errors
 and set the end pointer as C defines

---
 lib/src/stdlib.c | 61 ++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 7ad0038..f3bdfcf 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <limits.h>
 #include <stddef.h>
 #include <stdbool.h>
 #include <errno.h>
@@ -343,74 +344,74 @@ static int digitval(int c)
   return -1;
 }
 
-static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
+/* values above max (or below -max-1 if sgn is set) saturate with errno set to ERANGE */
+static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n, uintmax_t max, bool sgn)
 {
-  int minus = 0; uintmax_t v = 0; int d;
-  while (n && isspace((unsigned char)*nptr)) {  nptr++;  n--; }
+  const char *s = nptr;
+  bool minus = false, any = false, ovf = false; uintmax_t v = 0; int d;
+  while (n && isspace((unsigned char)*s)) { s++; n--; }
   if (n) {
-    char c = *nptr;
+    char c = *s;
     if (c == '-' || c == '+') {
       minus = (c == '-');
-      nptr++;
+      s++;
       n--;
     }
   }
-  if (base == 0) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
-      n -= 2; nptr += 2; base = 16;
-    } else if (n >= 1 && nptr[0] == '0') {
-      n--; nptr++; base = 8;
-    } else {
-      base = 10;
-    }
-  } else if (base == 16) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
-      n -= 2; nptr += 2;
-    }
+  if ((base == 0 || base == 16) && n >= 3 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
+      && (d = digitval(s[2])) >= 0 && d < 16) {
+    n -= 2; s += 2; base = 16;
+  } else if (base == 0) {
+    base = (n >= 1 && s[0] == '0') ? 8 : 10;
+  }
+  while (n && (d = digitval(*s)) >= 0 && d < base) {
+    if (v > (~(uintmax_t)0 - d) / base) ovf = true;
+    else v = v * base + d;
+    any = true;
+    n--; s++;
   }
-  while (n && (d = digitval(*nptr)) >= 0 && d < base) {
-    v = v * base + d;
-    n--; nptr++;
+  if (endptr) *endptr = (char *)(any ? s : nptr);
+  if (sgn && minus) max += 1;
+  if (ovf || v > max) { 
+    errno = ERANGE; 
+    return sgn && minus ? -max : max;
   }
-  if (endptr) *endptr = (char *)nptr;
   return minus ? -v : v;
 }
 
 intmax_t strntoimax(const char *nptr, char **endptr, int base, size_t n)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, n);
+  return (intmax_t)strntoumax(nptr, endptr, base, n, (uintmax_t)INTMAX_MAX, true);
 }
 
 intmax_t strtoimax(const char *nptr, char **endptr, int base)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, (uintmax_t)INTMAX_MAX, true);
 }
 
 long strtol(const char *nptr, char **endptr, int base)
 {
-  return (long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long)strntoumax(nptr, endptr, base, ~(size_t)0, (uintmax_t)LONG_MAX, true);
 }
 
 long long strtoll(const char *nptr, char **endptr, int base)
 {
-  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0, (uintmax_t)LLONG_MAX, true);
 }
 
 unsigned long strtoul(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0, (uintmax_t)ULONG_MAX, false);
 }
 
 unsigned long long strtoull(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long long)strntoumax(nptr, endptr, base, ~(size_t)0, (uintmax_t)ULLONG_MAX, false);
 }
 
 uintmax_t strtoumax(const char *nptr, char **endptr, int base)
 {
-  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, (uintmax_t)UINTMAX_MAX, false);
 }
 
 static unsigned short rand48_seed[3]; 
-- 
2.43.0


From 5fea4815bb566afdd46b992415ed6746c580927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:53 +0000
Subject: [PATCH 26/80] fix: a directory is not taken for a header or source
 file

---
 p.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 39547ad..991c4f0 100644
--- a/p.c
+++ b/p.c
@@ -106,12 +106,15 @@ pws_t *newpws(const char *infile)
   if (streql(infile, "-")) fp = stdin;
   else if ((mpath = strprf(infile, "res://")) != NULL) mp = mopen(mpath);
   else fp = fopen(infile, "r");
+  if (fp) {
+    fget8bom(fp);
+    if (ferror(fp)) { fclose(fp); fp = NULL; } /* unreadable, e.g. a directory */
+  }
   if (fp) {
     pw = emalloc(sizeof(pws_t));
     pw->input = fp;
     pw->getlb = (fgetlb_t)&fgetlb;
     pw->close = (fclose_t)&fclose;
-    fget8bom(pw->input);
   } else if (mp) {
     pw = emalloc(sizeof(pws_t));
     pw->input = mp;
-- 
2.43.0


From 37b77d8e30757c10431f76952d5f4092aa5f213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:54 +0000
Subject: [PATCH 27/80] fix: out-of-range float constants convert to integers
 the same way on every host

---
 c.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index bca9574..7f295ab 100644
--- a/c.c
+++ b/c.c
@@ -270,6 +270,23 @@ static long long integral_sext(ts_t ts, long long i)
   return i;
 }
 
+/* float to integer conversions: values out of range saturate, nan is 0 */
+static long long double_to_llong(double d)
+{
+  if (d != d) return 0;
+  if (d >= 9223372036854775808.0) return LLONG_MAX;
+  if (d < -9223372036854775808.0) return LLONG_MIN;
+  return (long long)d;
+}
+
+static unsigned long long double_to_ullong(double d)
+{
+  if (d <= -1.0) return (unsigned long long)double_to_llong(d);
+  if (!(d > 0.0)) return 0;
+  if (d >= 18446744073709551616.0) return ULLONG_MAX;
+  return (unsigned long long)d;
+}
+
 static void numval_convert(ts_t tsto, ts_t tsfrom, numval_t *pnv)
 {
   assert(pnv);
@@ -289,12 +306,12 @@ static void numval_convert(ts_t tsto, ts_t tsfrom, numval_t *pnv)
     else if (ts_unsigned(tsfrom)) pnv->u = (pnv->u != 0);
     else pnv->u = (pnv->i != 0);
   } else if (ts_unsigned(tsto)) {
-    if (tsfrom == TS_DOUBLE) pnv->u = (unsigned long long)pnv->d;
-    else if (tsfrom == TS_FLOAT) pnv->u = (unsigned long long)pnv->f;
+    if (tsfrom == TS_DOUBLE) pnv->u = integral_mask(tsto, double_to_ullong(pnv->d));
+    else if (tsfrom == TS_FLOAT) pnv->u = integral_mask(tsto, double_to_ullong((double)pnv->f));
     else pnv->u = integral_mask(tsto, pnv->u); /* i reinterpreted as u */
   } else { /* signed integer */
-    if (tsfrom == TS_DOUBLE) pnv->i = (long long)pnv->d;
-    else if (tsfrom == TS_FLOAT) pnv->i = (long long)pnv->f;
+    if (tsfrom == TS_DOUBLE) pnv->i = integral_sext(tsto, double_to_llong(pnv->d));
+    else if (tsfrom == TS_FLOAT) pnv->i = integral_sext(tsto, double_to_llong((double)pnv->f));
     else pnv->i = integral_sext(tsto, pnv->i); /* u reinterpreted as i */
   }
 }
-- 
2.43.0


From 90d85e662f42ac07f68890e2d80ef5966062b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 28/80] fix: empty needles, terminators, strndup bounds,
 strncasecmp order and strtok's leading delimiters

---
 lib/src/string.c | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index a427d7f..d188ee3 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -53,7 +53,9 @@ void *memmem(const void *haystack, size_t n, const void *needle, size_t m)
   const unsigned char *y = (const unsigned char *)haystack;
   const unsigned char *x = (const unsigned char *)needle;
   size_t j, k, l;
-  if (m > n || !m || !n)
+  if (!m)
+    return (void *)haystack; /* empty needle matches at the start */
+  if (m > n)
     return NULL;
   if (1 != m) {
     if (x[0] == x[1]) { 
@@ -182,7 +184,7 @@ int strncasecmp(const char *s1, const char *s2, size_t n)
   const unsigned char *c2 = (const unsigned char *)s2;
   unsigned char ch; int d = 0;
   while (n--) {
-    d = toupper(ch = *c1++) - toupper(*c2++);
+    d = tolower(ch = *c1++) - tolower(*c2++);
     if (d || !ch) break;
   }
   return d;
@@ -228,11 +230,11 @@ char *strncpy(char *dst, const char *src, size_t n)
 
 char *strndup(const char *s, size_t n)
 {
-  size_t sl = strlen(s), l = (n > sl ? sl : n) + 1;
-  char *d = malloc(l);
+  size_t l = strnlen(s, n);
+  char *d = malloc(l + 1);
   if (!d) return NULL;
   _bcopy(d, s, l);
-  d[n] = '\0';
+  d[l] = '\0';
   return d;
 }
 
@@ -261,8 +263,9 @@ char *strpbrk(const char *s1, const char *s2)
 char *strrchr(const char *s, int c)
 {
   const char *found = NULL;
-  while (*s) {
+  while (1) {
     if (*s == (char)c) found = s;
+    if (!*s) break;
     s++;
   }
   return (char *)found;
@@ -287,20 +290,15 @@ char *strstr(const char *haystack, const char *needle)
                         strlen(needle));
 }
 
-static char *strsep(char **stringp, const char *delim)
+char *strtok_r(char *s, const char *delim, char **holder)
 {
-  char *s = *stringp, *e;
-  if (!s) return NULL;
+  char *e;
+  if (!s) s = *holder;
+  if (s) s += strspn(s, delim); /* leading delimiters are left alone */
+  if (!s || !*s) { *holder = NULL; return NULL; }
   e = strpbrk(s, delim);
   if (e) *e++ = '\0';
-  *stringp = e;
-  return s;
-}
-
-char *strtok_r(char *s, const char *delim, char **holder)
-{
-  if (s) *holder = s;
-  do s = strsep(holder, delim); while (s && !*s);
+  *holder = e;
   return s;
 }
 
@@ -308,8 +306,8 @@ static char *strtok_holder;
 
 char *strtok(char *s, const char *delim)
 {
-  char *holder = s ? s : strtok_holder; 
-  do s = strsep(&holder, delim); while (s && !*s);
+  char *holder = strtok_holder;
+  s = strtok_r(s, delim, &holder);
   strtok_holder = holder;
   return s;
 }
-- 
2.43.0


From bb25071b68a1112eb5b0121d21e6e878c1802074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 29/80] fix: multibyte conversions honour their limits,
 terminate, and accept null pointers

---
 lib/src/stdlib.c | 53 +++++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index f3bdfcf..0cec8b7 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -757,7 +757,8 @@ lldiv_t lldiv(long long num, long long den)
 
 int mblen(const char *s, size_t n)
 {
-  return mbtowc(NULL, s, n);
+  wchar_t wc;
+  return mbtowc(&wc, s, n);
 }
 
 
@@ -785,16 +786,16 @@ int mbtowc(wchar_t *p, const char *s, size_t n)
   const unsigned char *ip = (const unsigned char *)s;
   int c0, c, nc; long l;
   struct utf8_table *t;
-  { c0 = *ip; l = c0; nc = 0;
-    if (!s) return 0;
+  { if (!s) return 0;
     if (!n) goto ilseq;
-    for (t = utf8_table; t->cmask; t++) {
+    c0 = *ip; l = c0; nc = 0;
+    for (t = utf8_table; t->cmask && nc < MB_CUR_MAX; t++) {
       nc++;
       if ((c0 & t->cmask) == t->cval) {
         l &= t->lmask;
         if (l < t->lval) goto ilseq;
-        *p = (wchar_t)l;
-        return nc;
+        if (p) *p = (wchar_t)l;
+        return l ? nc : 0;
       }
       if (n <= nc) goto ilseq;
       ip++;
@@ -813,6 +814,7 @@ static int wctomb_chk(unsigned char *s, wchar_t wc, size_t maxlen)
   long l = wc; int c, nc = 0;
   struct utf8_table *t;
   if (s == NULL) return 0;
+  if (l < 0) return -1;
   for (t = utf8_table; t->cmask && maxlen; t++, maxlen--) {
     nc++;
     if (l <= t->lmask) {
@@ -838,17 +840,13 @@ int wctomb(char *s, wchar_t wc)
 size_t mbstowcs(wchar_t *pwcs, const char *s, size_t n) 
 {
   wchar_t *op = pwcs;
-  const unsigned char *ip = (const unsigned char *)s;
-  while (*ip && n > 0) {
-    if (*ip & 0x80) {
-      int size = mbtowc(op, (const char *)ip, n);
-      if (size == -1) { /* ignore character and move on */
-        ip++; n--;
-      } else {
-        op++; ip += size; n -= size;
-      }
+  while (n > 0) { /* n is in wide characters */
+    int size = mbtowc(op, s, MB_CUR_MAX);
+    if (size == 0) break; /* terminator is stored but not counted */
+    if (size == -1) { /* ignore character and move on */
+      s++;
     } else {
-      *op++ = *ip++; n--;
+      op++; s += size; n--;
     }
   }
   return op - pwcs;
@@ -857,19 +855,14 @@ size_t mbstowcs(wchar_t *pwcs, const char *s, size_t n)
 size_t wcstombs(char *s, const wchar_t *pwcs, size_t maxlen) 
 {
   const wchar_t *ip = pwcs; 
-  unsigned char *op = (unsigned char *)s;
-  while (*ip && maxlen > 0) {
-    if (*ip > 0x7f) {
-      int size = wctomb_chk(op, *ip, maxlen);
-      if (size == -1) { /* ignore character and move on */
-        maxlen--;
-      } else {
-        op += size; maxlen -= size;
-      }
-    } else {
-      *op++ = (unsigned char)*ip;
-    }
-    ip++;
+  char *op = s, *bp, buf[MB_CUR_MAX];
+  for (; maxlen > 0; ip++) { /* maxlen is in bytes */
+    int size = wctomb(&buf[0], *ip);
+    if (size == -1) continue; /* ignore character and move on */
+    if (size > maxlen) break; /* does not fit as a whole */
+    maxlen -= size;
+    for (bp = &buf[0]; size > 0; size--) *op++ = *bp++;
+    if (!*ip) return op - s - 1; /* terminator is stored but not counted */
   }
-  return op - (unsigned char *)s;
+  return op - s;
 }
-- 
2.43.0


From 1594109f6441de3baf5f5e91587e58122a3c989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 30/80] fix: failed realloc keeps its block, huge requests fail
 cleanly, split blocks coalesce, calloc of zero size

---
 lib/src/stdlib.c | 9 +++++----
 lib/src/unistd.c | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 0cec8b7..ed86856 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -606,6 +606,7 @@ static header_t *pullblock(size_t bi)
       header_t *pb2 = (header_t *)((char*)pb + BI2BLKSZ(bi));
       if ((pbi = buckets[bi]) != NULL) pbi->free.prev = pb2;
       pb2->free.next = pbi; pb2->free.prev = NULL;
+      (pb2+1)->used.bi = (uint8_t)bi; /* bi mark */
       buckets[bi] = pb2;
     }
     return pb;
@@ -672,13 +673,14 @@ void *realloc(void *p, size_t n)
     assert(bi < NBUCKETS);
     assert(bi > SBRKBUCKET || !((uintptr_t)pb & (uintptr_t)(BI2BLKSZ(bi)-1UL)));
     if (n > 0) { /* realloc */
-      if (n + sizeof(header_t) <= BI2BLKSZ(bi)) {
+      if (n <= BI2BLKSZ(bi) - sizeof(header_t)) {
         pb->used.plsz = n;
         return p;
       } else {
         void *np = realloc(NULL, n); /* malloc */
         size_t orgn = pb->used.plsz;
-        if (np != NULL) memcpy(np, p, n < orgn ? n : orgn);
+        if (np == NULL) return NULL; /* old block is still valid */
+        memcpy(np, p, n < orgn ? n : orgn);
         pushblock(bi, pb);
         return np;
       }
@@ -708,8 +710,7 @@ void *malloc(size_t n)
 void *calloc(size_t n, size_t sz)
 {
   void *p = NULL; 
-  assert(sz);
-  if (n <= MAXPAYLOAD/sz) {
+  if (sz == 0 || n <= MAXPAYLOAD/sz) {
     n *= sz;
     p = realloc(NULL, n);
     if (p != NULL) memset(p, 0, n);
diff --git a/lib/src/unistd.c b/lib/src/unistd.c
index 1f65898..ca71eeb 100644
--- a/lib/src/unistd.c
+++ b/lib/src/unistd.c
@@ -140,7 +140,7 @@ int isatty(int fd)
 
 void *sbrk(intptr_t inc) /* inc should be a multiple of 64K */
 {
-  assert(inc >= 0 && (inc & 0xFFFF) == 0);
+  assert((inc & 0xFFFF) == 0);
   if (!inc) return (void *)asm(memory.size, i32.const 16, i32.shl);
   size_t new = (size_t)inc >> 16;
   size_t old = (size_t)asm(i32.const 0, local.get new, memory.grow);
-- 
2.43.0


From 6c9960329cfec7ff5018e1899c6b09812741d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 31/80] fix: rand is never negative

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index ed86856..34ac001 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -431,7 +431,7 @@ static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 
 int rand(void)
 {
-  return (int)jrand48(rand48_seed) >> 1;
+  return (int)((unsigned)jrand48(rand48_seed) >> 1);
 }
 
 void srand(unsigned seedval)
-- 
2.43.0


From d75399560963760ac696ba6de2777e0dffe32be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:27 +0000
Subject: [PATCH 32/80] fix: getenv finds the variable of the given name

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 34ac001..2d2d9b2 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -504,7 +504,7 @@ char *getenv(const char *name)
     initialize_environ();
     char **env;
     for (env = _environ; *env; ++env) {
-      if (strncmp(name, *env, len) && (*env)[len] == '=')
+      if (!strncmp(name, *env, len) && (*env)[len] == '=')
         return *env + len + 1;
     }
   }
-- 
2.43.0


From 210bf95a6591d1a3761a1039c94ae544bdc9f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 33/80] fix: the initial random sequence is that of srand(1)

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 2d2d9b2..d0f7ef1 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -414,7 +414,7 @@ uintmax_t strtoumax(const char *nptr, char **endptr, int base)
   return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, (uintmax_t)UINTMAX_MAX, false);
 }
 
-static unsigned short rand48_seed[3]; 
+static unsigned short rand48_seed[3] = { 0x330e, 1, 0 }; /* srand(1) */
 static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 {
   uint64_t x;
-- 
2.43.0


From abc52dab4bd7aaa9dc4828d90ffc759eca9bc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:08 +0000
Subject: [PATCH 34/80] fix: formatted output pads, rounds and scales as C
 defines within its documented limits

---
 lib/src/stdio.c | 401 +++++++++++++++++++++---------------------------
 1 file changed, 176 insertions(+), 225 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 53093f5..7aaacfb 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -541,7 +541,7 @@ static bool _is_hex_digit(char ch)
 static unsigned int _strnlen_s(const char* str, size_t maxsize)
 {
   const char* s;
-  for (s = str; *s && maxsize--; ++s);
+  for (s = str; maxsize-- && *s; ++s);
   return (unsigned int)(s - str);
 }
 
@@ -1059,15 +1059,15 @@ int vsnscanf(const char *buf, size_t count, const char *format, va_list va)
 /* derived from: https://github.com/mpaland/printf (c) Marco Paland (info@paland.com) */
 
 /* 'ntoa' conversion buffer size, this must be big enough to hold one converted
- * integer number including padded zeros (dynamically created on stack) */
-#define PRINTF_NTOA_BUFFER_SIZE    32U
+ * integer number (dynamically created on stack) */
+#define PRINTF_NTOA_BUFFER_SIZE    64U
 
 /* 'ftoa' conversion buffer size, this must be big enough to hold one converted
- * float number including padded zeros (dynamically created on stack) */
+ * float number (dynamically created on stack) */
 #define PRINTF_FTOA_BUFFER_SIZE    32U
 
 /* 'atoa' conversion buffer size, this must be big enough to hold one converted
- * hex float number including padded zeros (dynamically created on stack) */
+ * hex float number (dynamically created on stack) */
 #define PRINTF_ATOA_BUFFER_SIZE    32U
 
  /* default precision for decimal doubles */
@@ -1111,46 +1111,53 @@ static void _out_null(char c, void *data, size_t idx, size_t maxlen)
 static void _out_file(char c, void *data, size_t idx, size_t maxlen)
 {
   FILE *fp = (FILE *)data;
-  if (c) putc(c, fp);
+  putc(c, fp);
 } 
 
-/* output the specified string in reverse, taking care of any zero-padding */
-static size_t _out_rev(out_fct_t out, void *data, size_t idx, size_t maxlen, const char *buf, size_t len, unsigned int width, unsigned int flags)
+/* output a number: padding, prefix, zeros, reversed digits, zeros, suffix, padding */
+static size_t _out_num(out_fct_t out, void *data, size_t idx, size_t maxlen, const char *pfx, size_t lz, const char *buf, size_t len, size_t tz, const char *sfx, unsigned int width, unsigned int flags)
 {
-  const size_t start_idx = idx; size_t i;
+  size_t n = strlen(pfx) + lz + len + tz + strlen(sfx), pad = n < width ? width - n : 0U;
   if (!(flags & FLAGS_LEFT) && !(flags & FLAGS_ZEROPAD)) {
-    for (i = len; i < width; i++) (*out)(' ', data, idx++, maxlen);
+    for (; pad; --pad) (*out)(' ', data, idx++, maxlen);
   }
-  while (len) (*out)(buf[--len], data, idx++, maxlen);
-  if (flags & FLAGS_LEFT) {
-    while (idx - start_idx < width) (*out)(' ', data, idx++, maxlen);
+  while (*pfx) (*out)(*pfx++, data, idx++, maxlen);
+  if (!(flags & FLAGS_LEFT)) {
+    for (; pad; --pad) (*out)('0', data, idx++, maxlen);
   }
+  for (; lz; --lz) (*out)('0', data, idx++, maxlen);
+  while (len) (*out)(buf[--len], data, idx++, maxlen);
+  for (; tz; --tz) (*out)('0', data, idx++, maxlen);
+  while (*sfx) (*out)(*sfx++, data, idx++, maxlen);
+  for (; pad; --pad) (*out)(' ', data, idx++, maxlen);
   return idx;
 }
 
+/* sign to output */
+static size_t _out_sign(char *pfx, bool negative, unsigned int flags)
+{
+  if (negative) *pfx = '-';
+  else if (flags & FLAGS_PLUS) *pfx = '+';
+  else if (flags & FLAGS_SPACE) *pfx = ' ';
+  else return 0U;
+  return 1U;
+}
+
 /* internal itoa format */
 static size_t _ntoa_format(out_fct_t out, void *data, size_t idx, size_t maxlen, char *buf, size_t len, bool negative, unsigned int base, unsigned int prec, unsigned int width, unsigned int flags)
 {
-  if (!(flags & FLAGS_LEFT)) {
-    if (width && (flags & FLAGS_ZEROPAD) && (negative || (flags & (FLAGS_PLUS | FLAGS_SPACE)))) --width;
-    while ((len < prec) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-    while ((flags & FLAGS_ZEROPAD) && (len < width) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-  }
+  char pfx[4]; size_t plen = _out_sign(&pfx[0], negative, flags);
+  size_t lz = len < prec ? prec - len : 0U;
   if (flags & FLAGS_HASH) {
-    if (!(flags & FLAGS_PRECISION) && len && ((len == prec) || (len == width))) {
-      --len; if (len && (base == 16U)) --len;
+    if (base == 8U) { 
+      if (!lz && (!len || buf[len-1] != '0')) lz = 1U;
+    } else if (len && !(len == 1U && buf[0] == '0')) { /* not for zero */
+      pfx[plen++] = '0';
+      pfx[plen++] = base == 2U ? 'b' : (flags & FLAGS_UPPERCASE) ? 'X' : 'x';
     }
-    if ((base == 16U) && !(flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'x';
-    else if ((base == 16U) && (flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'X';
-    else if ((base == 2U) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'b';
-    if (len < PRINTF_NTOA_BUFFER_SIZE) buf[len++] = '0';
   }
-  if (len < PRINTF_NTOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+'; 
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
-  }
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+  pfx[plen] = 0;
+  return _out_num(out, data, idx, maxlen, pfx, lz, buf, len, 0U, "", width, flags);
 }
 
 /* internal itoa for 'long' type */
@@ -1158,7 +1165,6 @@ static size_t _ntoa_long(out_fct_t out, void *data, size_t idx, size_t maxlen, u
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
   size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
   if (!(flags & FLAGS_PRECISION) || value) {
     do {
       const char digit = (char)(value % base);
@@ -1174,7 +1180,6 @@ static size_t _ntoa_long_long(out_fct_t out, void *data, size_t idx, size_t maxl
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
   size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
   if (!(flags & FLAGS_PRECISION) || value) {
     do {
       const char digit = (char)(value % base);
@@ -1185,232 +1190,177 @@ static size_t _ntoa_long_long(out_fct_t out, void *data, size_t idx, size_t maxl
   return _ntoa_format(out, data, idx, maxlen, buf, len, negative, (unsigned int)base, prec, width, flags);
 }
 
-/* powers of 10 for _ftoa's 9 digits of precision */
+/* powers of 10 for _fdigits's 9 digits of precision */
 static const double pow10[] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000 };
 
-/* forward declaration so that _ftoa can switch to exp notation for values > PRINTF_MAX_FLOAT */
-static size_t _etoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags);
+/* true if the sign bit is set */
+static bool _fneg(double value)
+{
+  union { uint64_t U; double F; } conv; conv.F = value;
+  return (conv.U >> 63U) != 0;
+}
 
-/* internal ftoa for fixed decimal floating point */
-static size_t _ftoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags)
+/* output special values */
+static size_t _stoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int width, unsigned int flags)
 {
-  char buf[PRINTF_FTOA_BUFFER_SIZE];
-  size_t len  = 0U; double diff = 0.0;
-  
-  if (value != value)   /* NAN */
-    return _out_rev(out, data, idx, maxlen, "nan", 3, width, flags);
-  if (value < -DBL_MAX) /* -INF */
-    return _out_rev(out, data, idx, maxlen, "fni-", 4, width, flags);
-  if (value > DBL_MAX)  /* +INF */
-    return _out_rev(out, data, idx, maxlen, (flags & FLAGS_PLUS) ? "fni+" : "fni", (flags & FLAGS_PLUS) ? 4U : 3U, width, flags);
-  /* fall back to etoa for very large values */
-  if ((value > PRINTF_MAX_FLOAT) || (value < -PRINTF_MAX_FLOAT)) {
-    return _etoa(out, data, idx, maxlen, value, prec, width, flags);
-  }
-  bool negative = false;
-  if (value < 0) { negative = true; value = -value; }
-  if (!(flags & FLAGS_PRECISION)) {
-    prec = PRINTF_DEFAULT_FLOAT_PRECISION;
-  }
-  /* limit precision to 9, cause a prec >= 10 can lead to overflow errors */
-  while ((len < PRINTF_FTOA_BUFFER_SIZE) && (prec > 9U)) {
-    buf[len++] = '0';
-    --prec;
-  }
-  
+  char pfx[2]; pfx[0] = pfx[1] = 0;
+  flags &= ~FLAGS_ZEROPAD;
+  if (value != value) /* NAN */
+    return _out_num(out, data, idx, maxlen, pfx, 0U, flags & FLAGS_UPPERCASE ? "NAN" : "nan", 3U, 0U, "", width, flags);
+  _out_sign(&pfx[0], value < 0, flags);
+  return _out_num(out, data, idx, maxlen, pfx, 0U, flags & FLAGS_UPPERCASE ? "FNI" : "fni", 3U, 0U, "", width, flags);
+}
+
+/* reversed digits of value in [0..PRINTF_MAX_FLOAT] rounded to prec <= 9 decimals */
+static size_t _fdigits(double value, unsigned int prec, unsigned int flags, char *buf)
+{
+  size_t len = 0U; double diff;
   int whole = (int)value;
   double tmp = (value - whole) * pow10[prec];
   unsigned long frac = (unsigned long)tmp;
   diff = tmp - frac;
-  if (diff > 0.5) {
+  /* if halfway, round to even */
+  if (diff > 0.5 || (diff == 0.5 && ((prec == 0U ? (unsigned long)whole : frac) & 1U))) {
     ++frac;
     /* handle rollover, e.g. case 0.99 with prec 1 is 1.0 */
     if (frac >= pow10[prec]) {
       frac = 0;
       ++whole;
     }
-  } else if (diff < 0.5) {
-  } else if ((frac == 0U) || (frac & 1U)) {
-    /* if halfway, round up if odd OR if last digit is 0 */
-    ++frac;
   }
-  if (prec == 0U) {
-    diff = value - (double)whole;
-    if ((!(diff < 0.5) || (diff > 0.5)) && (whole & 1)) {
-      /* exactly 0.5 and ODD, then round up:  1.5 -> 2, but 2.5 -> 2 */
-      ++whole;
-    }
-  } else {
-    unsigned int count = prec;
-    /* now do fractional part, as an unsigned number */
-    while (len < PRINTF_FTOA_BUFFER_SIZE) {
-      --count;
-      buf[len++] = (char)(48U + (frac % 10U));
-      if (!(frac /= 10U)) break;
-    }
-    /* add extra 0s */
-    while ((len < PRINTF_FTOA_BUFFER_SIZE) && (count-- > 0U)) {
-      buf[len++] = '0';
-    }
-    if (len < PRINTF_FTOA_BUFFER_SIZE) {
-      /* add decimal dot */
-      buf[len++] = '.';
-    }
+  for (; prec; --prec) {
+    buf[len++] = (char)(48U + (frac % 10U));
+    frac /= 10U;
+    flags |= FLAGS_HASH;
   }
-
+  /* add decimal dot */
+  if (flags & FLAGS_HASH) buf[len++] = '.';
   /* do whole part, number is reversed */
-  while (len < PRINTF_FTOA_BUFFER_SIZE) {
-    buf[len++] = (char)(48 + (whole % 10));
-    if (!(whole /= 10)) break;
-  }
-  if (!(flags & FLAGS_LEFT) && (flags & FLAGS_ZEROPAD)) {
-    if (width && (negative || (flags & (FLAGS_PLUS | FLAGS_SPACE)))) --width;
-    while ((len < width) && (len < PRINTF_FTOA_BUFFER_SIZE)) buf[len++] = '0';
-  }
-  if (len < PRINTF_FTOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+';
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
-  }
+  do buf[len++] = (char)(48 + (whole % 10)); while (whole /= 10);
+  return len;
+}
 
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+/* forward declaration so that _ftoa can switch to exp notation for values > PRINTF_MAX_FLOAT */
+static size_t _etoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags);
+
+/* internal ftoa for fixed decimal floating point */
+static size_t _ftoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags)
+{
+  char buf[PRINTF_FTOA_BUFFER_SIZE], pfx[2];
+  if ((value != value) || (value > DBL_MAX) || (value < -DBL_MAX))
+    return _stoa(out, data, idx, maxlen, value, width, flags);
+  /* fall back to etoa for very large values */
+  if ((value > PRINTF_MAX_FLOAT) || (value < -PRINTF_MAX_FLOAT)) {
+    return _etoa(out, data, idx, maxlen, value, prec, width, flags);
+  }
+  if (!(flags & FLAGS_PRECISION)) prec = PRINTF_DEFAULT_FLOAT_PRECISION;
+  const bool negative = _fneg(value); if (negative) value = -value;
+  pfx[_out_sign(&pfx[0], negative, flags)] = 0;
+  /* limit precision to 9, cause a prec >= 10 can lead to overflow errors */
+  const unsigned int dprec = prec > 9U ? 9U : prec;
+  size_t len = _fdigits(value, dprec, flags, &buf[0]);
+  return _out_num(out, data, idx, maxlen, pfx, 0U, buf, len, prec - dprec, "", width, flags);
 }
 
 /* internal ftoa variant for exponential floating-point type, contributed by Martijn Jasperse <m.jasperse@gmail.com> */
 static size_t _etoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags)
 {
+  char buf[PRINTF_FTOA_BUFFER_SIZE], sfx[8], pfx[2]; unsigned int dprec; size_t len;
   if ((value != value) || (value > DBL_MAX) || (value < -DBL_MAX)) {
-    return _ftoa(out, data, idx, maxlen, value, prec, width, flags);
+    return _stoa(out, data, idx, maxlen, value, width, flags);
   }
-  const bool negative = value < 0; if (negative) value = -value;
   if (!(flags & FLAGS_PRECISION)) prec = PRINTF_DEFAULT_FLOAT_PRECISION;
-
-  /* determine the decimal exponent
-   * based on the algorithm by David Gay (https://www.ampl.com/netlib/fp/dtoa.c) */
-  union { uint64_t U; double F; } conv; conv.F = value;
-  int exp2 = (int)((conv.U >> 52U) & 0x07FFU) - 1023;  /* effectively log2 */
-  conv.U = (conv.U & ((1ULL << 52U) - 1U)) | (1023ULL << 52U);  /* drop the exponent so conv.F is now in [1,2) */
-  /* now approximate log10 from the log2 integer part and an expansion of ln around 1.5 */
-  int expval = (int)(0.1760912590558 + exp2 * 0.301029995663981 + (conv.F - 1.5) * 0.289529654602168);
-  /* now we want to compute 10^expval but we want to be sure it won't overflow */
-  exp2 = (int)(expval * 3.321928094887362 + 0.5);
-  const double z  = expval * 2.302585092994046 - exp2 * 0.6931471805599453;
-  const double z2 = z * z;
-  conv.U = (uint64_t)(exp2 + 1023) << 52U;
-  /* compute exp(z) using continued fractions, see 
-   * https://en.wikipedia.org/wiki/Exponential_function#Continued_fractions_for_ex */
-  conv.F *= 1 + 2 * z / (2 - z + (z2 / (6 + (z2 / (10 + z2 / 14)))));
-  /* correct for rounding errors */
-  if (value < conv.F) { --expval; conv.F /= 10; }
-
-  /* the exponent format is "%+03d" and largest value is "307", so set aside 4-5 characters */
-  unsigned int minwidth = ((expval < 100) && (expval > -100)) ? 4U : 5U;
-
   /* in "%g" mode, "prec" is the number of *significant figures* not decimals */
-  if (flags & FLAGS_ADAPT_EXP) {
-    /* do we want to fall-back to "%f" mode? */
-    if ((value >= 1e-4) && (value < 1e6)) {
-      if ((int)prec > expval) prec = (unsigned)((int)prec - expval - 1);
-      else prec = 0;
-      flags |= FLAGS_PRECISION; /* make sure _ftoa respects precision */
-      /* no characters in exponent */
-      minwidth = 0U; expval = 0;
-    } else {
-      /* we use one sigfig for the whole part */
-      if ((prec > 0) && (flags & FLAGS_PRECISION)) --prec;
-    }
-  }
-
-  unsigned int fwidth = width;
-  if (width > minwidth) { /* we didn't fall-back so subtract the characters required for the exponent */
-    fwidth -= minwidth;
-  } else { /* not enough characters, so go back to default sizing */
-    fwidth = 0U;
-  }
-  if ((flags & FLAGS_LEFT) && minwidth) { /* if we're padding on the right, DON'T pad the floating part */
-    fwidth = 0U;
-  }
-
-  /* rescale the float value */
-  if (expval) value /= conv.F;
-
-  /* output the floating part */
-  const size_t start_idx = idx;
-  idx = _ftoa(out, data, idx, maxlen, negative ? -value : value, prec, fwidth, flags & ~FLAGS_ADAPT_EXP);
-  /* output the exponent part */
-  if (minwidth) {
-    (*out)((flags & FLAGS_UPPERCASE) ? 'E' : 'e', data, idx++, maxlen);
-    idx = _ntoa_long(out, data, idx, maxlen, (expval < 0) ? -expval : expval, expval < 0, 10, 0, minwidth-1, FLAGS_ZEROPAD | FLAGS_PLUS);
-    if (flags & FLAGS_LEFT) { /* right-pad spaces */ 
-      while (idx - start_idx < width) (*out)(' ', data, idx++, maxlen);
-    }
-  }
-
-  return idx;
+  if ((flags & FLAGS_ADAPT_EXP) && prec > 0) --prec;
+  /* limit precision to 9, the rest is zeros */
+  dprec = prec > 9U ? 9U : prec;
+  const double org = value;
+  const bool negative = _fneg(value); if (negative) value = -value;
+  int expval = 0;
+  if (value != 0.0) {
+    /* get subnormals out of the way */
+    int exp10 = 0;
+    if (value < 1e-290) { value *= 1e20; exp10 = -20; }
+    /* determine the decimal exponent
+     * based on the algorithm by David Gay (https://www.ampl.com/netlib/fp/dtoa.c) */
+    union { uint64_t U; double F; } conv; conv.F = value;
+    int exp2 = (int)((conv.U >> 52U) & 0x07FFU) - 1023;  /* effectively log2 */
+    conv.U = (conv.U & ((1ULL << 52U) - 1U)) | (1023ULL << 52U);  /* drop the exponent so conv.F is now in [1,2) */
+    /* now approximate log10 from the log2 integer part and an expansion of ln around 1.5 */
+    expval = (int)(0.1760912590558 + exp2 * 0.301029995663981 + (conv.F - 1.5) * 0.289529654602168);
+    /* rescale the float value by 10^-expval, computed by repeated squaring */
+    double p = 1.0, b = 10.0; int n = expval < 0 ? -expval : expval;
+    for (; n; n >>= 1, b *= b) if (n & 1) p *= b;
+    if (expval < 0) value *= p; else value /= p;
+    /* correct for errors of approximation */
+    while (value < 1.0) { --expval; value *= 10; }
+    expval += exp10;
+    /* correct the exponent if the value is going to be rounded up to 10 */
+    if (value >= 9.0 && (value - 9.0) * pow10[dprec] >= pow10[dprec] - 0.5) { ++expval; value /= 10; }
+  }
+  /* do we want to fall-back to "%f" mode? */
+  if ((flags & FLAGS_ADAPT_EXP) && expval >= -4 && expval <= (int)prec && org >= -PRINTF_MAX_FLOAT && org <= PRINTF_MAX_FLOAT) {
+    flags |= FLAGS_PRECISION; /* make sure _ftoa respects precision */
+    return _ftoa(out, data, idx, maxlen, org, (unsigned)((int)prec - expval), width, flags);
+  }
+  pfx[_out_sign(&pfx[0], negative, flags)] = 0;
+  /* exponent has at least two digits */
+  len = 0U;
+  sfx[len++] = (flags & FLAGS_UPPERCASE) ? 'E' : 'e';
+  sfx[len++] = expval < 0 ? '-' : '+'; 
+  if (expval < 0) expval = -expval;
+  if (expval >= 100) sfx[len++] = (char)(48 + expval / 100);
+  sfx[len++] = (char)(48 + expval / 10 % 10);
+  sfx[len++] = (char)(48 + expval % 10);
+  sfx[len] = 0;
+  len = _fdigits(value, dprec, flags, &buf[0]);
+  return _out_num(out, data, idx, maxlen, pfx, 0U, buf, len, prec - dprec, sfx, width, flags);
 }
 
 /* internal hexadecimal ftoa variant for exponential floating-point type */
 static size_t _atoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags)
 {
+  char buf[PRINTF_ATOA_BUFFER_SIZE], sfx[8], pfx[4]; size_t len;
   if ((value != value) || (value > DBL_MAX) || (value < -DBL_MAX)) {
-    return _ftoa(out, data, idx, maxlen, value, prec, width, flags);
+    return _stoa(out, data, idx, maxlen, value, width, flags);
   }
-  const bool negative = value < 0.0; if (negative) value = -value;
   if (!(flags & FLAGS_PRECISION)) prec = PRINTF_DEFAULT_HEXFL_PRECISION;
   union { uint64_t U; double F; } conv; conv.F = value;
   int exp2 = (int)((conv.U >> 52U) & 0x07FFU);
   uint64_t mantissa = (conv.U & 0xFFFFFFFFFFFFFULL);
-  int mandigits = 13;
-  char buf[PRINTF_ATOA_BUFFER_SIZE];
-  size_t len = 0U; int val, vneg = false;
-  if (exp2 == 0) val = mantissa == 0 ? 0 : -1022; else val = exp2 - 1023;
-  if (val < 0) val = -val, vneg = true;
-  if (len < PRINTF_ATOA_BUFFER_SIZE) do {
-    const char digit = (char)(val % 10);
-    buf[len++] = '0' + digit; val /= 10;
-  } while (val && (len < PRINTF_ATOA_BUFFER_SIZE));
-  if (len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = vneg ? '-' : '+';
-  if (len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = flags & FLAGS_UPPERCASE ? 'P' : 'p';
-  while ((len < PRINTF_FTOA_BUFFER_SIZE) && (prec > PRINTF_DEFAULT_HEXFL_PRECISION)) {
-    buf[len++] = '0';
-    --prec;
-  }
-  size_t rlen = prec < PRINTF_DEFAULT_HEXFL_PRECISION ? PRINTF_DEFAULT_HEXFL_PRECISION - prec : 0;
-  double diff = 0.0; /* [0..16) */
-  if (len < PRINTF_ATOA_BUFFER_SIZE) do {
-    int digit = (int)(mantissa % 16);
-    if (rlen > 0) { /* no output, keep tracking diff */
-      diff = diff/16.0 + digit;
-      --rlen;
-    } else { /* output, absorb diff */
-      if (diff > 8.0 || (diff == 8.0 && (digit & 1))) {
-        if (++digit == 16) {
-          digit = 0; diff = diff / 16.0 + 15;
-        } else { /* diff fully absorbed */
-          diff = 0.0;
-        }
-      } else { /* diff fully absorbed */
-        diff = 0.0;
-      }
-      buf[len++] = digit < 10 ? '0' + digit : (flags & FLAGS_UPPERCASE ? 'A' : 'a') + digit - 10;
-    }
-    mantissa /= 16; --mandigits;
-  } while (mandigits && (len < PRINTF_ATOA_BUFFER_SIZE));
-  if (prec > 0 && len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = '.';
-  if (len < PRINTF_ATOA_BUFFER_SIZE) {
-    int digit = (exp2 == 0) ? 0 : 1;
-    if (diff > 8.0 || (diff == 8.0 && (digit & 1))) ++digit;
-    buf[len++] = '0' + digit;
-  }
-  if (!(flags & FLAGS_UPPERCASE) && (len < PRINTF_ATOA_BUFFER_SIZE)) buf[len++] = 'x';
-  else if (len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = 'X';
-  if (len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = '0';
-  if (len < PRINTF_ATOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+';
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
-  }
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+  unsigned int dprec = prec > PRINTF_DEFAULT_HEXFL_PRECISION ? PRINTF_DEFAULT_HEXFL_PRECISION : prec, i;
+  int val;
+  if (exp2 == 0) val = mantissa == 0 ? 0 : -1022; 
+  else { val = exp2 - 1023; mantissa |= 1ULL << 52U; }
+  len = _out_sign(&pfx[0], _fneg(value), flags);
+  pfx[len++] = '0';
+  pfx[len++] = (flags & FLAGS_UPPERCASE) ? 'X' : 'x';
+  pfx[len] = 0;
+  len = 0U;
+  sfx[len++] = (flags & FLAGS_UPPERCASE) ? 'P' : 'p';
+  sfx[len++] = val < 0 ? '-' : '+';
+  if (val < 0) val = -val;
+  if (val >= 1000) sfx[len++] = (char)(48 + val / 1000);
+  if (val >= 100) sfx[len++] = (char)(48 + val / 100 % 10);
+  if (val >= 10) sfx[len++] = (char)(48 + val / 10 % 10);
+  sfx[len++] = (char)(48 + val % 10);
+  sfx[len] = 0;
+  /* round to nearest even */
+  if (dprec < PRINTF_DEFAULT_HEXFL_PRECISION) {
+    const unsigned int sh = (PRINTF_DEFAULT_HEXFL_PRECISION - dprec) * 4U;
+    const uint64_t rest = mantissa & ((1ULL << sh) - 1U), half = 1ULL << (sh - 1U);
+    mantissa >>= sh;
+    if (rest > half || (rest == half && (mantissa & 1U))) ++mantissa;
+  }
+  len = 0U;
+  for (i = dprec; i; --i) {
+    const int digit = (int)(mantissa & 15U);
+    buf[len++] = digit < 10 ? '0' + digit : (flags & FLAGS_UPPERCASE ? 'A' : 'a') + digit - 10;
+    mantissa >>= 4U;
+  }
+  if (prec > 0U || (flags & FLAGS_HASH)) buf[len++] = '.';
+  buf[len++] = (char)('0' + (int)mantissa);
+  return _out_num(out, data, idx, maxlen, pfx, 0U, buf, len, prec - dprec, sfx, width, flags);
 }
 
 /* internal vsnprintf */
@@ -1464,7 +1414,8 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
         precision = _atoi(&format);
       } else if (*format == '*') {
         const int prec = (int)va_arg(va, int);
-        precision = prec > 0 ? (unsigned int)prec : 0U;
+        if (prec >= 0) precision = (unsigned int)prec;
+        else flags &= ~FLAGS_PRECISION; /* as if it were missing */
         ++format;
       }
     }
@@ -1559,12 +1510,11 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
       } break;
       case 's': {
         const char* p = va_arg(va, char*);
-        unsigned int l = _strnlen_s(p, precision ? precision : (size_t)-1);
-        if (flags & FLAGS_PRECISION) l = (l < precision ? l : precision);
+        unsigned int l = _strnlen_s(p, (flags & FLAGS_PRECISION) ? precision : (size_t)-1);
         if (!(flags & FLAGS_LEFT)) {
           while (l++ < width) (*out)(' ', data, idx++, maxlen);
         }
-        while (*p != 0 && (!(flags & FLAGS_PRECISION) || precision--)) {
+        while ((!(flags & FLAGS_PRECISION) || precision--) && *p != 0) {
           (*out)(*(p++), data, idx++, maxlen);
         }
         if (flags & FLAGS_LEFT) {
@@ -1594,7 +1544,8 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
     }
   }
 
-  (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
+  if (out == &_out_buffer) /* not a part of file output */
+    (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
   return (int)idx; /* # of written chars sans \0 */
 }
 
-- 
2.43.0


From c6d6555f9f7ea3b48dc615f845dde366441210b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 35/80] fix: storing into a bool object in memory converts the
 value to 0 or 1

---
 c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c.c b/c.c
index 7f295ab..01184f2 100644
--- a/c.c
+++ b/c.c
@@ -3360,6 +3360,11 @@ static node_t *compile_asncombo(node_t *prn, node_t *pan, node_t *pctn, tt_t op,
       pvn = compile_cast(prn, pctn, pvn); 
     if (!same_type(acode_type(pan), acode_type(pvn))) 
       pvn = compile_cast(prn, acode_type(pan), pvn); 
+    if (ndlen(pan) > 1 && acode_type(ndref(pan, 1))->ts == TS_PTR) {
+      /* pan's type is promoted; bool should be stored as 0 or 1 */
+      node_t *petn = ndref(acode_type(ndref(pan, 1)), 0); 
+      if (petn->ts == TS_BOOL) pvn = compile_cast(prn, petn, pvn);
+    }
     acode_swapin(pan, pvn);
     asm_instr_load_to_store(&lic, &sic);
     if (post) { /* new val removed, old val remains */
-- 
2.43.0


From c3b617cdd9bc1e5bd93fbd04d21c9fc77244f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 36/80] fix: scanf reads numbers of any length, honours widths
 of inf/nan and reports matching failures as C defines

---
 lib/src/stdio.c | 273 ++++++++++++++++++++----------------------------
 1 file changed, 114 insertions(+), 159 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 7aaacfb..4002217 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -520,11 +520,6 @@ void setbuf(FILE *fp, char *buf)
 /* formatted i/o helpers */
 
 /* todo: use macros? */
-static bool _is_oct_digit(char ch)
-{
-  return (ch >= '0') && (ch <= '7');
-}
-
 static bool _is_dec_digit(char ch)
 {
   return (ch >= '0') && (ch <= '9');
@@ -557,13 +552,8 @@ static unsigned int _atoi(const char** str)
 
 /* formatted input */
 
-/* 'aton' conversion buffer size, this must be big enough to hold one converted
- *  integer number not including sign/prefixes (dynamically created on stack) */
-#define SCANF_ATON_BUFFER_SIZE    32U
-
- /* 'atod' conversion buffer size, this must be big enough to hold one converted
-  * floating-point number including prefixes (dynamically created on stack) */
-#define SCANF_ATOD_BUFFER_SIZE    32U
+/* 'atod' significant digits limit; more than this (plus sticky digit) won't affect the result */
+#define SCANF_ATOD_DIGITS        800U
 
 /* internal size definitions */
 #define SIZE_HH  (-2)
@@ -578,7 +568,7 @@ typedef int(*in_fct_t)(void *data, size_t idx, size_t maxlen, bool get);
 /* internal buffer input */
 static int _in_buffer(void *data, size_t idx, size_t maxlen, bool get)
 {
-  if (idx < maxlen) return ((char*)data)[idx];
+  if (idx < maxlen) return ((unsigned char*)data)[idx];
   return EOF;
 }
 
@@ -612,22 +602,21 @@ static void store_float(void *dst, int size, double f)
   }
 }
 
-/* internal aton for integers */
-static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, int base, int width, size_t *pidx)
+/* internal aton for integers; returns false on matching failure */
+static bool _aton(in_fct_t in, void *data, const size_t maxlen, int base, int width, size_t *pidx, unsigned long long *pres)
 {
-  char buf[SCANF_ATON_BUFFER_SIZE];
-  size_t len = 0, dc = 0; int c; bool gotsign = false;
-  unsigned long long res; char *end;
+  size_t dc = 0; int c, d; bool neg = false, ovf = false;
+  unsigned long long res = 0;
   size_t maxidx = (width == 0) ? SIZE_MAX : *pidx + width;
   
   { /* scan chars up to maxidx */
     if (*pidx >= maxidx) goto stop;
     c = (*in)(data, *pidx, maxlen, false);
     if (c == '-' || c == '+') {
-      gotsign = (c == '-');
-      buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
+      neg = (c == '-');
+      (*in)(data, (*pidx)++, maxlen, true);
     }
-    if (base == 0) { /* determine radix by prefix */
+    if (base == 0 || base == 16) { /* determine radix by prefix/eat optional prefix */
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '0') {
@@ -638,98 +627,51 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
         if (c == 'x' || c == 'X') {
           (*in)(data, (*pidx)++, maxlen, true);
           base = 16; dc = 0;
-        }
-        else base = 8;
-      }
-      else base = 10;
-    } else if (base == 16) { /* eat optional prefix */
-      if (*pidx >= maxidx) goto stop;
-      c = (*in)(data, *pidx, maxlen, false);
-      if (c == '0') {
-        (*in)(data, (*pidx)++, maxlen, true);
-        ++dc;
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c == 'x' || c == 'X') {
-          (*in)(data, (*pidx)++, maxlen, true);
-          dc = 0;
-        }
-      }
+        } else if (base == 0) base = 8;
+      } else if (base == 0) base = 10;
     }
-    switch (base) {
-    case 8:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_oct_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
-    case 10:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_dec_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
-    case 16:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_hex_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
+    while (*pidx < maxidx) {
+      c = (*in)(data, *pidx, maxlen, false);
+      if (c == EOF || !_is_hex_digit(c)) break;
+      d = _is_dec_digit(c) ? c - '0' : tolower(c) - 'a' + 10;
+      if (d >= base) break;
+      (*in)(data, (*pidx)++, maxlen, true);
+      if (res > (~0ULL - d) / base) ovf = true;
+      else res = res * base + d;
+      ++dc;
     }
   stop:;
   }
   if (!dc) { /* no digits */
     errno = EILSEQ;
-    return 0;
+    return false;
   }
-  buf[len] = 0; errno = 0;
-  if (gotsign) res = (unsigned long long)strtoll(buf, &end, base);
-  else res = strtoull(buf, &end, base);
-  if (*end != 0) errno = EILSEQ;
-  return res;
+  if (ovf) {
+    errno = ERANGE;
+    return false;
+  }
+  *pres = neg ? -res : res;
+  return true;
 }
 
-/* internal scanner for special values */
-static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, size_t *pidx)
+/* internal scanner for special values; returns number of chars matched */
+static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, size_t maxidx, size_t *pidx)
 {
-  int n = 0; bool full = true;
-  while (*s) {
+  int n = 0;
+  for (; *s && *pidx < maxidx; ++s, ++n) {
     int c = (*in)(data, *pidx, maxlen, false);
-    if (c == EOF) break;
-    if (*s == '*') {
-      full = false;
-      if (c == ')') { ++s; full = true; }
-      else (*in)(data, (*pidx)++, maxlen, true);
-    } else if (tolower(*s) == tolower(c)) {
-      ++s;
-      (*in)(data, (*pidx)++, maxlen, true);
-    } else break;
-    ++n;
+    if (c == EOF || tolower(*s) != tolower(c)) break;
+    (*in)(data, (*pidx)++, maxlen, true);
   }
-  return full ? n : -1;
+  return n;
 }
 
-/* internal atod for decimal floating point */
-static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, size_t *pidx)
+/* internal atod for floating point; returns false on matching failure */
+static bool _atod(in_fct_t in, void *data, const size_t maxlen, int width, size_t *pidx, double *pres)
 {
-  char buf[SCANF_ATON_BUFFER_SIZE];
-  size_t len = 0, dc = 0; int c; bool hex = false;
-  double res; char *end; bool neg = false;
+  char buf[SCANF_ATOD_DIGITS + 20], *pc = &buf[2]; /* digits with room for prefix and exponent */
+  size_t len = 0, dc = 0; int c, e = 0, exp = 0;
+  bool hex = false, neg = false, dot = false, sticky = false, negexp = false;
   size_t maxidx = (width == 0) ? SIZE_MAX : *pidx + width;
 
   { /* scan chars up to maxidx */
@@ -738,80 +680,96 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     if (c == '-' || c == '+') {
       (*in)(data, (*pidx)++, maxlen, true);
       neg = (c == '-');
-      buf[len++] = c;
     }
     if (*pidx >= maxidx) goto stop;
     c = (*in)(data, *pidx, maxlen, false);
     if (c == 'i' || c == 'I') {
-      int n = _atos(in, data, maxlen, "INFINITY", pidx);
-      if (n == 3 || n == 8) return neg ? -HUGE_VAL : HUGE_VAL;
-      errno = EILSEQ; return 0;
+      int n = _atos(in, data, maxlen, "INFINITY", maxidx, pidx);
+      if (n != 3 && n != 8) goto stop;
+      *pres = neg ? -HUGE_VAL : HUGE_VAL;
+      return true;
     } else if (c == 'n' || c == 'N') {
-      int n = _atos(in, data, maxlen, "NAN(*)", pidx);
-      if (n >= 3) return -HUGE_VAL + HUGE_VAL; /* fixme */
-      errno = EILSEQ; return 0;
+      if (_atos(in, data, maxlen, "NAN", maxidx, pidx) != 3) goto stop;
+      if (_atos(in, data, maxlen, "(", maxidx, pidx) == 1) {
+        while (*pidx < maxidx) {
+          c = (*in)(data, *pidx, maxlen, false);
+          if (c == EOF || !(isalnum(c) || c == '_')) break;
+          (*in)(data, (*pidx)++, maxlen, true);
+        }
+        if (_atos(in, data, maxlen, ")", maxidx, pidx) != 1) goto stop;
+      }
+      *pres = -HUGE_VAL + HUGE_VAL; /* fixme */
+      return true;
     }
-    while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-      if (*pidx >= maxidx) goto stop;
+    if (c == '0') { /* may start hex prefix */
+      (*in)(data, (*pidx)++, maxlen, true);
+      dc = 1;
+      if (*pidx < maxidx) {
+        c = (*in)(data, *pidx, maxlen, false);
+        if (c == 'x' || c == 'X') {
+          (*in)(data, (*pidx)++, maxlen, true);
+          hex = true; dc = 0;
+        }
+      }
+    }
+    /* leave out leading zeroes and the point; digits that don't fit may only affect the rounding */
+    while (*pidx < maxidx) {
       c = (*in)(data, *pidx, maxlen, false);
-      if (c == EOF) break;
-      else if (c == 'x' || c == 'X') {
-        if (!((len == 2 && (buf[0] == '+' || buf[0] == '-') && buf[1] == '0') || 
-              (len == 1 && buf[0] == '0'))) break;
-        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-        hex = true; dc = 0;
-      } else if (hex ? _is_hex_digit(c) : _is_dec_digit(c)) {
-        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
+      if (c == '.' && !dot) {
+        dot = true;
+      } else if (c != EOF && (hex ? _is_hex_digit(c) : _is_dec_digit(c))) {
         ++dc;
+        if (len == 0 && c == '0') {
+          if (dot && exp > -1000000) --exp;
+        } else if (len < SCANF_ATOD_DIGITS) {
+          pc[len++] = (char)c;
+          if (dot) --exp;
+        } else {
+          if (c != '0') sticky = true;
+          if (!dot && exp < 1000000) ++exp;
+        }
       } else break;
+      (*in)(data, (*pidx)++, maxlen, true);
     }
-    if (len < SCANF_ATON_BUFFER_SIZE - 1) {
+    if (!dc || *pidx >= maxidx) goto stop;
+    c = (*in)(data, *pidx, maxlen, false);
+    if (hex ? (c == 'p' || c == 'P')  : (c == 'e' || c == 'E')) {
+      (*in)(data, (*pidx)++, maxlen, true);
+      dc = 0; /* exponent digits are required */
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
-      if (c == '.') {
-        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-        while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-          if (*pidx >= maxidx) goto stop;
-          c = (*in)(data, *pidx, maxlen, false);
-          if (c != EOF && hex ? _is_hex_digit(c) : _is_dec_digit(c)) {
-            buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-            ++dc;
-          } else break;
-        }
+      if (c == '-' || c == '+') {
+        (*in)(data, (*pidx)++, maxlen, true);
+        negexp = (c == '-');
       }
-    }
-    if (len < SCANF_ATON_BUFFER_SIZE - 1) {
-      if (*pidx >= maxidx) goto stop;
-      c = (*in)(data, *pidx, maxlen, false);
-      if (hex ? (c == 'p' || c == 'P')  : (c == 'e' || c == 'E')) {
-        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-        if (len < SCANF_ATON_BUFFER_SIZE - 1) {
-          if (*pidx >= maxidx) goto stop;
-          c = (*in)(data, *pidx, maxlen, false);
-          if (c == '-' || c == '+') {
-            (*in)(data, (*pidx)++, maxlen, true);
-            buf[len++] = c;
-          }
-          while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-            if (*pidx >= maxidx) goto stop;
-            c = (*in)(data, *pidx, maxlen, false);
-            if (c != EOF && _is_dec_digit(c))
-              buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-            else break;
-          }
-        }
+      while (*pidx < maxidx) {
+        c = (*in)(data, *pidx, maxlen, false);
+        if (c == EOF || !_is_dec_digit(c)) break;
+        (*in)(data, (*pidx)++, maxlen, true);
+        if (e < 1000000) e = e * 10 + (c - '0');
+        ++dc;
       }
     }
   stop:;
   }
   if (!dc) { /* no digits */
     errno = EILSEQ;
-    return 0;
+    return false;
   }
-  buf[len] = 0; errno = 0;
-  res = strtod(buf, &end);
-  if (*end != 0) errno = EILSEQ;
-  return res;
+  if (len == 0) { /* all zeroes */
+    *pres = neg ? -0.0 : 0.0;
+    return true;
+  }
+  if (sticky) { pc[len++] = '1'; --exp; }
+  e = (negexp ? -e : e) + (hex ? exp * 4 : exp);
+  pc[len++] = hex ? 'p' : 'e';
+  if (e < 0) { pc[len++] = '-'; e = -e; }
+  for (c = 10000000; c > 0; c /= 10) pc[len++] = (char)('0' + e / c % 10);
+  pc[len] = 0;
+  if (hex) { *--pc = 'x'; *--pc = '0'; }
+  *pres = strtod(pc, NULL);
+  if (neg) *pres = -*pres;
+  return true;
 }
 
 /* internal vsnscanf */
@@ -961,7 +919,8 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
             ++i; (*in)(data, idx++, maxlen, true);
           }
         }
-        if (!i || (t == 'c' && i != width)) 
+        if (!i) return matchc; /* first character does not match */
+        if (t == 'c' && i != width) 
           return matchc ? matchc : EOF;
         if (t != 'c') {
           if (s) s[i] = 0;
@@ -975,9 +934,7 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
           case 'o': base = 8; break;
           case 'd': case 'u': base = 10; break;
         }
-        i = idx; 
-        x = _aton(in, data, maxlen, base, width, &idx);
-        if (idx == i || errno) return matchc; // matchc ? matchc : EOF;
+        if (!_aton(in, data, maxlen, base, width, &idx, &x)) return matchc; // matchc ? matchc : EOF;
         if (t == 'p' && dest != NULL) *(void **)dest = (void *)(uintptr_t)x;
         else store_int(dest, size, x);
         break;
@@ -985,9 +942,7 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
       case 'e': case 'E':
       case 'f': case 'F':
       case 'g': case 'G':
-        i = idx; 
-        y = _atod(in, data, maxlen, width, &idx);
-        if (idx == i || errno) return matchc; // matchc ? matchc : EOF;
+        if (!_atod(in, data, maxlen, width, &idx, &y)) return matchc; // matchc ? matchc : EOF;
         else store_float(dest, size, y);
         break;
     }
-- 
2.43.0


From ff1e902304af7c92b7b9e1a80de0002d1c716c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 37/80] fix: nested block comments in objects no longer read
 freed input or recurse without bound

---
 w.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/w.c b/w.c
index b9196ea..13c92ed 100644
--- a/w.c
+++ b/w.c
@@ -2987,6 +2987,7 @@ static bool lexbc(sws_t *pw, cbuf_t *pcb)
   char *tbase = cbdata(&pw->chars);
   int *pcuri = &pw->curi;
   int endi = (int)cblen(&pw->chars);
+  size_t depth = 1; /* of nested block comments */
   int c;
   while (true) {
     readchar();
@@ -2996,14 +2997,12 @@ static bool lexbc(sws_t *pw, cbuf_t *pcb)
       readchar();
       if (c == EOF) break;
       cbputc(c, pcb);
-      if (c == ';') {
-        if (!lexbc(pw, pcb)) return false;
-      }      
+      if (c == ';') ++depth;
     } else if (c == ';') {
       readchar();
       if (c == EOF) break;
       cbputc(c, pcb);
-      if (c == ')') return true;
+      if (c == ')' && --depth == 0) return true;
     }
   }
   return false;
-- 
2.43.0


From 8c73a823befca1c8aeed6bf3e10aa4b8357b6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 38/80] fix: string literals in constant expressions outside of
 a module are diagnosed

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index 01184f2..8c0a8b8 100644
--- a/c.c
+++ b/c.c
@@ -836,6 +836,7 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
         return true;
       } else if (pn->ts == TS_STRING || pn->ts == TS_LSTRING) {
         sym_t id = pn->name;
+        if (!id && !g_curpwm) return false; /* no module to put literal into */
         if (!id) {
           node_t vn = mknd();
           ts_t ets = (pn->ts == TS_STRING) ? TS_CHAR : TS_INT;
-- 
2.43.0


From cb1c8897ee5b69eec7d732cd3834c0fe232c6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 39/80] fix: utf-8 sequence cut by the end of a line is
 diagnosed, not read past

---
 p.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index 991c4f0..2a861b3 100644
--- a/p.c
+++ b/p.c
@@ -234,9 +234,11 @@ static int fetchline(pws_t *pw, char **ptbase, int *pendi)
       pw->inateof = true;
     } else {
       size_t pos = buflen(pp) + pw->discarded;
-      unsigned long ch = 0; char *ln = line; 
+      unsigned long ch = 0; char *ln = line, *eln = line + strlen(line); 
       while (*ln) {
-        ch = unutf8((unsigned char **)&ln);
+        int c8 = *ln & 0xFF; /* unutf8 should not be allowed to step over \0 */
+        if (c8 >= 0xC0 && eln-ln < (c8 < 0xE0 ? 2 : c8 < 0xF0 ? 3 : 4)) ch = 0;
+        else ch = unutf8((unsigned char **)&ln);
         if (ch == 0 || ch == (unsigned long)-1) {
           int lno = (int)buflen(&pw->lsposs)+1;
           eprintf("%s:%d: utf-8 encoding error", pw->infile, lno);
-- 
2.43.0


From efc4a27638889227de3e149d9a6bbab423f853b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 40/80] fix: initializers in struct/union declarations are
 diagnosed

---
 p.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 2a861b3..0a5c42f 100644
--- a/p.c
+++ b/p.c
@@ -3448,7 +3448,7 @@ static void parse_sru_body(pws_t *pw, ts_t sru, node_t *pn)
   }  
   for (i = 0; i < ndlen(pn); ++i) {
     node_t *pni = ndref(pn, i);
-    if (pni->nt == NT_VARDECL && ndlen(pni) > 1) 
+    if ((pni->nt == NT_VARDECL && ndlen(pni) > 1) || pni->nt == NT_ASSIGN)
       reprintf(pw, pni->startpos, "unexpected initializer in struct/union"); 
   }
   if (!pn->name && !ndlen(pn)) {
-- 
2.43.0


From b16c4b7e35b2d628ac12fbaa9e0a6a4776a6e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 41/80] fix: too deep nesting of source constructs is diagnosed
 instead of overflowing the stack

---
 p.c | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 0a5c42f..437d31b 100644
--- a/p.c
+++ b/p.c
@@ -84,6 +84,7 @@ struct pws {
   char *tokstr;       /* lookahead token string */
   int pos;            /* absolute pos of la token start */
   int cclevel;        /* nesting of active cc blocks */
+  int nesting;        /* nesting of recursive parsers */
 }; /* pws_t */
 
 int pwsid(pws_t *pw)
@@ -138,6 +139,7 @@ pws_t *newpws(const char *infile)
     pw->tokstr = NULL;
     pw->pos = 0;
     pw->cclevel = 0;
+    pw->nesting = 0;
     *(pws_t**)bufnewbk(&g_pwsbuf) = pw;
   }
   return pw;
@@ -2366,6 +2368,19 @@ static bool storage_class_specifier_ahead(pws_t *pw)
 }
 
 /* defined below */
+/* recursion and chains of operators are limited to keep stack use bounded */
+#define MAXNESTING 3000
+static void incnesting(pws_t *pw, int n)
+{
+  if ((pw->nesting += n) > MAXNESTING) 
+    reprintf(pw, peekpos(pw), "nesting is too deep");
+}
+
+static void decnesting(pws_t *pw, int n)
+{
+  pw->nesting -= n;
+}
+
 static void parse_expr(pws_t *pw, node_t *pn);
 static void parse_asm_code(pws_t *pw, node_t *pn, node_t *ptn);
 static void parse_cast_expr(pws_t *pw, node_t *pn);
@@ -2842,11 +2857,13 @@ static bool postfix_operator_ahead(pws_t *pw)
 
 static void parse_postfix_expr(pws_t *pw, node_t *pn)
 {
+  int n = 0;
   parse_concat_expr(pw, pn);
   /* cast type (t) can't be postfixed */
   if (pn->nt == NT_TYPE) return;
   /* wrap pn into postfix operators */
   while (postfix_operator_ahead(pw)) {
+    incnesting(pw, 1), ++n;
     switch (pw->ctk) {
       case TT_LBRK: {
         node_t nd = mknd();
@@ -2882,6 +2899,7 @@ static void parse_postfix_expr(pws_t *pw, node_t *pn)
       default: assert(false);
     }  
   }
+  decnesting(pw, n);
 }
  
 static void parse_unary_expr(pws_t *pw, node_t *pn)
@@ -3217,6 +3235,7 @@ void patch_display_array_sizes(node_t *psn, const node_t *ptn)
 
 static void parse_cast_expr(pws_t *pw, node_t *pn)
 {
+  incnesting(pw, 1);
   parse_unary_expr(pw, pn);
   if (pn->nt == NT_TYPE) {
     node_t nd = mknd();
@@ -3239,6 +3258,7 @@ static void parse_cast_expr(pws_t *pw, node_t *pn)
     }
     ndfini(&nd);
   }
+  decnesting(pw, 1);
 }
 
 static tt_t getop(pws_t *pw, int deft)
@@ -3262,7 +3282,7 @@ static tt_t getop(pws_t *pw, int deft)
 
 static void parse_binary_expr(pws_t *pw, node_t *pn, int deft)
 {
-  tt_t op;
+  tt_t op; int n = 0;
   switch (deft) {
     case 'm': parse_cast_expr(pw, pn); break;
     case 'a': parse_binary_expr(pw, pn, 'm'); break;
@@ -3278,6 +3298,7 @@ static void parse_binary_expr(pws_t *pw, node_t *pn, int deft)
   }
   while ((op = getop(pw, deft)) != TT_EOF) {
     node_t nd = mknd();
+    incnesting(pw, 1), ++n;
     switch (deft) {
       case 'm': parse_cast_expr(pw, &nd); break;
       case 'a': parse_binary_expr(pw, &nd, 'm'); break;
@@ -3294,10 +3315,12 @@ static void parse_binary_expr(pws_t *pw, node_t *pn, int deft)
     wrap_binary(pn, op, &nd);
     ndfini(&nd);
   }
+  decnesting(pw, n);
 }
 
 static void parse_conditional_expr(pws_t *pw, node_t *pn)
 {
+  incnesting(pw, 1);
   parse_binary_expr(pw, pn, 'd');
   if (peekt(pw) == TT_QMARK) {
     node_t ndt = mknd(), ndf = mknd();
@@ -3308,10 +3331,12 @@ static void parse_conditional_expr(pws_t *pw, node_t *pn)
     wrap_conditional(pn, &ndt, &ndf);
     ndfini(&ndt), ndfini(&ndf);
   }
+  decnesting(pw, 1);
 }
 
 static void parse_assignment_expr(pws_t *pw, node_t *pn)
 {
+  incnesting(pw, 1);
   parse_conditional_expr(pw, pn);
   switch (peekt(pw)) {
     case TT_ASN:      case TT_AND_ASN:  case TT_OR_ASN:
@@ -3326,18 +3351,22 @@ static void parse_assignment_expr(pws_t *pw, node_t *pn)
     }
     default:;
   }
+  decnesting(pw, 1);
 }
 
 static void parse_expr(pws_t *pw, node_t *pn)
 {
+  int n = 0;
   parse_assignment_expr(pw, pn);
   while (peekt(pw) == TT_COMMA) {
     node_t nd = mknd(); 
+    incnesting(pw, 1), ++n;
     dropt(pw);
     parse_assignment_expr(pw, &nd);
     wrap_comma(pn, &nd);
     ndfini(&nd);
   }
+  decnesting(pw, n);
 }
 
 /* fill pn with definition of typedef'd type tn */
@@ -3433,6 +3462,7 @@ static void parse_simd_body(pws_t *pw, node_t *pn)
 static void parse_sru_body(pws_t *pw, ts_t sru, node_t *pn)
 {
   size_t i;
+  incnesting(pw, 3);
   ndset(pn, NT_TYPE, pw->id, peekpos(pw));
   pn->ts = sru;
   if (peekt(pw) == TT_IDENTIFIER) pn->name = getid(pw);
@@ -3466,6 +3496,7 @@ static void parse_sru_body(pws_t *pw, ts_t sru, node_t *pn)
       ndcpy(ndbnewbk(&g_nodes), pn);
     }
   }
+  decnesting(pw, 3);
 }
 
 /* base types are limited to scalars/named types */
@@ -3559,8 +3590,10 @@ static void parse_primary_declarator(pws_t *pw, node_t *pn)
 
 static void parse_postfix_declarator(pws_t *pw, node_t *pn)
 {
+  int n = 0;
   parse_primary_declarator(pw, pn);
   while (postfix_operator_ahead(pw)) {
+    incnesting(pw, 1), ++n;
     switch (pw->ctk) {
       case TT_LBRK: {
         node_t nd = mknd();
@@ -3596,10 +3629,12 @@ static void parse_postfix_declarator(pws_t *pw, node_t *pn)
         reprintf(pw, pw->pos, "valid declarator postfix expected");    
     }
   }
+  decnesting(pw, n);
 }
 
 static void parse_unary_declarator(pws_t *pw, node_t *pn)
 {
+  incnesting(pw, 1);
   { retry: switch (peekt(pw)) {
       case TT_CONST_KW: case TT_VOLATILE_KW: {
         dropt(pw); /* allowed but ignored */
@@ -3615,6 +3650,7 @@ static void parse_unary_declarator(pws_t *pw, node_t *pn)
       } break;
     }
   }
+  decnesting(pw, 1);
 }
 
 static sym_t invert_declarator(node_t *prn, node_t *ptn)
@@ -3668,6 +3704,7 @@ static sym_t parse_declarator(pws_t *pw, node_t *ptn)
 
 static void parse_initializer(pws_t *pw, node_t *pn)
 {
+  incnesting(pw, 1);
   if (peekt(pw) == TT_LBRC) {
     ndset(pn, NT_DISPLAY, pw->id, peekpos(pw));
     ndinsbk(pn, NT_TYPE); /* placeholder TS_VOID type */
@@ -3680,6 +3717,7 @@ static void parse_initializer(pws_t *pw, node_t *pn)
   } else {
     parse_assignment_expr(pw, pn);
   }
+  decnesting(pw, 1);
 }
 
 static void parse_init_declarator(pws_t *pw, sc_t sc, const node_t *ptn, ndbuf_t *pnb)
@@ -3763,6 +3801,7 @@ static void parse_switch_clause(pws_t *pw, node_t *pn)
 
 static void parse_stmt(pws_t *pw, node_t *pn)
 {
+  incnesting(pw, 3);
   switch (peekt(pw)) {
     case TT_SEMICOLON: {
       ndset(pn, NT_NULL, pw->id, pw->pos);
@@ -3891,6 +3930,7 @@ static void parse_stmt(pws_t *pw, node_t *pn)
       expect(pw, TT_SEMICOLON, ";");
     } break;
   }
+  decnesting(pw, 3);
 }
 
 static void parse_top_decl(pws_t *pw, node_t *pn)
-- 
2.43.0


From b079bc8b94e2165786e7160abfa5ca57efb5b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:56 +0000
Subject: [PATCH 42/80] fix: local arrays of unspecified size are diagnosed
 with their location

---
 c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c.c b/c.c
index 8c0a8b8..2abba96 100644
--- a/c.c
+++ b/c.c
@@ -738,6 +738,8 @@ void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign,
       if (ndlen(ptn) == 2) {
         const node_t *petn = ndcref(ptn, 0), *pcn = ndcref(ptn, 1); 
         int count = 0;
+        if (pcn->nt == NT_NULL) /* no location of its own */
+          n2eprintf(ptn, prn, "can't allocate/measure data for arrays of unspecified size");
         /* fixme: eval may need to see local vars, so prib is needed */
         if (!arithmetic_eval_to_count((node_t*)pcn, NULL, &count) || count <= 0)
           n2eprintf(pcn, prn, "can't allocate/measure data for arrays of nonconstant/nonpositive size");
-- 
2.43.0


From 9184589a8705b5c92328576ae28d3146db020bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 43/80] fix: directives are recognized in skipped conditional
 blocks whatever precedes them on or before the line

---
 p.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/p.c b/p.c
index 437d31b..5094b6e 100644
--- a/p.c
+++ b/p.c
@@ -4170,7 +4170,7 @@ static bool parse_cc_if_directive(pws_t *pw)
   } else {
     expect(pw, TT_IF_KW, "if");
     cnd = parse_cc_cond(pw);
-    dropt(pw); /* eat \n token! */
+    if (cnd) dropt(pw); /* eat \n token! */
   }
   return cnd;
 }
@@ -4183,19 +4183,20 @@ static bool parse_cc_inactive(pws_t *pw, bool gotactive)
     switch (peekt_ws(pw)) { /* raw peek */
       case TT_EOF:
         if (pw->inateof) reprintf(pw, pw->pos, "missing #endif"); /* real eof */
-        else if (pw->curi < (int)cblen(&pw->chars)) pw->curi += 1; /* try to step over it */
-        else reprintf(pw, pw->pos, "can't skip token inside inactive cc block");
+        pw->curi = pw->pos - (int)pw->discarded + 1; /* step over its first char */
         bol = false; dropt(pw); continue;
-      case TT_WHITESPACE:
-        bol = (pw->tokstr[0] == '\n'); dropt(pw); continue;
+      case TT_WHITESPACE: /* directives can be preceded by spaces and comments */
+        if (pw->tokstr[0] == '\n') bol = true; 
+        dropt(pw); continue;
       case TT_HASH:
         if (bol) {
-          int startpos = pw->pos;
           dropt(pw);
+          while (peekt_ws(pw) == TT_WHITESPACE && pw->tokstr[0] != '\n') dropt(pw);
+          if (peekt_ws(pw) == TT_WHITESPACE || peekt_ws(pw) == TT_EOF) continue; /* null directive */
           if (ahead(pw, "if") || ahead(pw, "ifdef") || ahead(pw, "ifndef")) {
             ++level; 
           } else if (ahead(pw, "elif")) {
-            if (!level && !gotactive) { dropt(pw); if (parse_cc_cond(pw)) { dropt(pw); return true; } }
+            if (!level && !gotactive) { dropt(pw); if (parse_cc_cond(pw)) { dropt(pw); return true; } bol = false; continue; }
           } else if (ahead(pw, "else")) {
             if (!level && !gotactive) { dropt(pw); return true; }
           } else if (ahead(pw, "endif")) {
-- 
2.43.0


From e544e9043dff8e319a8eff410f6e1469b838808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 44/80] fix: line splices join lines in the middle of tokens
 and comments

---
 p.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p.c b/p.c
index 5094b6e..44b20c0 100644
--- a/p.c
+++ b/p.c
@@ -226,11 +226,11 @@ static char *recallline(pws_t *pw, int lno, cbuf_t *pcb)
   return cbdata(pcb);
 }
 
-/* try to get new line of input so parsing can continue */
+/* try to get new line(s) of input so parsing can continue; return next char or EOF */
 static int fetchline(pws_t *pw, char **ptbase, int *pendi)
 {
   cbuf_t *pp = &pw->chars; int c = EOF;
-  if (!pw->inateof) {
+  while (c == EOF && !pw->inateof) {
     char *line = (*pw->getlb)(&pw->incb, pw->input);
     if (!line) {
       pw->inateof = true;
@@ -249,10 +249,11 @@ static int fetchline(pws_t *pw, char **ptbase, int *pendi)
       cbputs(line, pp); 
       if (ch == '\\') pp->fill -= 1; /* c preprocessor-like behavior */
       else cbputc('\n', pp); /* normal line not ending in backslash */
-      if (c == EOF) c = '\n';
       *(size_t*)bufnewbk(&pw->lsposs) = pos;
       *ptbase = cbdata(pp);
       *pendi = (int)cblen(pp);
+      /* no new chars if it was just a line splice */
+      if (pw->curi < *pendi) c = (*ptbase)[pw->curi++];
     }
   }
   return c;  
-- 
2.43.0


From ce3b8b8581a51981a92da497d9192cf111d86f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 45/80] fix: objects with unbalanced blocks or unaligned data
 are diagnosed instead of tripping asserts

---
 w.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/w.c b/w.c
index 13c92ed..3701d5a 100644
--- a/w.c
+++ b/w.c
@@ -3594,6 +3594,8 @@ static void parse_modulefield(sws_t *pw, wat_module_t* pm)
     }
     if (peekt(pw) == WT_KEYWORD && strprf(pw->tokstr, "align=") != NULL) {
       pd->align = (int)parse_align(pw);
+    } else if (!g_watexec) {
+      seprintf(pw, "missing align= argument");
     }
     if (peekt(pw) == WT_STRING) {
       scan_string(pw, pw->tokstr, &pd->data);
@@ -4381,8 +4383,10 @@ static void wat_to_wasm_code(wasm_module_t *pbm, size_t parc, vtbuf_t *pltb, icb
     switch (instr_sig(psc->in)) {
       case INSIG_NONE: /* end, ... */ {
         if (psc->in == IN_END) {
-          sym_t *pl = bufpopbk(&lbb);
-          if (psc->id) assert(*pl == psc->id);
+          sym_t *pl;
+          if (buflen(&lbb) == 0) eprintf("unexpected end of block in function code");
+          pl = bufpopbk(&lbb);
+          if (psc->id && *pl != psc->id) eprintf("mismatched label $%s at the end of block", symname(psc->id));
         }
       } break;
       case INSIG_BT: /* block, loop, if */ {
@@ -4440,6 +4444,7 @@ static void wat_to_wasm_code(wasm_module_t *pbm, size_t parc, vtbuf_t *pltb, icb
         assert(false);     
     }
   }
+  if (buflen(&lbb) != 0) eprintf("missing end of block in function code");
   icbnewbk(pdcb)->in = IN_END;
   buffini(&lbb);
 }
-- 
2.43.0


From 6715f45161bff713eeb6f1fd17d9d5c0a9c3bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 46/80] fix: vertical tab is white space

---
 p.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index 44b20c0..5b3b6ff 100644
--- a/p.c
+++ b/p.c
@@ -818,7 +818,7 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
       } else if (c == '/') {
         cbputc(c, pcb);
         state = 2; continue;
-      } else if (c == '\t' || c == '\f' || c == ' ') {
+      } else if (c == '\t' || c == '\f' || c == '\v' || c == ' ') {
         cbputc(c, pcb);
         state = 1; continue;
       } else if (c == '\r') {
@@ -841,7 +841,7 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
       readchar();
       if (c == EOF) {
         return TT_WHITESPACE;
-      } else if (c == '\t' || c == '\f' || c == ' ') {
+      } else if (c == '\t' || c == '\f' || c == '\v' || c == ' ') {
         cbputc(c, pcb);
         state = 1; continue;
       } else {
-- 
2.43.0


From 59c3f8f2f7e6d4b3d51f95125abc23013e31ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 47/80] fix: labels can be followed by white space

---
 p.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 5b3b6ff..0091b34 100644
--- a/p.c
+++ b/p.c
@@ -1841,6 +1841,27 @@ static int peekc(pws_t *pw)
   return cbdata(&pw->chars)[pw->curi];
 } 
 
+/* check if ':' is next after current token, white space, and comments */
+static bool peekcolon(pws_t *pw)
+{
+  int i = pw->curi, savei = pw->curi, cmt = 0; /* cmt: 0, '/', or '*' */
+  bool res = false;
+  while (true) {
+    char *s; int endi = (int)cblen(&pw->chars);
+    if (i >= endi) { /* have to look at the next line(s) */
+      pw->curi = endi;
+      if (fetchline(pw, &s, &endi) == EOF) { pw->curi = savei; break; }
+      pw->curi = savei;
+    }
+    s = cbdata(&pw->chars) + i++; 
+    if (cmt == '/') { if (*s == '\n') cmt = 0; }
+    else if (cmt == '*') { if (s[0] == '*' && s[1] == '/') cmt = 0, ++i; }
+    else if (s[0] == '/' && (s[1] == '/' || s[1] == '*')) cmt = s[1], ++i;
+    else if (*s != ' ' && *s != '\t' && *s != '\f' && *s != '\v' && *s != '\r' && *s != '\n') { res = *s == ':'; break; }
+  }
+  return res;
+}
+
 static int peekpos(pws_t *pw)
 {
   peekt(pw);
@@ -3814,7 +3835,7 @@ static void parse_stmt(pws_t *pw, node_t *pn)
       while (peekt(pw) != TT_RBRC) {
         if (peekt(pw) == TT_TYPEDEF_KW) {
           reprintf(pw, pw->pos, "block-level typedef declarations are not supported");  
-        } else if (peekt(pw) == TT_IDENTIFIER && peekc(pw) == ':') {
+        } else if (peekt(pw) == TT_IDENTIFIER && peekcolon(pw)) {
           sym_t l; int startpos = peekpos(pw);
           l = getid(pw); expect(pw, TT_COLON, ":");
           if (peekt(pw) == TT_SEMICOLON) dropt(pw); /* optional, as in C23 */
-- 
2.43.0


From 0e82d4e142e428c17002b265248515173fada2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 48/80] fix: comment starts and quotes in character constants
 are skipped with them in inactive blocks

---
 p.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 0091b34..8784437 100644
--- a/p.c
+++ b/p.c
@@ -4205,7 +4205,15 @@ static bool parse_cc_inactive(pws_t *pw, bool gotactive)
     switch (peekt_ws(pw)) { /* raw peek */
       case TT_EOF:
         if (pw->inateof) reprintf(pw, pw->pos, "missing #endif"); /* real eof */
-        pw->curi = pw->pos - (int)pw->discarded + 1; /* step over its first char */
+        { /* step over a literal wcpl can't represent, or over a single char */
+          char *s0 = cbdata(&pw->chars) + (pw->pos - (int)pw->discarded), *s = s0; int q;
+          if (*s == 'L') ++s;
+          if ((q = *s++) == '\'' || q == '\"') {
+            while (*s != '\0' && *s != '\n' && *s != q) s += (*s == '\\' && s[1] != '\n') ? 2 : 1;
+            if (*s != q) s = s0;
+          } else s = s0;
+          pw->curi = (int)(s - cbdata(&pw->chars)) + 1; 
+        }
         bol = false; dropt(pw); continue;
       case TT_WHITESPACE: /* directives can be preceded by spaces and comments */
         if (pw->tokstr[0] == '\n') bol = true; 
-- 
2.43.0


From 775e49e5dc04bca769f75d19ec4e3aa2f38deddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 49/80] fix: break and continue in a do-while (0) macro leave
 the macro's own loop

---
 p.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 8784437..4356179 100644
--- a/p.c
+++ b/p.c
@@ -4028,6 +4028,23 @@ static bool parse_pragma_directive(pws_t *pw, int startpos)
   return true; 
 }
 
+/* check if statement contains break/continue not bound by its own loops/switches */
+static bool has_loop_exit(node_t *pn, bool inswitch)
+{
+  size_t i;
+  switch (pn->nt) {
+    case NT_BREAK: return !inswitch;
+    case NT_CONTINUE: return true;
+    case NT_WHILE: case NT_DO: case NT_FOR: return false;
+    case NT_SWITCH: inswitch = true; break;
+    default: break;
+  }
+  for (i = 0; i < ndlen(pn); ++i) {
+    if (has_loop_exit(ndref(pn, i), inswitch)) return true;
+  }
+  return false;
+}
+
 static void parse_define_directive(pws_t *pw, int startpos)
 {
   if (peekt(pw) == TT_IDENTIFIER && streql(pw->tokstr, "define")) {
@@ -4064,12 +4081,20 @@ static void parse_define_directive(pws_t *pw, int startpos)
     }  
     /* righ-hand-side expression or do-block-while-0 */    
     if (peekt(pw) == TT_DO_KW) {
-      dropt(pw); parse_stmt(pw, ndnewbk(pn));
+      node_t *pdn; int dopos = pw->pos;
+      dropt(pw); pdn = ndnewbk(pn); parse_stmt(pw, pdn);
       expect(pw, TT_WHILE_KW, "while");
       expect(pw, TT_LPAR, "(");
       if (peekt(pw) == TT_INT && streql(pw->tokstr, "0")) dropt(pw);
       else reprintf(pw, pw->pos, "0 is expected");
       expect(pw, TT_RPAR, ")");
+      if (has_loop_exit(pdn, false)) { /* leaves this very do, not the loop it is used in */
+        node_t nd = mknd();
+        ndset(&nd, NT_DO, pw->id, dopos);
+        ndswap(ndnewbk(&nd), pdn);
+        ndsetilit(ndnewbk(&nd), TS_INT, 0);
+        ndswap(&nd, pdn); ndfini(&nd);
+      }
     } else { 
       parse_primary_expr(pw, ndnewbk(pn));
     }
-- 
2.43.0


From ce24c779d568d1bb94299feb38dd456c8ff62941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 50/80] fix: countof(...) in macros counts only the macro's own
 overflow arguments

---
 p.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index 4356179..7eba8dc 100644
--- a/p.c
+++ b/p.c
@@ -2456,7 +2456,7 @@ void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
     }
   } else if (node_is_etc(pn) && no_etcpars(ppars)) {
     if (etcbound) neprintf(pn, "... or __VA_ARGS__ outside of function call argument list");
-  } else if (node_is_countofetc(pn) && no_etcpars(ppars)) {
+  } else if (etcbound && node_is_countofetc(pn) && no_etcpars(ppars)) {
     size_t pcnt = ndblen(ppars), ecnt = pcnt-(n-1); 
     node_t nd = mknd(); assert(pcnt >= n-1);
     ndset(&nd, NT_LITERAL, pn->pwsid, pn->startpos);
@@ -2468,7 +2468,7 @@ void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
       assert(pcnt >= n-1);
       for (i = 1; i+1 < ndlen(pn); i += 2) {
         node_t *pcn = ndref(pn, i), *pen = ndref(pn, i+1);
-        if (pcn->nt == NT_NULL || (pcn->nt == NT_LITERAL && pcn->ts == TS_INT && pcn->val.i == (int)pcnt)) {
+        if (pcn->nt == NT_NULL || (pcn->nt == NT_LITERAL && pcn->ts == TS_INT && pcn->val.i == (int)ecnt)) {
           patch_macro_template(pids, ppars, pen);
           presn = pen; break;
         }
-- 
2.43.0


From 08eb734b89add59c8995ec67f0d06b0fffa8ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 51/80] fix: octal and hexadecimal labels in dispatch on
 countof(...)

---
 p.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 7eba8dc..803657c 100644
--- a/p.c
+++ b/p.c
@@ -2795,7 +2795,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
                   reprintf(pw, startpos, "unexpected identifier in abstract type specifier");
               } else {
                 long n; errno = 0;
-                if (peekt(pw) == TT_INT && (n = atol(pw->tokstr)) >= 0 && (n <= INT_MAX) && !errno) {
+                if (peekt(pw) == TT_INT && (n = strtol(pw->tokstr, NULL, 0)) >= 0 && (n <= INT_MAX) && !errno) {
                   ptn->nt = NT_LITERAL; ptn->ts = TS_INT; ptn->val.i = n;
                   dropt(pw);
                 } else expect(pw, TT_INT, "nonnegative integer literal");
-- 
2.43.0


From 8b84d813771fc23e52c19eb8e7f479493e080134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 52/80] fix: comments before the colon of a label can be
 spliced

---
 p.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/p.c b/p.c
index 803657c..d723d90 100644
--- a/p.c
+++ b/p.c
@@ -1847,17 +1847,18 @@ static bool peekcolon(pws_t *pw)
   int i = pw->curi, savei = pw->curi, cmt = 0; /* cmt: 0, '/', or '*' */
   bool res = false;
   while (true) {
-    char *s; int endi = (int)cblen(&pw->chars);
-    if (i >= endi) { /* have to look at the next line(s) */
+    char *s; int endi = (int)cblen(&pw->chars), c, nc;
+    if (i+1 >= endi) { /* have to look at the next line(s) */
       pw->curi = endi;
-      if (fetchline(pw, &s, &endi) == EOF) { pw->curi = savei; break; }
-      pw->curi = savei;
+      fetchline(pw, &s, &endi);
+      pw->curi = savei; endi = (int)cblen(&pw->chars);
     }
-    s = cbdata(&pw->chars) + i++; 
-    if (cmt == '/') { if (*s == '\n') cmt = 0; }
-    else if (cmt == '*') { if (s[0] == '*' && s[1] == '/') cmt = 0, ++i; }
-    else if (s[0] == '/' && (s[1] == '/' || s[1] == '*')) cmt = s[1], ++i;
-    else if (*s != ' ' && *s != '\t' && *s != '\f' && *s != '\v' && *s != '\r' && *s != '\n') { res = *s == ':'; break; }
+    if (i >= endi) break;
+    s = cbdata(&pw->chars) + i++; c = s[0]; nc = i < endi ? s[1] : EOF;
+    if (cmt == '/') { if (c == '\n') cmt = 0; }
+    else if (cmt == '*') { if (c == '*' && nc == '/') cmt = 0, ++i; }
+    else if (c == '/' && (nc == '/' || nc == '*')) cmt = nc, ++i;
+    else if (c != ' ' && c != '\t' && c != '\f' && c != '\v' && c != '\r' && c != '\n') { res = c == ':'; break; }
   }
   return res;
 }
-- 
2.43.0


From 8341663e20b00bef7e6917c8020dfa335650c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 53/80] fix: constant initialisers of locals may use unary
 operators

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 2abba96..1bd3648 100644
--- a/c.c
+++ b/c.c
@@ -1667,8 +1667,9 @@ static bool static_display(node_t *pn, buf_t *prib)
           sym_t mod; const node_t *ptn = lookup_var_type(pn->name, prib, &mod);
           return ptn && ts_bulk(ptn->ts); /* ok if bulk */
         }
+        return false;
       }
-      return false;
+      return arithmetic_constant_expr(pn);
     } break;
     case NT_CAST: {
       ts_t tc;
-- 
2.43.0


From 495ba2dd0e35c10936dad90013c710d76b60cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 54/80] fix: calendar and strftime: full year range,
 normalisation in mktime, sizes, %c %p %w %x %X

---
 lib/src/time.c | 101 ++++++++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 43 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 29ebb80..a1b9db0 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -14,9 +14,9 @@
 #define DAYS_PER_100Y (365*100 + 24)
 #define DAYS_PER_4Y   (365*4   + 1)
 #define DAYS_PER_WEEK 7
-/* year range is from 1901 to 2038, so no century can occur which is not a leap year
- * #define is_leap(y)  ((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0)) */
-#define is_leap(y)  ((y) % 4 == 0)
+/* days from the first day of year 0 to 1970-01-01 */
+#define DAYS_TO_1970  719528
+#define is_leap(y)  ((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0))
 
 static int days_in_month[] = {
   31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29
@@ -52,7 +52,7 @@ static const char *mon_name[12] = {
 
 static const char *mon_full_name[] = { 
   "January", "February", "March", "April", "May", "June", 
-  "July", "August", "Sepember", "October", "November", "December" 
+  "July", "August", "September", "October", "November", "December" 
 };
 
 /* hidden state for non-reentrant functions */
@@ -259,26 +259,39 @@ void tzset(void)
 
 time_t mktime(struct tm *tm)
 {
-  long tyears, tdays, leaps, utc_hrs;
-  int leap_year;
+  long long years, cycles, days, t;
+  int mon; struct tm res;
 
   tzset();
-  leap_year = is_leap(tm->tm_year + 1900);
-  tyears = tm->tm_year - 70;
-  leaps = (tyears + 2) / 4;
-  if (tyears < 0) {
-    leaps = (tyears - 2) / 4;
-    if (leap_year && tm->tm_mon > 1) ++leaps;
-  } else {
-    leaps = (tyears + 2) / 4; /* no of next two lines until year 2100. */
-    if (leap_year && (tm->tm_mon == 0 || tm->tm_mon == 1)) --leaps;
+  /* bring month to 0..11, year to 0..399 of its 400-year cycle */
+  years = (long long)tm->tm_year + 1900 + tm->tm_mon / 12;
+  mon = tm->tm_mon % 12;
+  if (mon < 0) {
+    mon += 12;
+    --years;
+  }
+  cycles = years / 400;
+  years %= 400;
+  if (years < 0) {
+    years += 400;
+    --cycles;
   }
-  tdays = (tm->tm_mon > 0) ? mon_days[tm->tm_mon - 1] : 0;
-  tdays += tm->tm_mday - 1; /* days of month passed. */
-  tdays += (tyears * 365) + leaps;
-  utc_hrs = tm->tm_hour;
 
-  return (tdays * 86400L) + (utc_hrs * 3600L) + ((long)tm->tm_min * 60L) + (long)tm->tm_sec + timezone;
+  days = cycles * DAYS_PER_400Y - DAYS_TO_1970;
+  days += years * 365;
+  if (years > 0) days += (years - 1) / 4 - (years - 1) / 100 + 1; /* leap years passed. */
+  if (mon > 0) days += mon_days[mon - 1];
+  if (mon > 1 && is_leap(years)) days += 1;
+  days += (long long)tm->tm_mday - 1; /* days of month passed. */
+
+  t = days * 86400LL + tm->tm_hour * 3600LL + tm->tm_min * 60LL + tm->tm_sec;
+  if (secs_to_tm(t, &res) < 0) {
+    errno = EOVERFLOW;
+    return (time_t)-1LL;
+  }
+  res.tm_isdst = 0;
+  *tm = res;
+  return (time_t)(t + timezone);
 }
 
 char *asctime_r(const struct tm *ptm, char *buf)
@@ -381,7 +394,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           }
           break;
         case 'c':
-          strftime(addval, 80, "%a %b %d %x %Y", tp);
+          strftime(addval, 80, "%a %b %d %X %Y", tp);
           break;
         case 'd':
           addval[0] = '0' + (tp->tm_mday / 10);
@@ -418,7 +431,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'p':
-          if (tp->tm_hour > 0 && tp->tm_hour < 13) addstr = "AM";
+          if (tp->tm_hour < 12) addstr = "AM";
           else addstr = "PM";
           break;
         case 'S':
@@ -434,27 +447,25 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'w':
-          addval[0] = '0' + (tp->tm_wday / 10);
-          addval[1] = '0' + (tp->tm_wday % 10);
-          addval[2] = '\0';
+          addval[0] = '0' + tp->tm_wday;
+          addval[1] = '\0';
           break;
         case 'X':
-          strftime(addval, 80, "%d.%m.%Y", tp);
+          strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'x':
-          strftime(addval, 80, "%H:%M:%S", tp);
+          strftime(addval, 80, "%d.%m.%Y", tp);
           break;
-        case 'y':
-          addval[0] = '0' + ((tp->tm_year % 100) / 10);
-          addval[1] = '0' + ((tp->tm_year % 100) % 10);
-          addval[2] = '\0';
+        case 'y': {
+            int year = tp->tm_year % 100;
+            if (year < 0) year += 100;
+            addval[0] = '0' + (year / 10);
+            addval[1] = '0' + (year % 10);
+            addval[2] = '\0';
+          }
           break;
         case 'Y':
-          addval[0] = '0' + ((tp->tm_year + 1900) / 1000);
-          addval[1] = '0' + (((tp->tm_year + 1900) % 1000) / 100);
-          addval[2] = '0' + (((tp->tm_year + 1900) % 100) / 10);
-          addval[3] = '0' + ((tp->tm_year + 1900) % 10);
-          addval[4] = '\0';
+          snprintf(addval, 80, "%.4lld", (long long)tp->tm_year + 1900);
           break;
         case 'Z':
           addstr = tzname[tp->tm_isdst > 0];
@@ -462,6 +473,10 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
         case '%':
           addstr = "%";
           break;
+        case '\0': /* lone % at the end */
+          addstr = "%";
+          --fmt;
+          break;
         default:
           addval[0] = '%';
           addval[1] = *fmt;
@@ -470,19 +485,19 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
       }
       if (addstr == NULL) addstr = addval;
       if (*addstr != '\0') {
-        size_t len = (addlen < 0) ? strlen(addstr) : addlen;
-        if (count + len > smax) len = smax - count;
-        strncpy(ptr, addstr, len);
+        size_t len = (addlen < 0) ? strlen(addstr) : (size_t)addlen;
+        if (len > smax - count) return 0;
+        memcpy(ptr, addstr, len);
         ptr += len;
         count += len;
       }
       ++fmt;
     } else {
-      if (count <= smax) *ptr++ = *fmt;
-      ++fmt;
+      if (count == smax) return 0;
+      *ptr++ = *fmt++;
+      ++count;
     }
   } while (fmt[-1] != '\0');
 
-  if (count > smax) count = 0;
-  return count;
+  return count - 1; /* terminating 0 is not counted */
 }
-- 
2.43.0


From 4a9390757fb07a2b26790d47d297eaa7008d3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 55/80] fix: isfinite is not inverted; pow keeps the sign of
 odd powers that overflow or underflow

---
 lib/src/math.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/math.c b/lib/src/math.c
index 67c73cf..a07324d 100644
--- a/lib/src/math.c
+++ b/lib/src/math.c
@@ -293,7 +293,7 @@ int fpclassify(double x)
 
 int isfinite(double x)
 {
-  return (_dasull(x) & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL;  
+  return (_dasull(x) & 0x7FF0000000000000ULL) != 0x7FF0000000000000ULL;  
 }
 
 int isinf(double x)
@@ -1001,18 +1001,18 @@ static double ieee754_pow(double x, double y)
     if (ix < IC(0x3fefffff)) {
       if (hy < 0) {
         feraiseexcept(FE_OVERFLOW);
-        return HUGE_VAL;
+        return (hx < 0 && yisint == 1) ? -HUGE_VAL : HUGE_VAL;
       }
       feraiseexcept(FE_UNDERFLOW);
-      return 0;
+      return (hx < 0 && yisint == 1) ? -zero : zero;
     }
     if (ix > IC(0x3ff00000)) {
       if (hy > 0) {
         feraiseexcept(FE_OVERFLOW);
-        return HUGE_VAL;
+        return (hx < 0 && yisint == 1) ? -HUGE_VAL : HUGE_VAL;
       }
       feraiseexcept(FE_UNDERFLOW);
-      return 0;
+      return (hx < 0 && yisint == 1) ? -zero : zero;
     }
     /* now |1-x| is tiny <= 2**-20, suffice to compute 
        log(x) by x-x^2/2+x^3/3-x^4/4 */
-- 
2.43.0


From dd32e81d802fb32256f59d95d864f001283f1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 56/80] fix: pow with bases next to 1 and huge exponents lost
 hundreds of units in the last place

---
 lib/src/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/math.c b/lib/src/math.c
index a07324d..2ef3c1a 100644
--- a/lib/src/math.c
+++ b/lib/src/math.c
@@ -111,8 +111,8 @@ static const double Zero[] = {
 #define cp_h      (_ullasd(0x3FEEC709E0000000ULL))   /*  9.61796700954437255859e-01 =(float)cp */
 #define cp_l      (_ullasd(0xBE3E2FE0145B01F5ULL))   /* -7.02846165095275826516e-09 =tail of cp_h */
 #define ivln2     (_ullasd(0x3FF71547652B82FEULL))   /*  1.44269504088896338700e+00 =1/ln2 */
-#define ivln2_h   (_ullasd(0x3FF7154760000000ULL))   /*  1.44269502162933349609e+00 =24b 1/ln2 */
-#define ivln2_l   (_ullasd(0x3E54AE0BF85DDF44ULL))   /*  1.92596299112661746887e-08 =1/ln2 tail */
+#define ivln2_h   (_ullasd(0x3FF7154700000000ULL))   /*  1.44269466400146484375e+00 =21b 1/ln2 */
+#define ivln2_l   (_ullasd(0x3E994AE0BF85DDF4ULL))   /*  3.76887498563609906000e-07 =1/ln2 tail */
 #define ln2_hi    (_ullasd(0x3FE62E42FEE00000ULL))   /*  6.93147180369123816490e-01 */
 #define ln2_lo    (_ullasd(0x3DEA39EF35793C76ULL))   /*  1.90821492927058770002e-10 */
 #define Lg1       (_ullasd(0x3FE5555555555593ULL))   /*  6.666666666666735130e-01 */
-- 
2.43.0


From 559f2620e45dd738c920c06d1ff481b9d0a5b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 57/80] fix: wasm_simd128.h: unsigned 16-bit saturating
 subtraction, result type of lane stores

---
 lib/include/wasm_simd128.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/wasm_simd128.h b/lib/include/wasm_simd128.h
index a13f3af..725ea45 100644
--- a/lib/include/wasm_simd128.h
+++ b/lib/include/wasm_simd128.h
@@ -60,16 +60,16 @@
 #define wasm_v128_store(p, a) ((void(*)(void*, v128_t))asm(v128.store offset=0 align=16)(p, a))
 
 /* void wasm_v128_store8_lane(void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
-#define wasm_v128_store8_lane(p, v, i) ((v128_t(*)(void*, v128_t))asm(v128.store8_lane offset=0 align=1 i)(p, v))
+#define wasm_v128_store8_lane(p, v, i) ((void(*)(void*, v128_t))asm(v128.store8_lane offset=0 align=1 i)(p, v))
 
 /* void wasm_v128_store16_lane(void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
-#define wasm_v128_store16_lane(p, v, i) ((v128_t(*)(void*, v128_t))asm(v128.store16_lane offset=0 align=2 i)(p, v))
+#define wasm_v128_store16_lane(p, v, i) ((void(*)(void*, v128_t))asm(v128.store16_lane offset=0 align=2 i)(p, v))
 
 /* void wasm_v128_store32_lane(void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
-#define wasm_v128_store32_lane(p, v, i) ((v128_t(*)(void*, v128_t))asm(v128.store32_lane offset=0 align=4 i)(p, v))
+#define wasm_v128_store32_lane(p, v, i) ((void(*)(void*, v128_t))asm(v128.store32_lane offset=0 align=4 i)(p, v))
 
 /* void wasm_v128_store64_lane(void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
-#define wasm_v128_store64_lane(p, v, i) ((v128_t(*)(void*, v128_t))asm(v128.store64_lane offset=0 align=8 i)(p, v))
+#define wasm_v128_store64_lane(p, v, i) ((void(*)(void*, v128_t))asm(v128.store64_lane offset=0 align=8 i)(p, v))
 
 
 /* v128_t wasm_i8x16_const(int8_t c0, ..., int8_t c15) __REQUIRE_CONSTANT(c0, ..., c15); */
@@ -559,7 +559,7 @@
 #define wasm_i16x8_sub_sat(a, b) ((v128_t(*)(v128_t, v128_t))asm(i16x8.sub_sat_s)(a, b))
 
 /* v128_t wasm_u16x8_sub_sat(v128_t a, v128_t b); */
-#define wasm_u16x8_sub_sat(a, b) ((v128_t(*)(v128_t, v128_t))asm(i16x8.sub)(a, b))
+#define wasm_u16x8_sub_sat(a, b) ((v128_t(*)(v128_t, v128_t))asm(i16x8.sub_sat_u)(a, b))
 
 /* v128_t wasm_i16x8_mul(v128_t a, v128_t b); */
 #define wasm_i16x8_mul(a, b) ((v128_t(*)(v128_t, v128_t))asm(i16x8.mul)(a, b))
-- 
2.43.0


From fce02d68606b7e543ee9bb8c0c5a73afb7656a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 58/80] fix: lane indexes and integer arguments of inline
 assembly macros are checked

---
 p.c | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/p.c b/p.c
index d723d90..d17eee1 100644
--- a/p.c
+++ b/p.c
@@ -2445,6 +2445,27 @@ static bool no_etcpars(ndbuf_t *ppars)
   return true;
 }
 
+/* number of lanes in the vector operand of an instruction with lane index */
+static unsigned instr_lane_count(instr_t in)
+{
+  switch (in) {
+    case IN_I16X8_EXTRACT_LANE_S: case IN_I16X8_EXTRACT_LANE_U:
+    case IN_I16X8_REPLACE_LANE:   
+    case IN_V128_LOAD16_LANE:     case IN_V128_STORE16_LANE:
+      return 8;
+    case IN_I32X4_EXTRACT_LANE:   case IN_I32X4_REPLACE_LANE:
+    case IN_F32X4_EXTRACT_LANE:   case IN_F32X4_REPLACE_LANE:
+    case IN_V128_LOAD32_LANE:     case IN_V128_STORE32_LANE:
+      return 4;
+    case IN_I64X2_EXTRACT_LANE:   case IN_I64X2_REPLACE_LANE:
+    case IN_F64X2_EXTRACT_LANE:   case IN_F64X2_REPLACE_LANE:      
+    case IN_V128_LOAD64_LANE:     case IN_V128_STORE64_LANE:
+      return 2;
+    default:;
+  }
+  return 16;
+}
+
 void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
 {
   size_t n = buflen(pids), i; sym_t *pi = bufdata(pids); 
@@ -2505,9 +2526,14 @@ void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
                 if (r.ts == TS_DOUBLE) pic->arg.d = r.val.d;
                 else n2eprintf(prn, pn, "parameter not a float constant");
                 break;
-              default:
+              default: {
+                insig_t is = instr_sig(pic->in);
+                if (r.ts < TS_BOOL || r.ts > TS_ULLONG)
+                  n2eprintf(prn, pn, "parameter not an integer constant");
+                if ((is == INSIG_LANEIDX || is == INSIG_MEMARG_LANEIDX) && r.val.u >= instr_lane_count(pic->in))
+                  n2eprintf(prn, pn, "lane index is out of range");
                 pic->arg.i = r.val.i;
-                break;
+              } break;
             }
             pic->id = 0;
           }
@@ -3121,7 +3147,7 @@ static void parse_asm_instr(pws_t *pw, node_t *pan)
       } break;
       case INSIG_LANEIDX:
         if (peekt(pw) == TT_IDENTIFIER) pic->id = getid(pw);
-        else pic->arg.u = parse_asm_unsigned(pw, 15);
+        else pic->arg.u = parse_asm_unsigned(pw, instr_lane_count(in)-1);
         break;
       case INSIG_MEMARG_LANEIDX: {
         unsigned a = 0;
@@ -3143,7 +3169,7 @@ static void parse_asm_instr(pws_t *pw, node_t *pan)
           pic->arg2.ux2[1] = a;
         } else pic->arg2.ux2[1] = 0;
         if (peekt(pw) == TT_IDENTIFIER) pic->id = getid(pw);
-        else pic->arg.u = parse_asm_unsigned(pw, 15);
+        else pic->arg.u = parse_asm_unsigned(pw, instr_lane_count(in)-1);
       } break;
       case INSIG_LANEIDX16: {
         size_t i; unsigned long long lidxv = 0, hibits = 0;
-- 
2.43.0


From 2bdffbea375baeed64493104d21248c029f240c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 59/80] fix: inline assembly: declared type of
 reinterpretations, nested forms, unqualified names

---
 c.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index 1bd3648..4efdb0c 100644
--- a/c.c
+++ b/c.c
@@ -913,9 +913,14 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
         }
         return false;
       } else if (pn->intr == INTR_ACODE) {
-        instr_t in = IN_UNREACHABLE; node_t *pan; seval_t rx; bool ok = false;
-        if (ndlen(pn) > 0 && (pan = ndref(pn, 0))->nt == NT_ACODE && icblen(&pan->data) == 1)
+        instr_t in = IN_UNREACHABLE; node_t *pan; seval_t rx; bool ok = false; 
+        ts_t tsr = TS_VOID; /* declared type of the result */
+        if (ndlen(pn) > 0 && (pan = ndref(pn, 0))->nt == NT_ACODE && icblen(&pan->data) == 1) {
+          node_t *ptn = ndlen(pan) > 0 ? ndref(pan, 0) : NULL;
+          if (ptn && ptn->ts == TS_PTR && ndlen(ptn) == 1) ptn = ndref(ptn, 0);
+          if (ptn && ptn->ts == TS_FUNCTION && ndlen(ptn) > 0) tsr = ndref(ptn, 0)->ts;
           in = icbref(&pan->data, 0)->in;
+        }
         switch (in) {
           case IN_I32_REINTERPRET_F32: case IN_F32_REINTERPRET_I32: {
             ts_t tc = in == IN_I32_REINTERPRET_F32 ? TS_FLOAT : TS_UINT; 
@@ -935,6 +940,11 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
           } break;
           default:;
         }
+        if (ok && pr->ts != tsr) {
+          if (TS_BOOL < tsr && tsr <= TS_ULLONG && pr->ts <= TS_ULLONG) {
+            numval_convert(tsr, pr->ts, &pr->val); pr->ts = tsr;
+          } else ok = false;
+        }
         return ok;
       }
     } break;
@@ -1475,8 +1485,17 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
               sym_t nid = henv_lookup(pic->id, phe, NULL);
               if (nid) pic->id = nid;
             }
+            break;
+          case IN_GLOBAL_GET: case IN_GLOBAL_SET:
+          case IN_CALL: case IN_RETURN_CALL: case IN_REF_FUNC:
+            if (!pic->id || !pic->arg2.mod)
+              neprintf(pn, "inline assembly: module:name argument expected");
+            break;
           default:;
         }
+      }
+      for (i = 0; i < ndlen(pn); ++i) { /* nested asm */
+        expr_hoist_locals(ptn, ndref(pn, i), phe, plb);
       }      
     } break;
     case NT_BLOCK: {
@@ -1603,11 +1622,17 @@ static bool arithmetic_constant_expr(node_t *pn)
           return true;
         } break;
         case INTR_ACODE: {
-          instr_t in = IN_UNREACHABLE; node_t *pan;
+          instr_t in = IN_UNREACHABLE; node_t *pan; size_t i;
           if (ndlen(pn) > 0 && (pan = ndref(pn, 0))->nt == NT_ACODE && icblen(&pan->data) == 1)
             in = icbref(&pan->data, 0)->in;
-          if (IN_I32_CONST <= in && in <= IN_I64_EXTEND32_S) return true;
-          if (IN_I32_TRUNC_SAT_F32_S <= in && in <= IN_I64_TRUNC_SAT_F64_U) return true;
+          for (i = 1; i < ndlen(pn); ++i)
+            if (!arithmetic_constant_expr(ndref(pn, i))) return false;
+          switch (in) { /* see static_eval */
+            case IN_I32_REINTERPRET_F32: case IN_F32_REINTERPRET_I32: 
+            case IN_I64_REINTERPRET_F64: case IN_F64_REINTERPRET_I64: 
+              return true;
+            default:;
+          }
         } break;
         default:;
       }
@@ -3785,7 +3810,7 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
         case INTR_ACODE: {
           size_t i; buf_t apb = mkbuf(sizeof(node_t*));
           node_t *pacn = ndref(pn, 0), *pact;
-          assert(pacn->nt == NT_ACODE && ndlen(pacn) == 1);
+          assert(pacn->nt == NT_ACODE && ndlen(pacn) > 0);
           pact = ndref(pacn, 0); assert(pact->nt == NT_TYPE);
           for (i = 1; i < ndlen(pn); ++i) 
             *(node_t**)bufnewbk(&apb) = expr_compile(ndref(pn, i), prib, NULL);
-- 
2.43.0


From 542cc980e2906afb859c2bcfafafc6c4b1b12938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 60/80] fix: simd<T, N>: element type read after the node list
 moved

---
 p.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p.c b/p.c
index d17eee1..498405f 100644
--- a/p.c
+++ b/p.c
@@ -3479,19 +3479,20 @@ static void parse_enum_body(pws_t *pw, node_t *pn)
 /* parse simd body <T, N> */
 static void parse_simd_body(pws_t *pw, node_t *pn)
 {
-  node_t *ptn; int startpos; 
+  node_t *ptn; int startpos; ts_t ets;
   ndset(pn, NT_TYPE, pw->id, peekpos(pw));
   pn->ts = TS_V128;
   expect(pw, TT_LT, "<");
   ptn = ndnewbk(pn); startpos = peekpos(pw);
   parse_base_type(pw, ptn);
-  if (ptn->ts < TS_BOOL || ptn->ts > TS_DOUBLE)
+  ets = ptn->ts; /* ptn won't survive next ndnewbk */
+  if (ets < TS_BOOL || ets > TS_DOUBLE)
     reprintf(pw, startpos, "unexpected base type in simd<T, N> type specifier");
   expect(pw, TT_COMMA, ","); startpos = peekpos(pw);
   if (ahead(pw, "2") || ahead(pw, "4") || ahead(pw, "8") || ahead(pw, "16")) {
     node_t *pvn = ndnewbk(pn); long n = atol(pw->tokstr); dropt(pw);
     ndset(pvn, NT_LITERAL, pw->id, startpos); pvn->ts = TS_INT; pvn->val.i = n; 
-    switch (ptn->ts) {
+    switch (ets) {
       case TS_BOOL:                  n = 128; break; /* all sizes work */
       case TS_CHAR:  case TS_UCHAR:  n *=  8; break;
       case TS_SHORT: case TS_USHORT: n *= 16; break;
-- 
2.43.0


From 3f55bce0e293e8508adf25520245029f07f4fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 61/80] fix: conditional expressions over vectors

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 4efdb0c..cf623f6 100644
--- a/c.c
+++ b/c.c
@@ -3225,7 +3225,7 @@ static node_t *compile_cond(node_t *prn, node_t *pan1, node_t *pan2, node_t *pan
     /* fixme: 'if'-'else' block is needed */
     unsigned bt = ts_to_blocktype(pctn->ts);
     if (!bt) neprintf(prn, "impossible type of logical operator result"); 
-    assert(bt == BT_VOID || (bt >= VT_F64 && bt <= VT_I32));
+    assert(bt == BT_VOID || (bt >= VT_V128 && bt <= VT_I32));
     acode_swapin(pcn, pan1);
     acode_pushin_uarg(pcn, IN_IF, bt);
     acode_swapin(pcn, pan2);
-- 
2.43.0


From 9e00c00c76825783de23bb9d099659cf185fc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 62/80] fix: vector types in object files

---
 w.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/w.c b/w.c
index 3701d5a..3d44854 100644
--- a/w.c
+++ b/w.c
@@ -3215,6 +3215,7 @@ static valtype_t parse_valtype(sws_t *pw)
     else if (streql(pw->tokstr, "f32")) vt = VT_F32;
     else if (streql(pw->tokstr, "i64")) vt = VT_I64;
     else if (streql(pw->tokstr, "i32")) vt = VT_I32;
+    else if (streql(pw->tokstr, "v128")) vt = VT_V128;
     /* else if (streql(pw->tokstr, "funcref")) vt = RT_FUNCREF; */
     /* else if (streql(pw->tokstr, "externref")) vt = RT_EXTERNREF; */
     if (vt != VT_UNKN) { dropt(pw); return vt; }
-- 
2.43.0


From 2f3f9058e404a20837cff1f585299a304da05ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 63/80] fix: narrowing casts inserted for globals keep the
 source position

---
 c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index cf623f6..ef0530b 100644
--- a/c.c
+++ b/c.c
@@ -1919,14 +1919,14 @@ static void expr_wasmify(node_t *pn, buf_t *pvib, buf_t *plib)
           pn->name = pvi->reg;
         }
         if (pvi->cast != TS_VOID) { /* add narrowing cast */
-          node_t cn = mknd(); ndset(&cn, NT_TYPE, -1, -1); cn.ts = pvi->cast;
+          node_t cn = mknd(); ndset(&cn, NT_TYPE, pn->pwsid, pn->startpos); cn.ts = pvi->cast;
           wrap_expr_cast(pn, &cn); ndfini(&cn);
         }
       } else { /* global */
         const node_t *ptn = lookup_global(pn->name);
         if (ptn && ptn->nt == NT_IMPORT && ndlen(ptn) == 1) ptn = ndcref(ptn, 0);
         if (ptn && ptn->nt == NT_TYPE && ptn->ts >= TS_BOOL && ptn->ts < TS_INT) { /* add narrowing cast */
-          node_t cn = mknd(); ndset(&cn, NT_TYPE, -1, -1); cn.ts = ptn->ts;
+          node_t cn = mknd(); ndset(&cn, NT_TYPE, pn->pwsid, pn->startpos); cn.ts = ptn->ts;
           wrap_expr_cast(pn, &cn); ndfini(&cn);
         }
       }
-- 
2.43.0


From 3e3a521a1b689b5ac5ef3952993d979f6c0a55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 64/80] fix: streams: push-back, update streams, positions,
 short and failing writes, flushing at exit

ungetc wrote to address 0 before the first read, failed after a seek inside the
buffer, kept the end-of-file indicator and left its character in the data;
fflush(NULL) dereferenced NULL; reading after fflush of an update stream
returned garbage; failing seeks lost the position; ftell was wrong with data
appended but not yet written; short writes lost data; output failures were not
reported by fprintf, fputs, fclose and fflush; files were closed before the
exit handlers registered earlier had run.
---
 lib/include/stdio.h   |   2 +
 lib/include/sys.crt.h |   2 +-
 lib/src/stdio.c       | 471 ++++++++++++++++++++++--------------------
 lib/src/stdlib.c      |   2 +-
 4 files changed, 247 insertions(+), 230 deletions(-)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index dca7459..010287c 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -31,6 +31,8 @@ typedef struct _iobuf {
 #define _IOLBF   0100
 #define _IORW    0200
 #define _IOMYBUF 0400
+#define _IOUNG  01000
+#define _IOAPP  02000
 
 extern FILE _iob[FOPEN_MAX];
 #define stdin  (&_iob[0])
diff --git a/lib/include/sys.crt.h b/lib/include/sys.crt.h
index d8b123b..ce0e4c4 100644
--- a/lib/include/sys.crt.h
+++ b/lib/include/sys.crt.h
@@ -3,7 +3,7 @@
 #pragma once
 #pragma module "crt"
 
-#define ONTERM_MAX 32
+#define ONTERM_MAX 34 /* 32 for atexit(), one for closing files, one spare */
 typedef void (*onterm_func_t)(void);
 extern onterm_func_t onterm_funcs[ONTERM_MAX];
 extern size_t onterm_count;
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 4002217..5ae0a41 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -9,6 +9,8 @@
 #include <unistd.h>
 #include <float.h>
 #include <stdio.h>
+#include <limits.h>
+#include <sys/crt.h>
 #include <sys/intrs.h>
 
 /* stream i/o after K&R TCPL */
@@ -43,10 +45,14 @@ static void closeall(void)
 static void initialize(void)
 {
   if (!initialized) {
+    int err = errno; size_t i;
     /* make stdin and stdout line-buffered if associated with a tty */
     if (isatty(STDIN_FILENO)) stdin->flags |= _IOLBF; 
     if (isatty(STDOUT_FILENO)) stdout->flags |= _IOLBF; 
-    atexit(&closeall);
+    errno = err;
+    /* close files after all atexit functions (one slot is kept for that) */
+    for (i = onterm_count++; i > 0; --i) onterm_funcs[i] = onterm_funcs[i-1];
+    onterm_funcs[0] = &closeall;
     initialized = true;
   }
 }
@@ -61,7 +67,7 @@ FILE *freopen(const char *filename, const char *mode, FILE *fp)
     case 'w': oflags = O_WRONLY | O_TRUNC | O_CREAT; break;
     case 'a': oflags = O_WRONLY | O_APPEND | O_CREAT; break;
     case 'r': oflags = O_RDONLY; break;
-    default: return NULL;
+    default: errno = EINVAL; return NULL;
   }
   while (*mode) switch (*mode++) {
     case '+': oflags |= O_RDWR; break;
@@ -72,6 +78,7 @@ FILE *freopen(const char *filename, const char *mode, FILE *fp)
   fp->fd = fd; fp->cnt = 0;
   fp->base = fp->ptr = fp->end = NULL;
   fp->flags = ((oflags & O_RDWR) == O_RDWR) ? _IORW : (oflags & O_RDONLY) ? _IOREAD : _IOWRT;
+  if (oflags & O_APPEND) fp->flags |= _IOAPP;
   if ((oflags & O_APPEND) && (oflags & O_RDWR) != O_RDWR && lseek(fd, 0L, SEEK_END) < 0) {
     fclose(fp); fp = NULL;
   }
@@ -85,22 +92,28 @@ FILE *fopen(const char *name, const char *mode)
 
 FILE *fdopen(int fd, const char *mode)
 {
+  int flags;
   if (!initialized) initialize();
   FILE *fp = findfp();
   if (fp == NULL) return NULL;
-  fp->fd = fd;
-  fp->cnt = 0; fp->flags = 0;
-  fp->base = fp->ptr = fp->end = NULL;
   switch (*mode++) {
-    case 'r': fp->flags |= _IOREAD; break;
-    case 'a': lseek(fd, 0L, 2); /* fall thru */
-    case 'w': fp->flags |= _IOWRT; break;
-    default: return NULL;
+    case 'r': flags = _IOREAD; break;
+    case 'a': flags = _IOWRT | _IOAPP; break;
+    case 'w': flags = _IOWRT; break;
+    default: errno = EINVAL; return NULL;
   }
   while (*mode) switch (*mode++) {
-    case '+': fp->flags = (fp->flags & ~(_IOREAD|_IOWRT)) | _IORW; break;
+    case '+': flags = (flags & ~(_IOREAD|_IOWRT)) | _IORW; break;
     default:; /* other flags are ignored */
   }
+  if (flags & _IOAPP) {
+    int fl = fcntl(fd, F_GETFL);
+    if (fl != -1 && (fl & O_APPEND) == 0) fcntl(fd, F_SETFL, fl | O_APPEND);
+    lseek(fd, 0L, SEEK_END);
+  }
+  fp->fd = fd; fp->cnt = 0;
+  fp->base = fp->ptr = fp->end = NULL;
+  fp->flags = flags;
   return fp;
 }
 
@@ -109,13 +122,10 @@ int fclose(FILE *fp)
   int res = -1;
   if (fp == NULL) return res;
   if (fp->flags & (_IOREAD|_IOWRT|_IORW)) {
-    res = (fp->flags & _IONBF)? 0 : fflush(fp);
-    if (close(fp->fd) < 0) {
-      errno = ENOENT;
-      res = -1; 
-    }
+    res = (fp->flags & _IOWRT) ? fflush(fp) : 0;
+    if (close(fp->fd) < 0) res = -1;
   }
-  if (fp->base && fp->base != &fp->sbuf[0]) {
+  if (fp->base && fp->base != (unsigned char *)&fp->sbuf[0]) {
     if (fp->flags & _IOMYBUF) free(fp->base);
   }
   _bzero(fp, sizeof(FILE));
@@ -140,16 +150,41 @@ static void addbuf(FILE *fp)
   fp->ptr = fp->base;
 }
 
-/* getc helper (returns next char); precondition: f->cnt is <= 0 */
-int _fillbuf(FILE *fp)
+/* forget buffered input or (already written) output */
+static void dropbuf(FILE *fp)
+{
+  fp->cnt = 0; fp->ptr = fp->base;
+  fp->flags &= ~_IOUNG;
+  if (fp->flags & _IORW) fp->flags &= ~(_IOREAD|_IOWRT);
+  else if ((fp->flags & _IOREAD) && fp->base != NULL) ++fp->ptr;
+}
+
+/* prepare for input */
+static int readchk(FILE *fp)
 {
-  FILE *fpi; size_t readc;
   if (!initialized) initialize();
-  if (fp->base == NULL) addbuf(fp);
   if (!(fp->flags & _IOREAD)) {
-    if (fp->flags & _IORW) fp->flags |= _IOREAD;
-    else return EOF;
+    if (!(fp->flags & _IORW)) { /* write-only */
+      fp->flags |= _IOERR; errno = EBADF;
+      return EOF;
+    }
+    if ((fp->flags & _IOWRT) && fflush(fp) == EOF) return EOF;
+    fp->flags |= _IOREAD; fp->cnt = 0;
+    if (fp->base != NULL) fp->ptr = fp->base + 1;
+  }
+  if (fp->base == NULL) {
+    addbuf(fp); fp->ptr++;
   }
+  return 0;
+}
+
+/* getc helper (returns next char); precondition: f->cnt is <= 0 */
+int _fillbuf(FILE *fp)
+{
+  FILE *fpi; size_t readc; ssize_t n;
+  fp->cnt = 0;
+  if (readchk(fp) != 0) return EOF;
+  if (fp->flags & _IOEOF) return EOF; /* until cleared */
   /* if this device is a terminal (line-buffered) or unbuffered, then
    * flush buffers of all line-buffered devices currently writing */
   if (fp->flags & (_IOLBF|_IONBF))
@@ -157,23 +192,19 @@ int _fillbuf(FILE *fp)
       if ((fpi->flags & (_IOREAD|_IOLBF)) == _IOLBF) 
         fflush(fpi);
     }
-  fp->ptr = fp->base;
-  readc = (fp->flags & _IONBF) ? 1 : fp->end - fp->base;
-  fp->cnt = read(fp->fd, (char *)fp->base, readc);
-  if (--fp->cnt >= 0) return (*fp->ptr++);
-  else if (fp->cnt != -1) fp->flags |= _IOERR;
-  else { /* EOF */
-    fp->flags |= _IOEOF;
-    if (fp->flags & _IORW) fp->flags &= ~_IOREAD;
-  }
-  fp->cnt = 0;
+  fp->ptr = fp->base + 1; /* keep space for a char pushed back */
+  fp->flags &= ~_IOUNG;
+  readc = (fp->flags & _IONBF) ? 1 : fp->end - fp->ptr;
+  n = read(fp->fd, (char *)fp->ptr, readc);
+  if (n > 0) { fp->cnt = n - 1; return (*fp->ptr++); }
+  fp->flags |= (n == 0) ? _IOEOF : _IOERR;
   return EOF;
 }
 
 size_t fread(void *buf, size_t size, size_t count, FILE *fp)
 {
   char *ptr = buf; size_t nleft; ssize_t n;
-  if (size == 0 || count == 0) return 0;
+  if (size == 0 || count == 0 || readchk(fp) != 0) return 0;
   nleft = count * size;
   for (;;) {
     if (fp->cnt <= 0) {
@@ -190,24 +221,51 @@ size_t fread(void *buf, size_t size, size_t count, FILE *fp)
   return 0; /* unreacheable */
 }
 
+/* write n bytes out; returns the number of bytes written (less on error) */
+static size_t writeall(FILE *fp, const char *buf, size_t n)
+{
+  size_t done = 0; ssize_t k;
+  while (done < n) {
+    k = write(fp->fd, buf + done, n - done);
+    if (k <= 0) {
+      if (k == 0) errno = EIO;
+      fp->flags |= _IOERR;
+      break;
+    }
+    done += (size_t)k;
+  }
+  return done;
+}
+
+/* write out the buffer; on error, whatever was not written stays there */
 static int writebuf(FILE *fp)
 {
-  unsigned char *base = fp->base;
-  ssize_t n = fp->ptr - base;
-  fp->ptr = base;
-  fp->cnt = (fp->flags & (_IONBF|_IOLBF)) ? 0 : fp->end - base;
-  if (n > 0 && n != write(fp->fd, (char*)base, (size_t)n)) {
-    fp->flags |= _IOERR;
-    return EOF;
+  size_t n = fp->ptr - fp->base, k = 0;
+  if (n > 0) {
+    k = writeall(fp, (char *)fp->base, n);
+    if (k > 0 && k < n) memmove(fp->base, fp->base + k, n - k);
   }
-  return 0;
+  fp->ptr -= k;
+  fp->cnt = (fp->flags & (_IONBF|_IOLBF)) ? 0 : fp->end - fp->ptr;
+  return (k < n) ? EOF : 0;
 }
 
+/* prepare for output */
 static int wrtchk(FILE *fp)
 {
   if (!initialized) initialize();
   if ((fp->flags & (_IOWRT|_IOEOF)) != _IOWRT) {
-    if (!(fp->flags & (_IOWRT|_IORW))) return EOF; /* read-only */
+    if (!(fp->flags & (_IOWRT|_IORW))) { /* read-only */
+      fp->flags |= _IOERR; errno = EBADF;
+      return EOF;
+    }
+    if (!(fp->flags & _IOWRT)) { /* drop what was read ahead */
+      if (fp->cnt > 0 && lseek(fp->fd, -(off_t)fp->cnt, SEEK_CUR) < 0) {
+        fp->flags |= _IOERR;
+        return EOF;
+      }
+      dropbuf(fp);
+    }
     fp->flags = fp->flags & ~_IOEOF | _IOWRT; /* clear flags */
   }
   if (fp->base == NULL) {
@@ -223,89 +281,60 @@ static int wrtchk(FILE *fp)
 /* putc helper; precondition: f->cnt <= 0 */
 int _flushbuf(int c, FILE *fp)
 {
-  unsigned char c1;
+  unsigned char c1 = (unsigned char)c;
+  fp->cnt = 0;
   if (wrtchk(fp) != 0) return EOF;
-  do {
-    /* check for linebuffered with write perm, but no EOF */
-    if ((fp->flags & (_IOLBF|_IOWRT|_IOEOF)) == (_IOLBF|_IOWRT)) {
-      if (fp->ptr >= fp->end) break; /* flush buf and be done */
-      if ((*fp->ptr++ = c) != '\n') return c;
-      return writebuf(fp) == EOF ? EOF : c;
-    }
-    /* write out an unbuffered file, if have write perm, but no EOF */
-    if ((fp->flags & (_IONBF|_IOWRT|_IOEOF)) == (_IONBF|_IOWRT)) {
-      c1 = c; fp->cnt = 0;
-      if (write(fp->fd, (char *)&c1, 1) == 1) return c;
-      fp->flags |= _IOERR;
-      return EOF;
-    }
-  } while (fp->flags & (_IONBF|_IOLBF));
-  writebuf(fp); /* full buffer: flush it */
-  putc((char)c, fp); /* then put "c" in newly emptied buf */
-  return ferror(fp) ? EOF : c;
+  if (fp->flags & _IONBF) { /* write out an unbuffered file */
+    return (writeall(fp, (char *)&c1, 1) == 1) ? c1 : EOF;
+  }
+  if (fp->ptr >= fp->end) { /* full buffer: flush it */
+    if (writebuf(fp) == EOF) return EOF;
+  }
+  *fp->ptr++ = c1;
+  if (fp->flags & _IOLBF) {
+    if (c1 == '\n' && writebuf(fp) == EOF) return EOF;
+  } else {
+    fp->cnt = fp->end - fp->ptr;
+  }
+  return c1;
 }
 
 size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
 {
-  char *ptr = buf; size_t nleft; ssize_t n;
-  unsigned char *cptr;
-  if (size == 0 || count == 0 || wrtchk(fp)) return 0;
+  char *ptr = buf; size_t nleft, n;
+  if (size == 0 || count == 0 || wrtchk(fp) != 0) return 0;
   nleft = count*size;
   /* if the file is unbuffered, or if the fp->ptr == fp->base, and there
    * is > BUFSIZ chars to write, we can do a direct write */
-  if (fp->base >= fp->ptr) { /* this covers the unbuffered case, too */
-    if ((fp->flags & _IONBF) != 0 || nleft >= BUFSIZ) {
-      n = write(fp->fd, ptr, nleft);
-      if (n != nleft) { fp->flags |= _IOERR; n = (n >= 0) ? n : 0; }
-      return n/size;
-    }
+  if ((fp->flags & _IONBF) != 0 || (fp->ptr == fp->base && nleft >= BUFSIZ)) {
+    return writeall(fp, ptr, nleft)/size;
   }
   /* put characters in the buffer */
-  for (;; ptr += n) {
-    while ((n = fp->end - (cptr = fp->ptr)) <= 0) { /* full buf */
+  for (; nleft > 0; ptr += n) {
+    if (fp->ptr >= fp->end) { /* full buf */
       if (writebuf(fp) == EOF) return count - (nleft + size - 1)/size;
     }
-    if (nleft < n) n = (ssize_t)nleft;
-    _bcopy(cptr, ptr, n);
-    fp->cnt -= n; fp->ptr += n;
-    /* done; flush if linebuffered with a newline */
-    if ((nleft -= n) == 0) { 
-      if (fp->flags & (_IOLBF|_IONBF)) {
-        if ((fp->flags & _IONBF) || (memchr(fp->base, '\n', count*size) != NULL)) 
-          writebuf(fp);
-      }
-      return (count);
-    }
+    n = fp->end - fp->ptr;
+    if (nleft < n) n = nleft;
+    _bcopy((char *)fp->ptr, ptr, n);
+    fp->ptr += n; nleft -= n;
+    fp->cnt = (fp->flags & _IOLBF) ? 0 : fp->end - fp->ptr;
   }
-  return 0; /* unreacheable */
+  /* done; flush if linebuffered with a newline */
+  if ((fp->flags & _IOLBF) && memchr(buf, '\n', count*size) != NULL) {
+    if (writebuf(fp) == EOF) return 0;
+  }
+  return count;
 }
 
 int fputs(const char *s, FILE *fp)
 {
-  ssize_t ndone = 0, n;
-  unsigned char *cptr; char *p;
-  if (wrtchk(fp) != 0) return 0;
-  if ((fp->flags & _IONBF) == 0) {
-    for (;; s += n) {
-      while ((n = fp->end - (cptr = fp->ptr)) <= 0) { /* full buf */
-        if (writebuf(fp) == EOF) return EOF;
-      }
-      if ((p = memccpy((char *)cptr, s, '\0', n)) != NULL) n = (p - (char *)cptr) - 1;
-      fp->cnt -= n; fp->ptr += n;
-      ndone += n;
-      if (p != NULL)  { 
-        /* done; flush buffer if line-buffered */
-        if (fp->flags & _IOLBF) if (writebuf(fp) == EOF) return EOF;
-        return (int)ndone;
-      }
-    }
-  } else {
-    /* write out to an unbuffered file */
-    size_t cnt = strlen(s);
-    write(fp->fd, s, cnt);
-    return (int)cnt;
-  }
-  return 0; /* unreacheable */
+  size_t n = strlen(s);
+  if (wrtchk(fp) != 0) return EOF;
+  if (fwrite(s, 1, n, fp) != n) return EOF;
+  /* done; flush buffer if line-buffered */
+  if ((fp->flags & _IOLBF) && writebuf(fp) == EOF) return EOF;
+  return (int)n;
 }
 
 int puts(const char *s)
@@ -316,15 +345,20 @@ int puts(const char *s)
 
 int fflush(FILE *fp)
 {
-  if (!(fp->flags & _IOWRT)) {
-    fp->cnt = 0;
-    return 0;
+  if (fp == NULL) { /* all output streams */
+    int res = 0;
+    for (fp = &_iob[0]; fp < &_iob[FOPEN_MAX]; ++fp) {
+      if ((fp->flags & _IOWRT) && fflush(fp) == EOF) res = EOF;
+    }
+    return res;
   }
-  while (!(fp->flags & _IONBF) && (fp->flags & _IOWRT) &&
-         (fp->base != NULL) && (fp->ptr > fp->base)) {
-    writebuf(fp);
+  if (fp->flags & _IOWRT) {
+    if (fp->base != NULL && !(fp->flags & _IONBF) && writebuf(fp) == EOF) return EOF;
+    if (fp->flags & _IORW) dropbuf(fp); /* may be read from now on */
+  } else if (fp->cnt > 0 && lseek(fp->fd, -(off_t)fp->cnt, SEEK_CUR) >= 0) {
+    dropbuf(fp); /* was not read */
   }
-  return ferror(fp) ? EOF : 0;
+  return 0;
 }
 
 int fgetc(FILE *fp)
@@ -340,10 +374,11 @@ int fputc(int c, FILE *fp)
 char *fgets(char *s, int size, FILE *fp)
 {
   char *p, *s0 = s; ssize_t n;
+  if (size <= 0 || readchk(fp) != 0) return NULL;
   for (size--; size > 0; size -= (int)n) {
     if (fp->cnt <= 0) { /* empty buffer */
       if (_fillbuf(fp) == EOF) {
-        if (s0 == s) return NULL;
+        if (s0 == s || !(fp->flags & _IOEOF)) return NULL;
         break; /* no more data */
       }
       fp->ptr--; fp->cnt++;
@@ -360,86 +395,92 @@ char *fgets(char *s, int size, FILE *fp)
 
 int ungetc(int c, FILE *fp)
 {
-  if (c == EOF) return -1;
-  if ((fp->flags & _IOREAD) == 0 || fp->ptr <= fp->base) {
-    if (fp->ptr == fp->base && fp->cnt == 0) ++fp->ptr;
-    else return -1;
-  }
-  *--fp->ptr = c; ++fp->cnt;
-  return c;
+  unsigned char c1 = (unsigned char)c;
+  if (c == EOF || readchk(fp) != 0) return EOF;
+  if (fp->cnt < 0) fp->cnt = 0;
+  if (fp->ptr <= fp->base) return EOF;
+  if (--fp->ptr == fp->base || *fp->ptr != c1) fp->flags |= _IOUNG;
+  *fp->ptr = c1; ++fp->cnt;
+  fp->flags &= ~_IOEOF;
+  return c1;
 }
 
-int fseek(FILE *fp, long offset, int origin)
+static int seekto(FILE *fp, off_t offset, int origin)
 {
-  ssize_t c; long p;
-  fp->flags &= ~_IOEOF;
-  if (fp->flags & _IOREAD) {
-    if (origin < 2 && fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      if (origin == 0) p += (long)c - (long)lseek(fp->fd, 0, SEEK_CUR);
-      else offset -= (long)c;
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+  off_t p;
+  if (origin != SEEK_SET && origin != SEEK_CUR && origin != SEEK_END) {
+    errno = EINVAL;
+    return -1;
+  }
+  if (fp->cnt < 0) fp->cnt = 0;
+  if (fp->flags & _IOWRT) {
+    if (fflush(fp) == EOF) return -1;
+  } else if (fp->flags & (_IOREAD|_IORW)) {
+    /* a file which is only read can be searched in its buffer */
+    if (fp->cnt > 0 && origin != SEEK_END && !(fp->flags & (_IORW|_IONBF|_IOUNG))) {
+      if ((p = lseek(fp->fd, 0, SEEK_CUR)) < 0) return -1;
+      p = (origin == SEEK_SET) ? offset - (p - (off_t)fp->cnt) : offset;
+      if (p <= fp->cnt && p >= (fp->base + 1) - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
+        fp->flags &= ~_IOEOF;
         return 0;
       }
     }
-    if (fp->flags & _IORW) {
-      fp->ptr = fp->base;
-      fp->flags &= ~_IOREAD;
-    }
-    p = (long)lseek(fp->fd, offset, origin);
-    fp->cnt = 0;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    fflush(fp);
-    fp->cnt = 0;
-    if (fp->flags & _IORW) {
-      fp->flags &= ~_IOWRT;
-      fp->ptr = fp->base;
-    }
-    p = (long)lseek(fp->fd, offset, origin);
+    if (origin == SEEK_CUR) offset -= (off_t)fp->cnt;
+  } else {
+    errno = EBADF;
+    return -1;
   }
-  return (p == -1) ? -1 : 0;
+  if (lseek(fp->fd, offset, origin) < 0) return -1;
+  if (!(fp->flags & _IOWRT)) dropbuf(fp);
+  fp->flags &= ~_IOEOF;
+  return 0;
 }
 
-long ftell(FILE *fp)
+static off_t tellpos(FILE *fp)
 {
-  long offset; ssize_t adjust;
+  off_t offset, adjust = 0; 
   if (fp->cnt < 0) fp->cnt = 0;
-  if (fp->flags & _IOREAD) {
+  if (fp->flags & _IOWRT) {
+    if (fp->base != NULL && !(fp->flags & _IONBF)) adjust = fp->ptr - fp->base;
+    if (adjust > 0 && (fp->flags & _IOAPP)) { /* goes to the end of file */
+      if (writebuf(fp) == EOF) return -1;
+      return lseek(fp->fd, 0, SEEK_END);
+    }
+  } else if (fp->flags & (_IOREAD|_IORW)) {
     adjust = - fp->cnt;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    adjust = 0;
-    if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
-      adjust = fp->ptr - fp->base;
-  } else return -1;
-  offset = (long)lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += (long)adjust;
+  } else {
+    errno = EBADF;
+    return -1;
+  }
+  offset = lseek(fp->fd, 0, SEEK_CUR);
+  if (offset >= 0) offset += adjust;
   return offset;
 }
 
+int fseek(FILE *fp, long offset, int origin)
+{
+  return seekto(fp, offset, origin);
+}
+
+long ftell(FILE *fp)
+{
+  off_t offset = tellpos(fp);
+  if (offset > LONG_MAX) { errno = EOVERFLOW; return -1; }
+  return (long)offset;
+}
+
 void rewind(FILE *fp)
 {
-  fflush(fp);
-  lseek(fp->fd, 0, SEEK_SET);
-  fp->cnt = 0; fp->ptr = fp->base;
-  fp->flags &= ~(_IOERR|_IOEOF);
-  if (fp->flags & _IORW) fp->flags &= ~(_IOREAD|_IOWRT);
+  seekto(fp, 0, SEEK_SET);
+  fp->flags &= ~_IOERR;
 }
 
 int fgetpos(FILE *fp, fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  off_t offset; ssize_t adjust;
-  if (fp->cnt < 0) fp->cnt = 0;
-  if (fp->flags & _IOREAD) {
-    adjust = - fp->cnt;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    adjust = 0;
-    if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
-      adjust = fp->ptr - fp->base;
-  } else return -1;
-  offset = lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += adjust;
+  off_t offset = tellpos(fp);
+  if (offset < 0) return -1;
   *ptr = offset;
   return 0;
 }
@@ -447,67 +488,36 @@ int fgetpos(FILE *fp, fpos_t *ptr)
 int fsetpos(FILE *fp, const fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  ssize_t c; off_t offset = *ptr, p;
-  fp->flags &= ~_IOEOF;
-  if (fp->flags & _IOREAD) {
-    if (fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      p += (off_t)c - lseek(fp->fd, 0, SEEK_CUR);
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
-        fp->ptr += (int)p; fp->cnt -= (int)p;
-        return 0;
-      }
-    }
-    if (fp->flags & _IORW) {
-      fp->ptr = fp->base;
-      fp->flags &= ~_IOREAD;
-    }
-    p = lseek(fp->fd, offset, SEEK_SET);
-    fp->cnt = 0;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    fflush(fp);
-    fp->cnt = 0;
-    if (fp->flags & _IORW) {
-      fp->flags &= ~_IOWRT;
-      fp->ptr = fp->base;
-    }
-    p = lseek(fp->fd, offset, SEEK_SET);
-  }
-  return (p == -1) ? -1 : 0;
+  return seekto(fp, *ptr, SEEK_SET);
 }
 
 int setvbuf(FILE *fp, char *buf, int mode, size_t size)
 {
-  if (fp->base != NULL && fp->base != &fp->sbuf[0]) {
+  if (mode != _IOFBF && mode != _IOLBF && mode != _IONBF) return -1;
+  if (!initialized) initialize();
+  if (fflush(fp) == EOF) return -1;
+  if (fp->base != NULL && fp->base != (unsigned char *)&fp->sbuf[0]) {
     if (fp->flags & _IOMYBUF) free(fp->base);
-    fp->base = fp->end = NULL;
   }
+  fp->base = fp->end = NULL;
   fp->flags &= ~(_IONBF|_IOLBF|_IOFBF|_IOMYBUF);
-  switch (mode) {
-    case _IONBF: /* file is unbuffered */
-      fp->flags |= _IONBF;
-      fp->base = fp->end = NULL;
-      break;
-    case _IOLBF:
-    case _IOFBF:
-      fp->flags |= mode;
-      size = (size == 0) ? BUFSIZ : size;
-      if (buf != NULL && size > SBFSIZ) {
-        fp->base = (unsigned char *)buf;
-        fp->end = fp->base + size - SBFSIZ;
-      } else if (size > SBFSIZ && (fp->base = malloc(size + SBFSIZ)) != NULL) {
-        fp->end = fp->base + size + SBFSIZ;
-        fp->flags |= _IOMYBUF;
-      } else {
-        fp->base = (unsigned char *)&fp->sbuf[0]; 
-        fp->end = fp->base + SBFSIZ;
-      }
-      break;
-    default:
-      return -1;
+  fp->flags |= mode;
+  if (mode != _IONBF) {
+    size = (size == 0) ? BUFSIZ : size;
+    if (buf != NULL && size > SBFSIZ) {
+      fp->base = (unsigned char *)buf;
+      fp->end = fp->base + size;
+    } else if (size > SBFSIZ && size < SIZE_MAX - SBFSIZ && (fp->base = malloc(size + SBFSIZ)) != NULL) {
+      fp->end = fp->base + size + SBFSIZ;
+      fp->flags |= _IOMYBUF;
+    } else {
+      fp->base = (unsigned char *)&fp->sbuf[0]; 
+      fp->end = fp->base + SBFSIZ;
+    }
   }
   fp->ptr = fp->base;
   fp->cnt = 0;
+  if ((fp->flags & _IOREAD) && fp->base != NULL) ++fp->ptr;
   return 0;
 }
 
@@ -1508,7 +1518,7 @@ int fprintf(FILE *fp, const char *format, ...)
 {
   va_list va;
   va_start(va, format);
-  const int ret = _vsnprintf(&_out_file, fp, SIZE_MAX, format, va);
+  const int ret = vfprintf(fp, format, va);
   va_end(va);
   return ret;
 }
@@ -1517,7 +1527,7 @@ int printf(const char* format, ...)
 {
   va_list va;
   va_start(va, format);
-  const int ret = _vsnprintf(&_out_file, stdout, SIZE_MAX, format, va);
+  const int ret = vfprintf(stdout, format, va);
   va_end(va);
   return ret;
 }
@@ -1542,12 +1552,17 @@ int snprintf(char* buf, size_t count, const char* format, ...)
 
 int vprintf(const char* format, va_list va)
 {
-  return _vsnprintf(&_out_file, stdout, SIZE_MAX, format, va);
+  return vfprintf(stdout, format, va);
 }
 
 int vfprintf(FILE *fp, const char *format, va_list va)
 {
-  return _vsnprintf(&_out_file, fp, SIZE_MAX, format, va);
+  int ret, err = fp->flags & _IOERR;
+  fp->flags &= ~_IOERR;
+  ret = _vsnprintf(&_out_file, fp, SIZE_MAX, format, va);
+  if (fp->flags & _IOERR) ret = -1;
+  fp->flags |= err;
+  return ret;
 }
 
 int vsprintf(char* buf, const char* format, va_list va)
diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index d0f7ef1..f07f4eb 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -451,7 +451,7 @@ void abort(void)
 
 int atexit(onterm_func_t fn)
 {
-  if (onterm_count < ONTERM_MAX) {
+  if (onterm_count < ONTERM_MAX-1) { /* stdio may need one more */
     onterm_funcs[onterm_count++] = fn;
     return 0;
   } 
-- 
2.43.0


From d95c983b78b01c71fb1a6d917d062bb9842589ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 65/80] fix: formatted stream input and output stop at the
 first failed host call

---
 lib/src/stdio.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 5ae0a41..78136fb 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -585,8 +585,9 @@ static int _in_buffer(void *data, size_t idx, size_t maxlen, bool get)
 /* internal file input */
 static int _in_file(void *data, size_t idx, size_t maxlen, bool get)
 {
-  FILE *fp = (FILE*)data;
-  int c = getc(fp);
+  FILE *fp = (FILE*)data; int c;
+  if (fp->flags & _IOERR) return EOF; /* nothing after an error */
+  c = getc(fp);
   if (c != EOF && !get) ungetc(c, fp);
   return c;
 }
@@ -966,7 +967,7 @@ int fscanf(FILE *fp, const char *format, ...)
 {
   va_list va;
   va_start(va, format);
-  int ret = _vsnscanf(&_in_file, fp, SIZE_MAX, format, va);
+  int ret = vfscanf(fp, format, va);
   va_end(va);
   return ret;
 }
@@ -975,7 +976,7 @@ int scanf(const char *format, ...)
 {
   va_list va;
   va_start(va, format);
-  int ret = _vsnscanf(&_in_file, stdin, SIZE_MAX, format, va);
+  int ret = vfscanf(stdin, format, va);
   va_end(va);
   return ret;
 }
@@ -1000,12 +1001,16 @@ int snscanf(const char *buf, size_t count, const char *format, ...)
 
 int vfscanf(FILE *fp, const char *format, va_list va)
 {
-  return _vsnscanf(&_in_file, fp, SIZE_MAX, format, va);
+  int ret, err = fp->flags & _IOERR;
+  fp->flags &= ~_IOERR;
+  ret = _vsnscanf(&_in_file, fp, SIZE_MAX, format, va);
+  fp->flags |= err;
+  return ret;
 }
 
 int vscanf(const char *format, va_list va)
 {
-  return _vsnscanf(&_in_file, stdin, SIZE_MAX, format, va);
+  return vfscanf(stdin, format, va);
 }
 
 int vsscanf(const char *buf, const char *format, va_list va)
@@ -1076,7 +1081,7 @@ static void _out_null(char c, void *data, size_t idx, size_t maxlen)
 static void _out_file(char c, void *data, size_t idx, size_t maxlen)
 {
   FILE *fp = (FILE *)data;
-  putc(c, fp);
+  if (!(fp->flags & _IOERR)) putc(c, fp); /* nothing after an error */
 } 
 
 /* output a number: padding, prefix, zeros, reversed digits, zeros, suffix, padding */
-- 
2.43.0


From 3a1c04d54c919ec46f14c059355afb850d2d0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 66/80] fix: stat no longer reports type bits left over in the
 caller's memory

---
 lib/src/stat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stat.c b/lib/src/stat.c
index 798e120..e433be0 100644
--- a/lib/src/stat.c
+++ b/lib/src/stat.c
@@ -22,6 +22,7 @@ static void timestamp_to_timespec(timestamp_t timestamp, time_t *pt, long *pns)
 
 static void to_public_stat(const filestat_t *in, struct stat *out) 
 {
+  out->st_mode = 0;
   out->st_dev = in->dev;
   out->st_ino = in->ino;
   out->st_nlink = in->nlink;
-- 
2.43.0


From c3981012b74b1eb89a5674201db3b07c803ac9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 67/80] fix: openat through a read-only directory descriptor
 grants the requested access

---
 lib/src/fcntl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index 5438d74..cafb3d9 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -155,17 +155,20 @@ int openat(int fd, const char *path, int oflags)
       ~(RIGHTS_FD_DATASYNC | RIGHTS_FD_READ |
         RIGHTS_FD_WRITE | RIGHTS_FD_ALLOCATE |
         RIGHTS_FD_READDIR | RIGHTS_FD_FILESTAT_SET_SIZE);
+  rights_t min = 0; /* asked for even if fd does not seem to provide it */
   switch (oflags & O_ACCMODE) {
     case O_RDONLY:
     case O_RDWR:
     case O_WRONLY:
       if ((oflags & O_RDONLY) != 0) {
         max |= RIGHTS_FD_READ | RIGHTS_FD_READDIR;
+        min |= RIGHTS_FD_READ;
       }
       if ((oflags & O_WRONLY) != 0) {
         max |= RIGHTS_FD_DATASYNC | RIGHTS_FD_WRITE |
                RIGHTS_FD_ALLOCATE |
                RIGHTS_FD_FILESTAT_SET_SIZE;
+        min |= RIGHTS_FD_WRITE;
       }
       break;
     case O_EXEC:
@@ -189,7 +192,7 @@ int openat(int fd, const char *path, int oflags)
     lookup_flags |= LOOKUPFLAGS_SYMLINK_FOLLOW;
 
   fdflags_t fs_flags = oflags & 0xfff;
-  rights_t fs_rights_base = max & fsb_cur.fs_rights_inheriting;
+  rights_t fs_rights_base = (max & fsb_cur.fs_rights_inheriting) | min;
   rights_t fs_rights_inheriting = fsb_cur.fs_rights_inheriting;
   fd_t newfd;
   error = path_open(fd, lookup_flags, path, strlen(path),
-- 
2.43.0


From 5b58aadf59d882c53ff5313c732af316ea483afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 68/80] fix: empty paths, ./ prefixes and the error code of
 failed path lookups

---
 lib/src/dirent.c | 10 ++--------
 lib/src/fcntl.c  | 13 +++++++------
 lib/src/stat.c   | 15 +++------------
 lib/src/stdio.c  |  6 +-----
 lib/src/unistd.c | 26 +++++---------------------
 5 files changed, 18 insertions(+), 52 deletions(-)

diff --git a/lib/src/dirent.c b/lib/src/dirent.c
index 5eb8370..b7a0e84 100644
--- a/lib/src/dirent.c
+++ b/lib/src/dirent.c
@@ -77,10 +77,7 @@ DIR *opendir(const char *dirname)
 {
   char *relpath;
   int dirfd = find_relpath(dirname, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return NULL;
-  }
+  if (dirfd == -1) return NULL;
   return opendirat(dirfd, relpath);
 }
 
@@ -288,10 +285,7 @@ int scandir(const char *dir, struct dirent ***namelist,
 {
   char *relpath;
   int dirfd = find_relpath(dir, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return scandirat(dirfd, relpath, namelist, filter, compar);
 }
 
diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index cafb3d9..7d15c81 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -118,7 +118,11 @@ static bool prefix_matches(const char *prefix, size_t prefix_len, const char *pa
 
 static int find_abspath(const char *path, const char **abs_prefix, const char **relative_path) 
 {
-  while (*path == preopen_sep) ++path;
+  if (*path == '\0') {
+    errno = ENOENT;
+    return -1;
+  }
+  path = strip_prefixes(path);
   size_t match_len = 0, i;
   int fd = -1;
   for (i = num_preopens; i > 0; --i) {
@@ -132,7 +136,7 @@ static int find_abspath(const char *path, const char **abs_prefix, const char **
     }
   }
   if (fd == -1) {
-    errno = ENOENT;
+    errno = ENOTCAPABLE;
     return -1;
   }
   const char *computed = path + match_len;
@@ -210,10 +214,7 @@ int open(const char *path, int oflags)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return openat(dirfd, relpath, oflags);
 }
 
diff --git a/lib/src/stat.c b/lib/src/stat.c
index e433be0..0d96a06 100644
--- a/lib/src/stat.c
+++ b/lib/src/stat.c
@@ -85,10 +85,7 @@ int stat(const char *path, struct stat *ps)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return fstatat(dirfd, relpath, ps, 0);
 }
 
@@ -96,10 +93,7 @@ int lstat(const char *path, struct stat *ps)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return fstatat(dirfd, relpath, ps, AT_SYMLINK_NOFOLLOW);
 }
 
@@ -117,9 +111,6 @@ int mkdir(const char *path, mode_t mode)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return mkdirat(dirfd, relpath, mode);
 }
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 78136fb..9c2526d 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1603,7 +1603,6 @@ int rename(const char *oldpath, const char *newpath)
     if (newdirfd != -1)
       return renameat(olddirfd, oldrelpath, newdirfd, newrelpath);
   }
-  errno = ENOTCAPABLE;
   return -1;
 }
 
@@ -1611,10 +1610,7 @@ int remove(const char *path)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   int r = unlinkat(dirfd, relpath, 0);
   if (r != 0 && (errno == EISDIR || errno == ENOTCAPABLE)) {
     r = rmdirat(dirfd, relpath);
diff --git a/lib/src/unistd.c b/lib/src/unistd.c
index ca71eeb..597c2a9 100644
--- a/lib/src/unistd.c
+++ b/lib/src/unistd.c
@@ -186,10 +186,7 @@ int access(const char *path, int amode)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return faccessat(dirfd, relpath, amode, 0);
 }
 
@@ -211,10 +208,7 @@ int unlink(const char *path)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return unlinkat(dirfd, relpath, 0);
 }
 
@@ -242,7 +236,6 @@ int link(const char *oldpath, const char *newpath)
     if (newdirfd != -1)
       return linkat(olddirfd, oldrelpath, newdirfd, newrelpath, 0);
   }
-  errno = ENOTCAPABLE;
   return -1;
 }
 
@@ -260,10 +253,7 @@ int symlink(const char *tgtpath, const char *lnkpath)
 {
   char *relpath;
   int dirfd = find_relpath(lnkpath, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return symlinkat(tgtpath, dirfd, relpath);
 }
 
@@ -282,10 +272,7 @@ ssize_t readlink(const char *path, char *buf, size_t bufsize)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return readlinkat(dirfd, relpath, buf, bufsize);
 }
 
@@ -303,10 +290,7 @@ int rmdir(const char *path)
 {
   char *relpath;
   int dirfd = find_relpath(path, &relpath);
-  if (dirfd == -1) {
-    errno = ENOTCAPABLE;
-    return -1;
-  }
+  if (dirfd == -1) return -1;
   return rmdirat(dirfd, relpath);
 }
 
-- 
2.43.0


From 53b1968eae028a0a06aa1f627867e11c18650a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 69/80] fix: lseek refuses an invalid whence

---
 lib/src/unistd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/unistd.c b/lib/src/unistd.c
index 597c2a9..3a4b9d0 100644
--- a/lib/src/unistd.c
+++ b/lib/src/unistd.c
@@ -89,6 +89,10 @@ ssize_t pwrite(int fd, const void *buf, size_t nbyte, off_t offset)
 off_t lseek(int fd, off_t offset, int whence) 
 {
   filesize_t new_offset;
+  if (whence != SEEK_SET && whence != SEEK_CUR && whence != SEEK_END) {
+    errno = EINVAL;
+    return -1;
+  }
   errno_t err = fd_seek(fd, (filedelta_t)offset, (whence_t)whence, &new_offset);
   if (err != 0) {
     errno = (err == ERRNO_NOTCAPABLE) ? ESPIPE : (int)err;
-- 
2.43.0


From 96ee52b05589153435ed03fdbd9b692679805451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 70/80] fix: scandir without a comparison function

---
 lib/src/dirent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/dirent.c b/lib/src/dirent.c
index b7a0e84..ba0e211 100644
--- a/lib/src/dirent.c
+++ b/lib/src/dirent.c
@@ -264,7 +264,7 @@ int scandirat(int dirfd, const char *dir, struct dirent ***namelist,
 
     free(buffer);
     close(fd);
-    qsort(dirents, dirents_used, sizeof(struct dirent *), (int (*)(const void *, const void *))compar);
+    if (compar != NULL) qsort(dirents, dirents_used, sizeof(struct dirent *), (int (*)(const void *, const void *))compar);
     *namelist = dirents;
     return (int)dirents_used;
 
-- 
2.43.0


From fcbd7e137a6d51c00a1b72ace574de407a81ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 71/80] fix: failures while looking up the granted directories
 are reported and leave no partial table

---
 lib/src/fcntl.c | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index 7d15c81..8f5cfcc 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -80,30 +80,41 @@ static int register_preopened_fd(fd_t fd, const char *relprefix)
   return 0;
 }
 
+static errno_t add_preopen(fd_t fd, size_t name_len)
+{
+  char *prefix = malloc(name_len + 1);
+  if (prefix == NULL) return ERRNO_NOMEM;
+  errno_t ret = fd_prestat_dir_name(fd, (uint8_t *)prefix, name_len);
+  if (ret == ERRNO_SUCCESS) {
+    prefix[name_len] = '\0';
+    if (name_len > 0 && prefix[name_len-1] == '\\') {
+      preopen_sep = '\\'; /* windows path conventions */
+    }
+    if (register_preopened_fd(fd, prefix) != 0) ret = ERRNO_NOMEM;
+  }
+  free(prefix);
+  return ret;
+}
+
 static int populate_preopens(void)
 {
-  fd_t fd;
+  fd_t fd; errno_t ret = ERRNO_SUCCESS;
   if (preopens_populated) return 0;
-  preopens_populated = true;
   for (fd = 3; fd != 0; ++fd) {
     prestat_t prestat;
-    errno_t ret = fd_prestat_get(fd, &prestat);
-    if (ret == ERRNO_BADF) break;
-    if (ret != ERRNO_SUCCESS) return 1;
-    if (prestat.tag == PREOPENTYPE_DIR) {
-      char *prefix = malloc(prestat.u.dir.pr_name_len + 1);
-      if (!prefix) return 2;
-      ret = fd_prestat_dir_name(fd, (uint8_t *)prefix, prestat.u.dir.pr_name_len);
-      if (ret != ERRNO_SUCCESS) return 3;
-      prefix[prestat.u.dir.pr_name_len] = '\0';
-      if (prestat.u.dir.pr_name_len > 0 && prefix[prestat.u.dir.pr_name_len-1] == '\\') {
-        preopen_sep = '\\'; /* windows path conventions */
-      }
-      register_preopened_fd(fd, prefix);
-      free(prefix);                                       
+    ret = fd_prestat_get(fd, &prestat);
+    if (ret == ERRNO_BADF) {
+      preopens_populated = true;
+      return 0;
     }
+    if (ret == ERRNO_SUCCESS && prestat.tag == PREOPENTYPE_DIR)
+      ret = add_preopen(fd, prestat.u.dir.pr_name_len);
+    if (ret != ERRNO_SUCCESS) break;
   }
-  return 0;
+  /* start over with the next lookup */
+  while (num_preopens > 0) free((void *)preopens[--num_preopens].prefix);
+  errno = (int)ret;
+  return -1;
 }
 
 static bool prefix_matches(const char *prefix, size_t prefix_len, const char *path) 
@@ -149,7 +160,7 @@ static int find_abspath(const char *path, const char **abs_prefix, const char **
 int find_relpath(const char *path, char **relative_path) 
 {
   const char *abs_prefix; 
-  if (!preopens_populated) populate_preopens(); // todo: check ret value!
+  if (populate_preopens() != 0) return -1;
   return find_abspath(path, &abs_prefix, (const char**)relative_path);
 }
 
-- 
2.43.0


From 1b9528605bf75a483885773fdf8593d2255bf0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 72/80] fix: failures to read an input or to write the output
 fail the compilation

---
 c.c | 14 ++++++++++++--
 p.c |  2 ++
 w.c |  2 ++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index ef0530b..ef23a63 100644
--- a/c.c
+++ b/c.c
@@ -4717,6 +4717,14 @@ void compile_module_to_wat(const char *ifname, wat_module_t *pwm)
   fini_compiler();
 }
 
+/* output is complete only if it reaches the file */
+static void close_output(FILE *pf, const char *fname)
+{
+  bool err = ferror(pf) || fflush(pf) == EOF;
+  if (pf != stdout && fclose(pf) == EOF) err = true;
+  if (err) eprintf("cannot write output file %s:", fname);
+}
+
 int main(int argc, char **argv)
 {
   int opt; char *eoarg;
@@ -4783,10 +4791,11 @@ int main(int argc, char **argv)
       FILE *pf = fopen(ofile_arg, "w");
       if (!pf) eprintf("cannot open output file %s:", ofile_arg);
       write_wat_module(&wm, pf);
-      fclose(pf);
+      close_output(pf, ofile_arg);
       logef("# object module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
+      close_output(stdout, "-");
     }
     wat_module_fini(&wm);   
   } else {
@@ -4825,10 +4834,11 @@ int main(int argc, char **argv)
         if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         write_wat_module(&wm, pf);
       }
-      fclose(pf);
+      close_output(pf, ofile_arg);
       logef("# executable module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
+      close_output(stdout, "-");
     }
 
     wat_module_fini(&wm);
diff --git a/p.c b/p.c
index 498405f..7688c5d 100644
--- a/p.c
+++ b/p.c
@@ -233,6 +233,8 @@ static int fetchline(pws_t *pw, char **ptbase, int *pendi)
   while (c == EOF && !pw->inateof) {
     char *line = (*pw->getlb)(&pw->incb, pw->input);
     if (!line) {
+      if (pw->close == (fclose_t)&fclose && ferror((FILE*)pw->input))
+        eprintf("cannot read %s:", pw->infile);
       pw->inateof = true;
     } else {
       size_t pos = buflen(pp) + pw->discarded;
diff --git a/w.c b/w.c
index 3d44854..33f8dd3 100644
--- a/w.c
+++ b/w.c
@@ -2296,6 +2296,8 @@ static int fetchline(sws_t *pw, char **ptbase, int *pendi)
   if (!pw->inateof) {
     char *line = (*pw->getlb)(pp, pw->input);
     if (!line) {
+      if (pw->close == (fclose_t)&fclose && ferror((FILE*)pw->input))
+        eprintf("cannot read %s:", pw->infile);
       pw->inateof = true;
     } else {
       cbputc('\n', pp);
-- 
2.43.0


From 9492928dda7bf16e0d8d499fe2ccfa12a00eefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 73/80] fix: numbers of objects and options are read as long
 long, so that the self-hosted compiler refuses what the native one refuses

---
 c.c | 8 ++++----
 w.c | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/c.c b/c.c
index ef23a63..d2cd126 100644
--- a/c.c
+++ b/c.c
@@ -4732,8 +4732,8 @@ int main(int argc, char **argv)
   const char *ofile_arg = NULL;
   bool c_opt = false;
   long lvl_arg = 3;
-  unsigned long s_arg = 131072; /* 128K default */
-  unsigned long a_arg = 4096; /* 4K default */
+  unsigned long long s_arg = 131072; /* 128K default */
+  unsigned long long a_arg = 4096; /* 4K default */
   const char *path;
   dsbuf_t incv, libv; 
   
@@ -4767,8 +4767,8 @@ int main(int argc, char **argv)
       case 'o':  ofile_arg = eoptarg; break;
       case 'I':  eoarg = eoptarg; dsbpushbk(&incv, &eoarg); break;
       case 'L':  eoarg = eoptarg; dsbpushbk(&libv, &eoarg); break;
-      case 's':  s_arg = strtoul(eoptarg, NULL, 0); break; 
-      case 'a':  a_arg = strtoul(eoptarg, NULL, 0); break; 
+      case 's':  s_arg = strtoull(eoptarg, NULL, 0); break; 
+      case 'a':  a_arg = strtoull(eoptarg, NULL, 0); break; 
       case 'h':  eusage("WCPL 1.04 built on " __DATE__);
     }
   }
diff --git a/w.c b/w.c
index 33f8dd3..e9f2e18 100644
--- a/w.c
+++ b/w.c
@@ -3279,7 +3279,7 @@ static unsigned parse_offset(sws_t *pw)
 {
   char *s;
   if (peekt(pw) == WT_KEYWORD && (s = strprf(pw->tokstr, "offset=")) != NULL) {
-    char *e; unsigned long offset; errno = 0; offset = strtoul(s, &e, 10); 
+    char *e; unsigned long long offset; errno = 0; offset = strtoull(s, &e, 10); 
     if (errno || *e != 0 || offset > UINT_MAX) 
       seprintf(pw, "invalid offset= argument");
     dropt(pw);
@@ -3294,7 +3294,7 @@ static unsigned parse_size(sws_t *pw)
 {
   char *s;
   if (peekt(pw) == WT_KEYWORD && (s = strprf(pw->tokstr, "size=")) != NULL) {
-    char *e; unsigned long size; errno = 0; size = strtoul(s, &e, 10); 
+    char *e; unsigned long long size; errno = 0; size = strtoull(s, &e, 10); 
     if (errno || *e != 0 || size > UINT_MAX) 
       seprintf(pw, "invalid size= argument");
     dropt(pw);
@@ -3309,7 +3309,7 @@ static unsigned parse_align(sws_t *pw)
 {
   char *s;
   if (peekt(pw) == WT_KEYWORD && (s = strprf(pw->tokstr, "align=")) != NULL) {
-    char *e; unsigned long align; errno = 0; align = strtoul(s, &e, 10); 
+    char *e; unsigned long long align; errno = 0; align = strtoull(s, &e, 10); 
     if (errno || *e != 0 || (align != 1 && align != 2 && align != 4 && align != 8 && align != 16)) 
       seprintf(pw, "invalid align= argument");
     dropt(pw);
-- 
2.43.0


From 5e2a20f6e068641fab3e6baf88f07740d91b1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 74/80] fix: a link without main() is refused by name, not by
 printing a null string

---
 w.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/w.c b/w.c
index e9f2e18..f2f2674 100644
--- a/w.c
+++ b/w.c
@@ -4231,7 +4231,7 @@ void link_wat_modules(wat_module_buf_t *pwb, wat_module_t* pm)
       eprintf("duplicate module: %s", symname(pmi->name));
     else *(sym_t*)bufnewbk(&curmodnames) = pmi->name;
   }
-  if (!mainmod) logef("error: main() function not found\n"); /* fixme: should be eprintf */
+  if (!mainmod) eprintf("main() function not found");
   else logef("# main() found in '%s' module\n", symname(mainmod));
 
   /* add missing library modules */
-- 
2.43.0


From 573091959cd8b676026212ee74e7bdf9a0de4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 75/80] fix: block comments in object files end at ;;) and nest
 after ((

---
 w.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/w.c b/w.c
index f2f2674..baa775f 100644
--- a/w.c
+++ b/w.c
@@ -2990,22 +2990,17 @@ static bool lexbc(sws_t *pw, cbuf_t *pcb)
   int *pcuri = &pw->curi;
   int endi = (int)cblen(&pw->chars);
   size_t depth = 1; /* of nested block comments */
-  int c;
+  int c, pc = 0;
   while (true) {
     readchar();
     if (c == EOF) break;
     cbputc(c, pcb);
-    if (c == '(') {
-      readchar();
-      if (c == EOF) break;
-      cbputc(c, pcb);
-      if (c == ';') ++depth;
-    } else if (c == ';') {
-      readchar();
-      if (c == EOF) break;
-      cbputc(c, pcb);
-      if (c == ')' && --depth == 0) return true;
+    if (pc == '(' && c == ';') {
+      ++depth; c = 0; /* this ; can't end a comment */
+    } else if (pc == ';' && c == ')') {
+      if (--depth == 0) return true;
     }
+    pc = c;
   }
   return false;
 }
-- 
2.43.0


From de15ec959497b3fbb8934427a442e45db0fd330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 76/80] fix: \u{...} escapes in object file strings are decoded

---
 w.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/w.c b/w.c
index baa775f..5875218 100644
--- a/w.c
+++ b/w.c
@@ -3098,7 +3098,7 @@ static unsigned long strtowatec(const char *s, char** ep)
         case '\\': l = 0x5C; break;
         case '\'': l = 0x27; break;
         case '\"': l = 0x22; break;
-        case 'x': {
+        case 'u': {
           int i = 0; 
           if (*s++ != '{') goto err;
           while (i < SBSIZE && (c = *s++) && isxdigit(c))
-- 
2.43.0


From 5d63e9694be39bf551ba281f80573e7ca84fef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 77/80] fix: convert the argument of alloca like any other
 expression

---
 c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c.c b/c.c
index d2cd126..f49f7a3 100644
--- a/c.c
+++ b/c.c
@@ -1953,6 +1953,10 @@ static void expr_wasmify(node_t *pn, buf_t *pvib, buf_t *plib)
           ndswap(pin, ptn); pn->nt = NT_CAST;
           wrap_unary_operator(pn, pn->startpos, TT_STAR);
         } break;
+        case INTR_ALLOCA: {
+          assert(ndlen(pn) == 1);
+          expr_wasmify(ndref(pn, 0), pvib, plib);
+        } break;
         case INTR_SIZEOF: case INTR_ALIGNOF: case INTR_OFFSETOF: {
           node_t *pan; assert(ndlen(pn) >= 1);
           pan = ndref(pn, 0);
-- 
2.43.0


From b884fa5ecf5ac77f3d275ccad3200cb721eef2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 78/80] fix: an address does not initialise a global that is
 not a pointer

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index f49f7a3..01b3b0f 100644
--- a/c.c
+++ b/c.c
@@ -1421,6 +1421,7 @@ static void process_vardecl(sym_t mmod, node_t *pdn, node_t *pin)
             asm_numerical_const(r.ts == TS_PTR ? TS_UINT : r.ts, &r.val, &pg->ic); /* wasm32 */
           } else {
             const node_t *pimn = lookup_global(r.id); inscode_t *pic = &pg->ic;
+            if (ptn->ts != TS_PTR) neprintf(pdn, "unexpected initializer for a non-pointer type");
             if (!pimn) neprintf(pdn, "unknown identifier in address initializer");
             assert(pimn->nt == NT_IMPORT && pimn->name != 0 && ndlen(pimn) == 1);
             pic->in = ndcref(pimn, 0)->ts == TS_FUNCTION ? IN_REF_FUNC : IN_REF_DATA; 
-- 
2.43.0


From af086375ff9a43a9bfa5dc8856b1b1dc960445e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 79/80] fix: <stdlib.h> can be included more than once

---
 lib/include/stdlib.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/stdlib.h b/lib/include/stdlib.h
index cf06f17..fdceff2 100644
--- a/lib/include/stdlib.h
+++ b/lib/include/stdlib.h
@@ -1,5 +1,7 @@
 /* General utilities */
 
+#pragma once
+
 #define EXIT_FAILURE 1
 #define EXIT_SUCCESS 0
 #define MB_CUR_MAX 4 /* utf-8 */
-- 
2.43.0


From ffaf1a170ee0632625ae78d5408fd2c44d9b753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 80/80] fix: the types and limits <stdint.h> lacks,
 <inttypes.h> declares them, FLT_ROUNDS

---
 lib/include/float.h    |  1 +
 lib/include/inttypes.h |  1 +
 lib/include/stdint.h   | 13 +++++++++++++
 3 files changed, 15 insertions(+)

diff --git a/lib/include/float.h b/lib/include/float.h
index 7e58039..ff4d889 100644
--- a/lib/include/float.h
+++ b/lib/include/float.h
@@ -17,6 +17,7 @@
 #define FLT_MIN_EXP (-125)
 
 #define FLT_RADIX 2
+#define FLT_ROUNDS 1
 
 #define DBL_MAX 1.79769313486231570815e+308
 #define FLT_MAX 3.40282346638528859812e+38F
diff --git a/lib/include/inttypes.h b/lib/include/inttypes.h
index ad59a4d..68c8cf5 100644
--- a/lib/include/inttypes.h
+++ b/lib/include/inttypes.h
@@ -1,6 +1,7 @@
 /* Format macro constants */
 
 #pragma once
+#include <stdint.h>
 
 #define PRId8 "d"
 #define PRId16 "d"
diff --git a/lib/include/stdint.h b/lib/include/stdint.h
index f25bc84..fadd861 100644
--- a/lib/include/stdint.h
+++ b/lib/include/stdint.h
@@ -14,6 +14,8 @@
 #define SIZE_MAX UINTPTR_MAX
 
 typedef int8_t int_fast8_t;
+typedef int32_t int_fast16_t;
+typedef int32_t int_fast32_t;
 typedef int64_t int_fast64_t;
 
 typedef int8_t  int_least8_t;
@@ -22,6 +24,8 @@ typedef int32_t int_least32_t;
 typedef int64_t int_least64_t;
 
 typedef uint8_t uint_fast8_t;
+typedef uint32_t uint_fast16_t;
+typedef uint32_t uint_fast32_t;
 typedef uint64_t uint_fast64_t;
 
 typedef uint8_t  uint_least8_t;
@@ -53,6 +57,8 @@ typedef uint64_t uintmax_t;
 #define UINTMAX_MAX UINT64_MAX
 
 #define INT_FAST8_MIN   INT8_MIN
+#define INT_FAST16_MIN  INT32_MIN
+#define INT_FAST32_MIN  INT32_MIN
 #define INT_FAST64_MIN  INT64_MIN
 
 #define INT_LEAST8_MIN   INT8_MIN
@@ -61,6 +67,8 @@ typedef uint64_t uintmax_t;
 #define INT_LEAST64_MIN  INT64_MIN
 
 #define INT_FAST8_MAX   INT8_MAX
+#define INT_FAST16_MAX  INT32_MAX
+#define INT_FAST32_MAX  INT32_MAX
 #define INT_FAST64_MAX  INT64_MAX
 
 #define INT_LEAST8_MAX   INT8_MAX
@@ -69,6 +77,8 @@ typedef uint64_t uintmax_t;
 #define INT_LEAST64_MAX  INT64_MAX
 
 #define UINT_FAST8_MAX  UINT8_MAX
+#define UINT_FAST16_MAX UINT32_MAX
+#define UINT_FAST32_MAX UINT32_MAX
 #define UINT_FAST64_MAX UINT64_MAX
 
 #define UINT_LEAST8_MAX  UINT8_MAX
@@ -85,3 +95,6 @@ typedef uint64_t uintmax_t;
 #define INT64_C(c) ((long long)(c))
 #define UINT64_C(c) ((unsigned long long)(c))
 
+#define INTMAX_C(c) INT64_C(c)
+#define UINTMAX_C(c) UINT64_C(c)
+
-- 
2.43.0

