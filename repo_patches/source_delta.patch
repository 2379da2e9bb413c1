From 74cdf071ac826673c5d1130d7293295155504531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 01/93] fix: wam2ma truncates switch_on_integer keys to 32 bits

---
 src/Wam2Ma/wam2ma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Wam2Ma/wam2ma.c b/src/Wam2Ma/wam2ma.c
index 25adc5c..1e6a8c3 100644
--- a/src/Wam2Ma/wam2ma.c
+++ b/src/Wam2Ma/wam2ma.c
@@ -1432,7 +1432,7 @@ F_switch_on_integer(ArgVal arg[])
   c = '(';
   for(i = 0; i < nb_elem; i++)
     {
-      LOAD_C_INT(n);
+      LOAD_INTEGER(n);
       LOAD_LABEL(l);
       if (i % 5 == 0 && i > 0)
 	{
-- 
2.43.0


From 3b105970cf8233e41523f9cf17d84216641bb6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 02/93] fix: ma2asm orders switch_ret cases by a truncated
 64-bit difference

---
 src/Ma2Asm/ma2asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ma2Asm/ma2asm.c b/src/Ma2Asm/ma2asm.c
index d521b0d..8f3ad07 100644
--- a/src/Ma2Asm/ma2asm.c
+++ b/src/Ma2Asm/ma2asm.c
@@ -727,7 +727,7 @@ Switch_Equal(SwtInf *c)
 int
 Switch_Cmp_Int(SwtInf *c1, SwtInf *c2)
 {
-  return (int) (c1->int_val - c2->int_val);
+  return (c1->int_val > c2->int_val) - (c1->int_val < c2->int_val);
 }
 
 
-- 
2.43.0


From 518d5c0100e9745ded1072ebf89164494776cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 03/93] fix: retract on a clause of an abolished predicate
 corrupts the erased-clause chain

---
 src/BipsPl/dynam_supp.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index d5412f1..1eb121a 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -709,6 +709,16 @@ Pl_Delete_Dynamic_Clause(DynCInf *clause)
 
   MPROBE_PTR("dyn", dyn);
 
+  /*
+   * Test if the whole predicate has been erased (see Erase_All) while a scan
+   * was active on it (LDUV): its clauses are already counted and will be freed
+   * all together. In particular do not overwrite ALL_MUST_BE_ERASED.
+   *
+   * | ?- retract(foo(X)), abolish(foo/1), fail.
+   */
+  if (dyn->first_erased_cl == ALL_MUST_BE_ERASED)
+    return;
+
 #if DEBUG_LEVEL >= 1
   Print_Dynamic_Clause("Delete clause", clause);
 #endif
-- 
2.43.0


From f2262ed095cb6f401e209bd83fe05f91e7424ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 04/93] fix: setarg stores a reference to the local stack, or a
 copy of an FD variable cell, in the heap

---
 src/BipsPl/term_inl_c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BipsPl/term_inl_c.c b/src/BipsPl/term_inl_c.c
index cca2400..bd11443 100644
--- a/src/BipsPl/term_inl_c.c
+++ b/src/BipsPl/term_inl_c.c
@@ -507,6 +507,11 @@ Pl_Setarg_4(WamWord arg_no_word, WamWord term_word, WamWord new_value_word,
   if (arg_no >= (PlULong) arity) /* include arg_no < 0 since arg_no is a PlULong */
     return FALSE;
 
+  if (tag_mask == TAG_REF_MASK)	/* no reference from the heap to the local stack */
+    word = Pl_Globalize_If_In_Local(word);
+  else
+    Do_Copy_Of_Word(tag_mask, word);	/* since Dont_Separate_Tag */
+
   if (undo)
     Bind_OV((arg_adr + arg_no), word);
   else
-- 
2.43.0


From aea305b6c3efa60d46be24282a97ba22a5d0275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 05/93] fix: (<<)/2 of a negative integer returned a wrapped
 value instead of int_overflow

---
 src/BipsPl/arith_inl_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index fa0101e..748d75c 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1004,7 +1004,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
   if (y < 0)
     {
       if (y == INT_LOWEST_VALUE)
-	  return Tag_INT(0);
+	  return Tag_INT((x >= 0) ? 0 : -1);
       return Pl_Fct_Fast_Shr(x_word, Tag_INT(-y));
     }
   
@@ -1016,7 +1016,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
     }
   else
     {
-      if (x > (INT_GREATEST_VALUE >> y))
+      if (x > (INT_GREATEST_VALUE >> y) || x < (INT_LOWEST_VALUE >> y))
 	Pl_Err_Evaluation(pl_evaluation_int_overflow);
       z = x << y;
     }
-- 
2.43.0


From dc5bb78f3f46741729fc8dc49c933cd42c935fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 06/93] fix: lsb/msb/popcount of a negative integer put an
 untagged value in the error term (crash)

---
 src/BipsPl/arith_inl_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 748d75c..230c183 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1052,7 +1052,7 @@ Pl_Fct_Fast_LSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Least_Significant_Bit(x));
 }
 
@@ -1061,7 +1061,7 @@ Pl_Fct_Fast_MSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Most_Significant_Bit(x));
 }
 
@@ -1070,7 +1070,7 @@ Pl_Fct_Fast_Popcount(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT(Pl_Count_Set_Bits(x));
 }
 
-- 
2.43.0


From fca67559cca86c9ab59809756cadb6e869630783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 07/93] fix: gcd(min_integer, min_integer) returned a negative
 value instead of int_overflow

---
 src/BipsPl/arith_inl_c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 230c183..5e307a3 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1112,6 +1112,10 @@ Pl_Fct_Fast_GCD(WamWord x_word, WamWord y_word)
       x = y;
       y = r;
     }
+
+  if (x > INT_GREATEST_VALUE)	/* both are 0 or INT_LOWEST_VALUE */
+    Pl_Err_Evaluation(pl_evaluation_int_overflow);
+
   return Tag_INT(x);
 }
 
-- 
2.43.0


From dd21f9574762459721f2cf2e9732813adc28b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 08/93] fix: succ/2 did not see that its second argument is
 negative when it is a bound variable

---
 src/BipsPl/arith_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 5e307a3..34b1e52 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -555,7 +555,7 @@ Pl_Succ_2(WamWord x_word, WamWord y_word)
       DEREF(y_word, word, tag_mask);
       if (tag_mask == TAG_INT_MASK)
 	{
-	  y = UnTag_INT(y_word);
+	  y = UnTag_INT(word);
 	  if (y < 0)
 	    Pl_Err_Domain(pl_domain_not_less_than_zero, y_word);
 	}
-- 
2.43.0


From ad4d39d9775140530f07da76ecdb4b24b88b89ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 09/93] fix: round/1 rounded 0.49999999999999994 to 1 and odd
 floats above 2^52 to the next even integer

---
 src/BipsPl/arith_inl_c.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 34b1e52..e6068b7 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -60,8 +60,14 @@
 
 
 
-/* ISO round/1 (neither lrint nor lround) - see Core 1, section 9.1.6.1 */
-#define pl_round(x)  (floor((x) + (double) 0.5))
+/* ISO round/1 (neither lrint nor lround) - see Core 1, section 9.1.6.1
+ * floor(x + 1/2), but x + 0.5 can be inexact as a double: do not compute it */
+static inline double
+pl_round(double x)
+{
+  double f = floor(x);
+  return (x - f >= 0.5) ? f + 1.0 : f;
+}
 
 
 /* PI and E */
-- 
2.43.0


From 73afae94f2e305e054ec92178a49ea5b7ca9415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 10/93] fix: unifying an FD variable with an integer truncated
 the integer to 32 bits

---
 src/EnginePl/if_no_fd.h | 4 +++-
 src/EnginePl/unify.c    | 4 ++--
 src/EnginePl/wam_inst.c | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/EnginePl/if_no_fd.h b/src/EnginePl/if_no_fd.h
index 6e6e7a3..dbd0a63 100644
--- a/src/EnginePl/if_no_fd.h
+++ b/src/EnginePl/if_no_fd.h
@@ -83,7 +83,9 @@ void Pl_Fd_Init_Solver(void);
 
 void Pl_Fd_Reset_Solver(void);
 
-#define Fd_Unify_With_Integer(f, n) ((*pl_fd_unify_with_integer)(f, n))
+/* an integer which does not fit in an int cannot belong to a domain */
+#define Fd_Unify_With_Integer(f, n) \
+  ((PlLong) (int) (n) == (PlLong) (n) && (*pl_fd_unify_with_integer)(f, (int) (n)))
 
 #define Fd_Unify_With_Fd_Var(f1, f2)((*pl_fd_unify_with_fd_var)(f1, f2))
 
diff --git a/src/EnginePl/unify.c b/src/EnginePl/unify.c
index f4444be..06d4511 100644
--- a/src/EnginePl/unify.c
+++ b/src/EnginePl/unify.c
@@ -148,14 +148,14 @@ UNIFY_FCT_NAME(WamWord start_u_word, WamWord start_v_word)
 
 #ifndef NO_USE_FD_SOLVER
   if (v_tag_mask == TAG_INT_MASK && u_tag_mask == TAG_FDV_MASK)
-    return Fd_Unify_With_Integer(UnTag_FDV(u_word), (int) UnTag_INT(v_word));
+    return Fd_Unify_With_Integer(UnTag_FDV(u_word), UnTag_INT(v_word));
 
   if (v_tag_mask == TAG_FDV_MASK)
     {
       v_adr = UnTag_FDV(v_word);
 
       if (u_tag_mask == TAG_INT_MASK)
-	return Fd_Unify_With_Integer(v_adr, (int) UnTag_INT(u_word));
+	return Fd_Unify_With_Integer(v_adr, UnTag_INT(u_word));
 
       if (u_tag_mask != v_tag_mask) /* i.e. TAG_FDV_MASK */
 	return FALSE;
diff --git a/src/EnginePl/wam_inst.c b/src/EnginePl/wam_inst.c
index e54c22d..8a8b7de 100644
--- a/src/EnginePl/wam_inst.c
+++ b/src/EnginePl/wam_inst.c
@@ -256,7 +256,7 @@ Pl_Get_Integer_Tagged(WamWord w, WamWord start_word)
 
 #ifndef NO_USE_FD_SOLVER
   if (tag_mask == TAG_FDV_MASK)
-    return Fd_Unify_With_Integer(UnTag_FDV(word), (int) UnTag_INT(w));
+    return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w));
 #endif
 
   return (word == w);
@@ -875,7 +875,7 @@ Pl_Unify_Integer_Tagged(WamWord w)
 
 #ifndef NO_USE_FD_SOLVER
       if (tag_mask == TAG_FDV_MASK)
-	return Fd_Unify_With_Integer(UnTag_FDV(word), (int) UnTag_INT(w));
+	return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w));
 #endif
 
       return (word == w);
-- 
2.43.0


From c0f73f037aabc2979e15dea62952c2eeca6b7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 11/93] fix: memberchk/2 stored a reference to the local stack
 in the list it extends

---
 src/BipsPl/list_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/list_c.c b/src/BipsPl/list_c.c
index 9f14da8..9c0a332 100644
--- a/src/BipsPl/list_c.c
+++ b/src/BipsPl/list_c.c
@@ -282,7 +282,7 @@ Pl_Memberchk_2(WamWord elem_word, WamWord list_word)
 	  break;
 	}
 
-      if (Pl_Unify_Value(elem_word)) /* unification will trail */
+      if (Pl_Unify_Local_Value(elem_word)) /* unification will trail */
 	{
 	  Pl_Unify_Void(1);  /* important if in write mode (list_word is a var) */
 	  ret = TRUE;
-- 
2.43.0


From ad40e609a189d51d035ffde1ba36e3d823c56156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 12/93] fix: term_variables/2,3 stored a reference to the local
 stack in the list they build

---
 src/BipsPl/term_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/term_inl_c.c b/src/BipsPl/term_inl_c.c
index bd11443..fc501c4 100644
--- a/src/BipsPl/term_inl_c.c
+++ b/src/BipsPl/term_inl_c.c
@@ -589,7 +589,7 @@ Pl_Term_Variables_3(WamWord start_word, WamWord list_word, WamWord tail_word)
 
   for(p = pl_glob_dico_var; p < var_ptr; p++)
     {
-      if (!Pl_Get_List(list_word) || !Pl_Unify_Value(*p))
+      if (!Pl_Get_List(list_word) || !Pl_Unify_Local_Value(*p))
 	return FALSE;
       list_word = Pl_Unify_Variable();
     }
-- 
2.43.0


From a071f6c4b89488fafa5129f9347a5f34218f39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 13/93] fix: member/2 lost or altered its answers when unifying
 an element binds the tail of the list

---
 src/BipsPl/list_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/list_c.c b/src/BipsPl/list_c.c
index 9c0a332..340df15 100644
--- a/src/BipsPl/list_c.c
+++ b/src/BipsPl/list_c.c
@@ -210,9 +210,9 @@ Bool Pl_Member_3(void)
     {
       Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(MEMBER_ALT, 0), 3);
 
-      ok = Pl_Unify(A(0), A(1));
+      DEREF(A(2), word, tag_mask); /* before Pl_Unify which can bind the tail */
 
-      DEREF(A(2), word, tag_mask);
+      ok = Pl_Unify(A(0), A(1));
 #if 1
       if (tag_mask != TAG_REF_MASK && tag_mask != TAG_LST_MASK)
 	{
-- 
2.43.0


From 5d0302a0af1c818ed723691cb0da723c5251f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 14/93] fix: sub_atom/5 read outside the atom and returned
 negative numbers when Sub and an out of range Before or After were known

---
 src/BipsPl/atom_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/atom_c.c b/src/BipsPl/atom_c.c
index 7f53c1e..234c1c1 100644
--- a/src/BipsPl/atom_c.c
+++ b/src/BipsPl/atom_c.c
@@ -363,14 +363,14 @@ Pl_Sub_Atom_5(WamWord atom_word, WamWord before_word, WamWord length_word,
       if (mask & 4)		/* B fixed */
 	{
 	  a = length - b - l;
-	  return strncmp(patom->name + b, psub_atom->name, l) == 0 &&
+	  return a >= 0 && strncmp(patom->name + b, psub_atom->name, l) == 0 &&
 	    Pl_Get_Integer(a, after_word);
 	}
 
       if (mask & 1)		/* A fixed */
 	{
 	  b = length - l - a;
-	  return strncmp(patom->name + b, psub_atom->name, l) == 0 &&
+	  return b >= 0 && strncmp(patom->name + b, psub_atom->name, l) == 0 &&
 	    Pl_Get_Integer(b, before_word);
 	}
       mask = 8;			/* set sub_atom as fixed */
-- 
2.43.0


From d6deadafe82157a5d6ea0db2e7c8f2d3ffcaa477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 15/93] fix: a backtrackable array assigned over a larger
 array, or an array extended to a smaller size, overran the new array

---
 src/BipsPl/g_var_inl_c.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 90c40c2..23cebda 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -693,19 +693,23 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
   if (array_op == G_ARRAY_EXTEND && g_elem->size >= 0)
     array_op = G_ARRAY;
 
-  if (array_op != G_ARRAY_EXTEND && !backtrack)
+  if (array_op != G_ARRAY_EXTEND)
     {
-      G_Free_Element(g_elem, TRUE);
-      g_elem->size = 0;
+      if (!backtrack)
+	G_Free_Element(g_elem, TRUE);
+      g_elem->size = 0;		/* do not keep the elements of an old array */
     }
 
   size = -g_elem->size;
 
+  if (new_size < size)		/* already larger: nothing to add */
+    new_size = size;
+
   p = G_Alloc_Array(g_elem, new_size, backtrack);
 
   if (array_op == G_ARRAY_EXTEND)
     {
-      if (!same_init_value)
+      if (!same_init_value && new_size > size)
 	for(i = 0; i < size; i++) /* skip size 1st elems of list */
 	  {
 	    Pl_Get_List(lst_word);
-- 
2.43.0


From 5ac306df4dc0eddbf6705c80061f36e679cd3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 16/93] fix: g_assign/2 of a sub-term of a linked global
 variable took the linked term for an address

---
 src/BipsPl/g_var_inl_c.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 23cebda..994faac 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -524,11 +524,28 @@ G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack, Bool copy)
   GTarget *gt = Get_Target_From_Gvar(gvar_word);
   GVarElt *g_elem = gt->g_elem;
   WamWord *g_arg = gt->g_arg;
+  WamWord *adr;
+  PlLong size;
 
   if (g_arg != NULL)		/* arg selector given */
     {
       if (backtrack)
 	Pl_Err_Domain(pl_domain_g_argument_selector, gvar_word);
+
+      if (g_elem->size == 0)	/* a link: becomes a copy */
+	{
+	  size = Pl_Term_Size(g_elem->val);
+	  adr = (WamWord *) Malloc(size * sizeof(WamWord));
+	  Pl_Copy_Term(adr, &g_elem->val);
+
+	  G_Free_Element(g_elem, TRUE);
+	  g_elem->size = size;
+	  g_elem->val = (WamWord) adr;
+
+	  gt = Get_Target_From_Gvar(gvar_word);
+	  g_elem = gt->g_elem;
+	  g_arg = gt->g_arg;
+	}
       G_Assign_Arg(g_elem, g_arg, gval_word);
     }
   else
-- 
2.43.0


From 1e85daa5757ccd3e69e94feb6cc36c5b668908cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 17/93] fix: an index or argument number whose evaluation
 expands an automatic array used stale sizes and addresses

---
 src/BipsPl/g_var_inl_c.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 994faac..b3cb1bd 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -859,7 +859,7 @@ Get_Target_From_Gvar(WamWord gvar_word)
   GVarElt *p;
   PlLong i, j, size;
   int new_size;
-  PlLong index;
+  PlLong index, tbl_index[MAX_ARITY];
   GTarget *gt = &g_target;
 
   arg_adr = Pl_Rd_Callable_Check(gvar_word, &atom, &arity);
@@ -884,17 +884,22 @@ Get_Target_From_Gvar(WamWord gvar_word)
       Pl_Err_Domain(pl_domain_g_array_index, gvar_word);
     }
 
+				/* first all indexes: an indirection can expand an array */
   for (i = 0; i < arity; i++)
     {
-      size = g_elem->size;
-
-      word1 = *arg_adr;
+      word1 = arg_adr[i];
       DEREF(word1, word, tag_mask);
 
       if (tag_mask != TAG_INT_MASK) /* follow the indirection */
 	word = *Get_Int_Addr_From_Gvar(word);
 
-      index = UnTag_INT(word);
+      tbl_index[i] = UnTag_INT(word);
+    }
+
+  for (i = 0; i < arity; i++)
+    {
+      size = g_elem->size;
+      index = tbl_index[i];
 
       if (size >= 0 || index < 0)
 	goto error;
@@ -923,7 +928,6 @@ Get_Target_From_Gvar(WamWord gvar_word)
 	}
 
       g_elem = (GVarElt *) (g_elem->val) + index;
-      arg_adr++;
     }
 
   gt->g_elem = g_elem;
@@ -946,8 +950,8 @@ Get_Target_From_Selector(WamWord *stc_adr)
   PlLong arg_no;
   GTarget *gt;
 
+  arg_no = Get_Int_From_Word(Arg(stc_adr, 1)); /* first: can expand an array */
   gt = Get_Target_From_Gvar(Arg(stc_adr, 0));
-  arg_no = Get_Int_From_Word(Arg(stc_adr, 1));
   adr = Get_Term_Addr_From_Target(gt);
   if (adr == NULL)		/* an array */
     goto error;
-- 
2.43.0


From 02515d87bf752cf50e6a9cb129582ec7969b507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 18/93] fix: a global variable linked to a variable bound to an
 integer was not recognised as an integer

---
 src/BipsPl/g_var_inl_c.c | 41 +++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index b3cb1bd..0a377bc 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -133,7 +133,7 @@ static GTarget *Get_Target_From_Selector(WamWord *stc_adr);
 
 static WamWord *Get_Term_Addr_From_Target(GTarget *gt);
 
-static WamWord *Get_Int_Addr_From_Gvar(WamWord gvar_word);
+static WamWord *Get_Int_Addr_From_Gvar(WamWord gvar_word, WamWord *int_word);
 
 static PlLong Get_Int_From_Gvar(WamWord gvar_word);
 
@@ -891,7 +891,7 @@ Get_Target_From_Gvar(WamWord gvar_word)
       DEREF(word1, word, tag_mask);
 
       if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-	word = *Get_Int_Addr_From_Gvar(word);
+	Get_Int_Addr_From_Gvar(word, &word);
 
       tbl_index[i] = UnTag_INT(word);
     }
@@ -1023,21 +1023,25 @@ Get_Term_Addr_From_Target(GTarget *gt)
  *                                                                         *
  *-------------------------------------------------------------------------*/
 static WamWord *
-Get_Int_Addr_From_Gvar(WamWord gvar_word)
+Get_Int_Addr_From_Gvar(WamWord gvar_word, WamWord *int_word)
 {
+  WamWord word, tag_mask, word1;
   GTarget save_g_target = g_target; /* save for cross-recursion */
   GTarget *gt = Get_Target_From_Gvar(gvar_word);
   WamWord *adr = Get_Term_Addr_From_Target(gt);
 
   g_target = save_g_target;
-				/* should be dereferenced */
 
   if (adr == NULL)		/* an array */
     Pl_Err_Type(pl_type_integer, Tag_ATM(atom_g_array));
 
-  if (Tag_Mask_Of(*adr) != TAG_INT_MASK)
-     Pl_Err_Type(pl_type_integer, *adr);
+  word1 = *adr;
+  DEREF(word1, word, tag_mask);	/* a link can be on a bound variable */
+
+  if (tag_mask != TAG_INT_MASK)
+     Pl_Err_Type(pl_type_integer, word);
 
+  *int_word = word;
   return adr;
 }
 
@@ -1051,7 +1055,10 @@ Get_Int_Addr_From_Gvar(WamWord gvar_word)
 static PlLong
 Get_Int_From_Gvar(WamWord gvar_word)
 {
-  return *Get_Int_Addr_From_Gvar(gvar_word);
+  WamWord word;
+
+  Get_Int_Addr_From_Gvar(gvar_word, &word);
+  return word;
 }
 
 
@@ -1069,7 +1076,7 @@ Get_Int_From_Word(WamWord start_word)
   DEREF(start_word, word, tag_mask);
 
   if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-    word = *Get_Int_Addr_From_Gvar(word);
+    Get_Int_Addr_From_Gvar(word, &word);
 
   return UnTag_INT(word);
 }
@@ -1338,7 +1345,7 @@ G_Array_Size(WamWord gvar_word, WamWord size_word)
 static Bool
 G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
 {
-  WamWord *adr;
+  WamWord *adr, word;
   PlLong old, new;
 
   if (old_word != NOT_A_WAM_WORD)
@@ -1348,9 +1355,9 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
     Pl_Check_For_Un_Integer(new_word);
 
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, &word);
 
-  old = UnTag_INT(*adr);
+  old = UnTag_INT(word);
   new = old + inc;
 
   if (old_word != NOT_A_WAM_WORD && !Pl_Get_Integer(old, old_word))
@@ -1374,13 +1381,13 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
 static void
 G_Set_Bit(WamWord gvar_word, WamWord bit_word)
 {
-  WamWord *adr;
+  WamWord *adr, word;
   int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
   PlULong mask;
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, &word);
   mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
-  *adr |= mask;
+  *adr = word | mask;
 }
 
 
@@ -1393,13 +1400,13 @@ G_Set_Bit(WamWord gvar_word, WamWord bit_word)
 static void
 G_Reset_Bit(WamWord gvar_word, WamWord bit_word)
 {
-  WamWord *adr;
+  WamWord *adr, word;
   int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
   PlULong mask;
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, &word);
   mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
-  *adr &= ~mask;
+  *adr = word & ~mask;
 }
 
 
-- 
2.43.0


From 3ec2535872a1a2035da6d9e747991fd4980d7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 19/93] fix: solutions of a findall/bagof/setof left by an
 exception were added to the enclosing collector

---
 src/BipsPl/all_solut_c.c | 58 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/all_solut_c.c b/src/BipsPl/all_solut_c.c
index f8e534e..7be76a6 100644
--- a/src/BipsPl/all_solut_c.c
+++ b/src/BipsPl/all_solut_c.c
@@ -109,6 +109,12 @@ static Bool Free_Var(WamWord *adr, WamWord var_word);
 
 
 
+static void Forget_Solutions(int n, WamWord *arg_frame);
+
+static void Remove_Trail_Entry(void);
+
+
+
 static void Handle_Key_Variables(WamWord start_word);
 
 static Bool Link_Key_Var(WamWord *adr, WamWord var_word);
@@ -344,7 +350,37 @@ Free_Var(WamWord *adr, WamWord var_word)
 void
 Pl_Stop_Mark_1(WamWord stop_word)
 {
+  WamWord arg_frame[1];
+
   Pl_Get_Integer(sol->sol_no, stop_word);
+
+  /* if the generator is left by an exception the solutions stored so far
+   * must be forgotten (see Pl_Recover_Solutions_4 for the normal exit).
+   */
+  arg_frame[0] = (WamWord) sol->sol_no;
+  Trail_FC(Forget_Solutions, 1, arg_frame); /* TFC */
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * FORGET_SOLUTIONS                                                        *
+ *                                                                         *
+ * Called by untrail (see Pl_Stop_Mark_1)                                  *
+ *-------------------------------------------------------------------------*/
+static void
+Forget_Solutions(int n, WamWord *arg_frame)
+{
+  int stop = (int) arg_frame[0];
+  OneSol *s;
+
+  while (sol->sol_no > stop)
+    {
+      s = sol;
+      sol = sol->prev;
+      Free(s);
+    }
 }
 
 
@@ -396,7 +432,10 @@ Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
   nb_sol = sol->sol_no - stop;
 
   if (nb_sol == 0)
-    return Pl_Unify(list_word, tail_word);
+    {
+      Remove_Trail_Entry();
+      return Pl_Unify(list_word, tail_word);
+    }
 
   handle_key = Pl_Rd_C_Int(handle_key_word);
   key_var_ptr = pl_glob_dico_var;	/* pl_glob_dico_var: key vars */
@@ -430,6 +469,8 @@ Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
       Free(s);
     }
 
+  Remove_Trail_Entry();
+
   q[-1] = tail_word;
   return Pl_Unify(Tag_LST(p), list_word);
 }
@@ -437,6 +478,21 @@ Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
 
 
 
+/*-------------------------------------------------------------------------*
+ * REMOVE_TRAIL_ENTRY                                                      *
+ *                                                                         *
+ * All solutions are recovered: drop the trail entry of Pl_Stop_Mark_1. It *
+ * is on the top of the trail since the generator has been fully undone.   *
+ *-------------------------------------------------------------------------*/
+static void
+Remove_Trail_Entry(void)
+{
+  TR -= 4;			/* arg_frame[0], nb args, fct, tag (cf. Trail_FC) */
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * HANDLE_KEY_VARIABLES                                                    *
  *                                                                         *
-- 
2.43.0


From bc8f8965854325440981bf846cbc7f81e80e99e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 20/93] fix: setof/3 without free variables unified the
 unsorted list with Instances and then sorted the user's list

---
 src/BipsPl/all_solut.pl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/all_solut.pl b/src/BipsPl/all_solut.pl
index 6ccf423..1c586a5 100644
--- a/src/BipsPl/all_solut.pl
+++ b/src/BipsPl/all_solut.pl
@@ -90,12 +90,13 @@ bagof(Template, Generator, Instances) :-
 
 '$bagof'(Template, _, Instances, BipFunc, BipArity) :-
 	'$call_c'('Pl_Recover_Generator_1'(Generator)),
-	'$findall'(Template, Generator, Instances, [], BipFunc, BipArity),
-	Instances \== [],
+	'$findall'(Template, Generator, AllInstances, [], BipFunc, BipArity),
+	AllInstances \== [],
 	(   BipFunc = bagof ->
 	    true
-	;   sort(Instances)
-	).
+	;   sort(AllInstances)
+	),
+	Instances = AllInstances.
 
 
 
-- 
2.43.0


From 7fd10a24a72995e0d51451e505761a3d9d064dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 21/93] fix: forall/2 reported an internal goal as culprit of a
 non callable Condition

---
 src/BipsPl/call.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/call.pl b/src/BipsPl/call.pl
index 3104367..4b3213a 100644
--- a/src/BipsPl/call.pl
+++ b/src/BipsPl/call.pl
@@ -295,7 +295,7 @@ false :-
 :- meta_predicate(forall(0, 0)).
 
 forall(Condition, Action) :-
-	'$not'((Condition, '$not'(Action, forall, 2)), forall, 2).
+	'$not'(('$call'(Condition, forall, 2, true), '$not'(Action, forall, 2)), forall, 2).
 
 
 '$not'(Goal, Func, Arity) :-
-- 
2.43.0


From 617b1b7652c75dc2cb33ce2d582777466b230ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 22/93] fix: full AC min/max constraints dropped Z=<X, Z=<Y
 (resp. >=) when the domains only became disjoint

---
 src/BipsFD/fd_math_fd.fd | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/BipsFD/fd_math_fd.fd b/src/BipsFD/fd_math_fd.fd
index 4223e52..21ac1d1 100644
--- a/src/BipsFD/fd_math_fd.fd
+++ b/src/BipsFD/fd_math_fd.fd
@@ -619,15 +619,11 @@ pl_min_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))     /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
@@ -749,15 +745,11 @@ pl_max_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))      /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
-- 
2.43.0


From f87ae7960bcfcfff17724398da6b35c481bc4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 23/93] fix: an update of the extra_cstr flag of a FD variable
 overwrote the min of its domain

---
 src/EngineFD/fd_inst.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EngineFD/fd_inst.c b/src/EngineFD/fd_inst.c
index 0928f44..7f8e518 100644
--- a/src/EngineFD/fd_inst.c
+++ b/src/EngineFD/fd_inst.c
@@ -355,7 +355,8 @@ static void Clear_Queue(void);
 	}								   \
       else if (r->extra_cstr != (range)->extra_cstr)			   \
 	{								   \
-	  FD_Bind_OV((WamWord *) &(r->extra_cstr), (range->extra_cstr));   \
+	  Trail_Range_If_Necessary(fdv_adr);				   \
+	  r->extra_cstr = (range)->extra_cstr;				   \
 	  Set_Dom_Mask(propag);						   \
 	}								   \
     }									   \
-- 
2.43.0


From f0953b045ae5d2557d34c7d0007f168ee5a4580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 24/93] fix: fd_relation/2 with an empty relation looped until
 the global stack was exhausted instead of failing

---
 src/BipsFD/fd_symbolic.pl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BipsFD/fd_symbolic.pl b/src/BipsFD/fd_symbolic.pl
index f8ed40f..89a3b96 100644
--- a/src/BipsFD/fd_symbolic.pl
+++ b/src/BipsFD/fd_symbolic.pl
@@ -113,6 +113,10 @@ fd_relationc(CTuples, Vars) :-
 
 
 
+'$lines_to_columns'([], _) :-			% empty relation: no tuple
+	!,
+	fail.
+
 '$lines_to_columns'([[]|_], []) :-
 	!.
 
-- 
2.43.0


From f6a82e6f63f65afa70551c7b7387d3f32a32320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 25/93] fix: an interval beyond vector_max became a sparse
 range with an uninitialized vector

---
 src/EngineFD/fd_range.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/EngineFD/fd_range.c b/src/EngineFD/fd_range.c
index 380f084..d93e844 100644
--- a/src/EngineFD/fd_range.c
+++ b/src/EngineFD/fd_range.c
@@ -996,6 +996,8 @@ Pl_Range_Becomes_Sparse(Range *range)
 
   if (Is_Not_Empty(range))
     Pl_Vector_From_Interval(range->vec, range->min, range->max);
+  else
+    Pl_Vector_Empty(range->vec);
 }
 
 
-- 
2.43.0


From 6b08083f6ed6b363bc1cb06dcebafd0cf8ab7d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 26/93] fix: removing vector_max from an interval ending beyond
 it left it as the max of the range

---
 src/EngineFD/fd_range.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/EngineFD/fd_range.c b/src/EngineFD/fd_range.c
index d93e844..dd2e3e5 100644
--- a/src/EngineFD/fd_range.c
+++ b/src/EngineFD/fd_range.c
@@ -1127,8 +1127,12 @@ Pl_Range_Reset_Value(Range *range, int n)
 	}
 
       Pl_Range_Becomes_Sparse(range);
-      if ((unsigned) n <= (unsigned) pl_vec_max_integer)
-	Vector_Reset_Value(range->vec, n);
+      if ((unsigned) n <= (unsigned) pl_vec_max_integer && Is_Not_Empty(range))
+	{
+	  Vector_Reset_Value(range->vec, n);
+	  if (n == range->max)	/* the max can be changed by Becomes_Sparse */
+	    Pl_Range_From_Vector(range);
+	}
 
       return;
     }
-- 
2.43.0


From bc0379c15854e3db54a7fe6ffde4892ed71e1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 27/93] fix: the bounds of a sparse range divided by a value
 could be outside of the range

---
 src/EngineFD/fd_range.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/EngineFD/fd_range.c b/src/EngineFD/fd_range.c
index dd2e3e5..2dbb27a 100644
--- a/src/EngineFD/fd_range.c
+++ b/src/EngineFD/fd_range.c
@@ -1605,12 +1605,8 @@ Pl_Range_Div_Value(Range *range, int n)
   /* Sparse */
   Pl_Vector_Div_Value(range->vec, n);
 
-  range->min = (range->min + n - 1) / n;
-  range->max = range->max / n;
-
-  range->extra_cstr |= (range->max > pl_vec_max_integer);
-  if (range->extra_cstr)
-    Pl_Range_From_Vector(range);
+  /* the quotients of the bounds are not always in the result */
+  Pl_Range_From_Vector(range);
 }
 
 
-- 
2.43.0


From 5c802fb56f660787868118a7cccb6a76d340e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 28/93] fix: the product of two ranges lost values beyond
 vector_max without setting extra_cstr

---
 src/EngineFD/fd_range.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EngineFD/fd_range.c b/src/EngineFD/fd_range.c
index 2dbb27a..2e3b05c 100644
--- a/src/EngineFD/fd_range.c
+++ b/src/EngineFD/fd_range.c
@@ -1450,7 +1450,8 @@ Pl_Range_Mul_Range(Range *range, Range *range1)
   /* Sparse with Sparse */
   Pl_Vector_Mul_Vector(range->vec, range1->vec);
 
-  range->extra_cstr |= range1->extra_cstr;
+  range->extra_cstr |= (range1->extra_cstr |
+			((PlLong) range->max * range1->max > pl_vec_max_integer));
   Pl_Range_From_Vector(range);
 }
 
-- 
2.43.0


From 5f77da78db7a7bbaaf65c6c592daa7fa42a98274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 29/93] fix: the errors of fd_dom/2 mentioned fd_domain/2

---
 src/BipsFD/fd_infos.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsFD/fd_infos.pl b/src/BipsFD/fd_infos.pl
index e92ca24..5ef2cf9 100644
--- a/src/BipsFD/fd_infos.pl
+++ b/src/BipsFD/fd_infos.pl
@@ -75,7 +75,7 @@ fd_max(Fdv, Max) :-
 
 
 fd_dom(Fdv, List) :-
-	set_bip_name(fd_domain, 2),
+	set_bip_name(fd_dom, 2),
 	'$call_c_test'('Pl_Fd_Dom_2'(Fdv, List)).
 
 
-- 
2.43.0


From 8a61e75d23e61f47f1d59dccfa14c81cf030d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 30/93] fix: the documented value_method(bounds) of
 fd_labeling/2 was rejected

---
 src/BipsFD/fd_values.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BipsFD/fd_values.pl b/src/BipsFD/fd_values.pl
index c84af15..7542ca5 100644
--- a/src/BipsFD/fd_values.pl
+++ b/src/BipsFD/fd_values.pl
@@ -172,6 +172,8 @@ fd_labeling(List, Options) :-
 	    '$sys_var_write'(1, 3)
 	;   X = bisect,
 	    '$sys_var_write'(1, 4)
+	;   X = bounds,
+	    '$sys_var_write'(1, 5)
 	;   X = limits,
 	    '$sys_var_write'(1, 5)
 	).
-- 
2.43.0


From cbe79ee650c9c51b5b5980374e3ee5dfaed3f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 31/93] fix: a negative integer in the list of fd_domain/2 set
 extra_cstr as if values were lost

---
 src/EngineFD/fd_inst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EngineFD/fd_inst.c b/src/EngineFD/fd_inst.c
index 7f8e518..6f13e4b 100644
--- a/src/EngineFD/fd_inst.c
+++ b/src/EngineFD/fd_inst.c
@@ -552,9 +552,9 @@ Pl_Fd_List_Int_To_Range(Range *range, WamWord list_word)
       
       val = Pl_Fd_Prolog_To_Value(Car(lst_adr));
 
-      if ((unsigned) val > (unsigned) pl_vec_max_integer)
+      if ((PlLong) val > pl_vec_max_integer)
 	range->extra_cstr = TRUE;
-      else
+      else if ((PlLong) val >= 0)	/* a negative value is never in a domain */
 	{
 	  Vector_Set_Value(range->vec, val);
 	  n++;
-- 
2.43.0


From 905bea07c75e3430af644cf3e352dc46bd847b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 32/93] fix: an empty range with an uninitialized min could be
 taken for a non empty one

---
 src/EngineFD/fd_range.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/EngineFD/fd_range.h b/src/EngineFD/fd_range.h
index a675f85..6443e37 100644
--- a/src/EngineFD/fd_range.h
+++ b/src/EngineFD/fd_range.h
@@ -279,7 +279,13 @@ char *Pl_Range_To_String(Range *range);
 #define Is_Not_Empty(range)        ((range)->max >= (range)->min)
 
 
-#define Set_To_Empty(range) (range)->max = (int)(1U << (sizeof(int) * 8 - 1))
+#define Set_To_Empty(range)				\
+  do							\
+    {							\
+      (range)->min = 0;	/* could be uninitialized */	\
+      (range)->max = (int)(1U << (sizeof(int) * 8 - 1));	\
+    }							\
+  while (0)
 
 
 #define Range_Init_Interval(range, r_min, r_max)	\
-- 
2.43.0


From 93dc54af8953070f12feeb6cc19d38c7c1787c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 33/93] fix: fd_labeling could choose a wrong variable when its
 array was packed

---
 src/BipsFD/fd_values_c.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/BipsFD/fd_values_c.c b/src/BipsFD/fd_values_c.c
index 4fe2811..9ea7d63 100644
--- a/src/BipsFD/fd_values_c.c
+++ b/src/BipsFD/fd_values_c.c
@@ -637,6 +637,8 @@ Pl_Fd_Sel_Array_Pick_Var_4(WamWord sel_array_word, WamWord method_word,
   if (res_elem == NULL)
     return FALSE;
 
+  fdv_adr = *res_elem;		/* read it before packing the array */
+
 #ifdef PACK_ARRAY
   if (n > 50 && nb_ground >= n / 2)
     {
@@ -645,8 +647,7 @@ Pl_Fd_Sel_Array_Pick_Var_4(WamWord sel_array_word, WamWord method_word,
       array[-1] = (WamWord *) (PlLong) n;
       for (p = q = array; n; p++)
 	{
-	  fdv_adr = *p;
-	  if (!Fd_Variable_Is_Ground(fdv_adr))
+	  if (!Fd_Variable_Is_Ground(*p))
 	    {
 	      *q++ = *p;
 	      n--;
@@ -655,8 +656,6 @@ Pl_Fd_Sel_Array_Pick_Var_4(WamWord sel_array_word, WamWord method_word,
     }
 #endif
 
-  fdv_adr = *res_elem;
-
 finish:
   return Pl_Unify(Tag_REF(fdv_adr), fdv_word);
 }
-- 
2.43.0


From 336cc127cfc888bde103a7aa8c933c5ef76ece26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 34/93] fix: the term following a syntax error on a - before
 the full stop was skipped

---
 src/BipsPl/parser_supp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index 646c79e..5e3cd50 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -770,7 +770,9 @@ Parse_Error(char *err_msg)
   Pl_Set_Last_Syntax_Error(pl_atom_tbl[pstm_i->atom_file_name].name,
 			   pl_token.line, pl_token.col, err_msg);
 
-  if (pl_token.type != TOKEN_FULL_STOP)
+  /* the full stop can be already read (then pushed back to test if - is followed by a number) */
+  if (pl_token.type != TOKEN_FULL_STOP &&
+      !(tok_present && unget_tok.type == TOKEN_FULL_STOP))
     Pl_Recover_After_Error(pstm_i);
 
   Save_Machine_Regs(buff_save_machine_regs);
-- 
2.43.0


From e2caaaffa18cf21fc417397e51b98baadf038c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 35/93] fix: reading then pushing back the end of file
 decremented the character count (and counted it in the line position)

---
 src/BipsPl/lexer_supp.c  | 17 ++++++++++-------
 src/BipsPl/stream_supp.c | 19 ++++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index 540e338..615ca91 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -85,6 +85,9 @@ static int Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
 
 
 
+/* column of the last read char (the end of file is not counted by the stream) */
+#define   Last_Char_Col         (pstm->line_pos + (c == EOF))
+
 #define   Unget_Last_Char       Pl_Stream_Ungetc(c_orig, pstm)
 
 
@@ -171,7 +174,7 @@ start_scan:
 
   pl_token.quoted = FALSE;
   pl_token.line = pstm->line_count + 1;
-  pl_token.col = pstm->line_pos;
+  pl_token.col = Last_Char_Col;
 
 
   if (c == EOF)
@@ -235,7 +238,7 @@ start_scan:
 	    {
 	      pl_token.type = TOKEN_END_OF_FILE;
 	      pl_token.line = pstm->line_count + 1;
-	      pl_token.col = pstm->line_pos;
+	      pl_token.col = Last_Char_Col;
 	      err_msg = "*/ expected here for /*...*/ comment";
 	      break;
 	    }
@@ -266,7 +269,7 @@ start_scan:
 	{
 	  pl_token.type = TOKEN_END_OF_FILE;
 	  pl_token.line = pstm->line_count + 1;
-	  pl_token.col = pstm->line_pos;
+	  pl_token.col = Last_Char_Col;
 	  err_msg = "new-line expected here for %%... comment";
 	  break;
 	}
@@ -715,7 +718,7 @@ Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
 	  if (err_msg == NULL)
 	    {
 	      pl_token.line = pstm->line_count + 1;
-	      pl_token.col = pstm->line_pos;
+	      pl_token.col = Last_Char_Col;
 	      err_msg = "invalid character code in \\constant\\ sequence";
 	    }
 	  goto pump;
@@ -726,7 +729,7 @@ Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
 	  if (err_msg == NULL)
 	    {
 	      pl_token.line = pstm->line_count + 1;
-	      pl_token.col = pstm->line_pos;
+	      pl_token.col = Last_Char_Col;
 	      err_msg = "\\ expected in \\constant\\ sequence";
 	    }
 
@@ -746,7 +749,7 @@ Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
   if (err_msg == NULL)
     {
       pl_token.line = pstm->line_count + 1;
-      pl_token.col = pstm->line_pos;
+      pl_token.col = Last_Char_Col;
       err_msg = "unknown escape sequence";
     }
 
@@ -871,7 +874,7 @@ Pl_Lexer_Next_Atom(StmInf *pstm)
   while (c_type == LA);		/* layout character */
 
   pl_token.line = pstm->line_count + 1;
-  pl_token.col = pstm->line_pos;
+  pl_token.col = Last_Char_Col;
 
   switch (c_type)
     {
diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 9d062bf..ec4dfdc 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1255,14 +1255,16 @@ TTY_Clearerr(void *unused)
 
 #define Update_Counters(pstm, c)		\
   if (c != EOF)                   		\
-    pstm->char_count++;       			\
-  if (c == '\n')              			\
     {                      			\
-      pstm->line_count++;   			\
-      pstm->line_pos = 0;     			\
-    }                      			\
-  else                     			\
-    pstm->line_pos++
+      pstm->char_count++;       		\
+      if (c == '\n')              		\
+	{                      			\
+	  pstm->line_count++;   		\
+	  pstm->line_pos = 0;     		\
+	}                      			\
+      else                     			\
+	pstm->line_pos++;			\
+    }
 
 
 
@@ -1439,6 +1441,9 @@ Pl_Stream_Ungetc(int c, StmInf *pstm)
   PB_Push(pstm->pb_char, c);
   pstm->eof_reached = FALSE;
 
+  if (c == EOF)			/* not counted */
+    return;
+
   if (pstm->char_count > 0)	/* test should be useless */
     pstm->char_count--;
 
-- 
2.43.0


From 6ffb2e4da81ab834bca6ab8d248ce931f3b5cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 36/93] fix: a numeric escape sequence beyond 2^32 denoted the
 character of its low bits

---
 src/BipsPl/lexer_supp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index 615ca91..611dd36 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -709,7 +709,8 @@ Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
 	  i = (int) (p - f);
 	  if (i >= 16)
 	    i -= 6;
-	  x = x * radix + i;
+	  if (x < 256)		/* else already invalid: avoid overflow */
+	    x = x * radix + i;
 	  Read_Next_Char(pstm, convert);
 	}
 
-- 
2.43.0


From 49ca8499ad334ad3b64dce15bd9398cbd68af178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 37/93] fix: a variable name of more than 1023 characters
 overflowed a buffer

---
 src/BipsPl/parser_supp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index 5e3cd50..87fd9b9 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -747,6 +747,9 @@ Lookup_In_Dico_Var(char *name)
       if (pl_parse_nb_var >= MAX_VAR_IN_TERM)
 	Parse_Error("too many variables in a term");
 
+      if (strlen(name) >= MAX_VAR_NAME_LENGTH)
+	Parse_Error("too long variable name");
+
       strcpy(pl_parse_dico_var[pl_parse_nb_var].name, name);
       pl_parse_dico_var[pl_parse_nb_var].word = NOT_A_WAM_WORD;
       pl_parse_dico_var[pl_parse_nb_var].named = named;
-- 
2.43.0


From ede59ffb59a40cc555b84a987489f29ff7e2a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 38/93] fix: read_token returned extend(C) instead of the
 documented extended(C)

---
 src/BipsPl/parser_supp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index 87fd9b9..8d9ec28 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -179,7 +179,7 @@ PL_INITIALIZER(Parser_Supp_Initializer)
   atom_atom = Pl_Create_Atom("atom");
   atom_back_quotes = Pl_Create_Atom("back_quotes");
   atom_full_stop = Pl_Create_Atom("full_stop");
-  atom_extend = Pl_Create_Atom("extend");
+  atom_extend = Pl_Create_Atom("extended");
 }
 
 
-- 
2.43.0


From 995348b3fe8ecab93b6557c23afa89361db74e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 39/93] fix: read_token used the syntax_error option of the
 last read_term

---
 src/BipsPl/read.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BipsPl/read.pl b/src/BipsPl/read.pl
index 2b6d8a0..20226e4 100644
--- a/src/BipsPl/read.pl
+++ b/src/BipsPl/read.pl
@@ -204,10 +204,12 @@ read_number(SorA, Number) :-
 
 read_token(Token) :-
 	set_bip_name(read_token, 1),
+	'$set_read_defaults',
 	'$call_c_test'('Pl_Read_Token_1'(Token)).
 
 read_token(SorA, Token) :-
 	set_bip_name(read_token, 2),
+	'$set_read_defaults',
 	'$call_c_test'('Pl_Read_Token_2'(SorA, Token)).
 
 
-- 
2.43.0


From 9a6bb3a2af8ed30a2e7dde9d218cf86e4be09914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 40/93] fix: a token longer than the lexer buffer overflowed it

---
 src/BipsPl/lexer_supp.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index 611dd36..7597894 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -88,6 +88,17 @@ static int Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
 /* column of the last read char (the end of file is not counted by the stream) */
 #define   Last_Char_Col         (pstm->line_pos + (c == EOF))
 
+/* add a character to the text of the token (its buffer is LEXER_BIG_BUFFER bytes long) */
+#define   Add_Char(p, ch)					\
+  do								\
+    {								\
+      if (p < pl_token.name + LEXER_BIG_BUFFER - 1)		\
+	*p++ = (ch);						\
+      else if (err_msg == NULL)					\
+	err_msg = "too long token";				\
+    }								\
+  while (0)
+
 #define   Unget_Last_Char       Pl_Stream_Ungetc(c_orig, pstm)
 
 
@@ -193,7 +204,7 @@ start_scan:
       s = pl_token.name;
       do
 	{
-	  *s++ = c;
+	  Add_Char(s, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
       while (c_type & (UL | CL | SL | DI));
@@ -250,10 +261,10 @@ start_scan:
 
       pl_token.type = TOKEN_NAME;
       s = pl_token.name;
-      *s++ = c0;
+      Add_Char(s, c0);
       while (c_type == GR)
 	{
-	  *s++ = c;
+	  Add_Char(s, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
       *s = '\0';
@@ -356,7 +367,7 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
   p = pl_token.name;
   do
     {
-      *p++ = c;
+      Add_Char(p, c);
       Read_Next_Char(pstm, TRUE);
     }
   while (c_type == DI);
@@ -439,7 +450,7 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
   Read_Next_Char(pstm, TRUE);
   while (strchr(f, c) != NULL)
     {
-      *p++ = c;
+      Add_Char(p, c);
       Read_Next_Char(pstm, TRUE);
     }
   *p = '\0';
@@ -460,11 +471,11 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
  is_a_float:			/* float number */
 
   pl_token.type = TOKEN_FLOAT;
-  *p++ = '.';
+  Add_Char(p, '.');
   Read_Next_Char(pstm, TRUE);
   while (c_type == DI)
     {
-      *p++ = c;
+      Add_Char(p, c);
       Read_Next_Char(pstm, TRUE);
     }
 
@@ -480,13 +491,13 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
 	  goto end_float;
 	}
 
-      *p++ = 'e';
-      *p++ = c;
+      Add_Char(p, 'e');
+      Add_Char(p, c);
 
       Read_Next_Char(pstm, TRUE);
       while (c_type == DI)
 	{
-	  *p++ = c;
+	  Add_Char(p, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
     }
@@ -567,7 +578,7 @@ Lexer_Quoted(StmInf *pstm)
 	}
 
       if (!error_found)
-	*s++ = c;
+	Add_Char(s, c);
     }
 
   /* error */
@@ -883,7 +894,7 @@ Pl_Lexer_Next_Atom(StmInf *pstm)
       s = pl_token.name;
       do
 	{
-	  *s++ = c;
+	  Add_Char(s, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
       while (c_type & (UL | CL | SL | DI));
@@ -914,7 +925,7 @@ Pl_Lexer_Next_Atom(StmInf *pstm)
       s = pl_token.name;
       while (c_type == GR)
 	{
-	  *s++ = c;
+	  Add_Char(s, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
       *s = '\0';
@@ -933,5 +944,5 @@ Pl_Lexer_Next_Atom(StmInf *pstm)
     }
 
   pl_token.type = TOKEN_NAME;
-  return NULL;
+  return err_msg;
 }
-- 
2.43.0


From f88772f870eaf73b50976bb87a88816e66cd6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 41/93] fix: the end of file was consumed with a clause in
 error ending just before it

---
 src/BipsPl/lexer_supp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index 7597894..acc6e85 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -795,11 +795,11 @@ Pl_Recover_After_Error(StmInf *pstm)
 
       if (c == '.')
 	{
-	  Next_Char;
-	  if (c_type & (LA | CM)) /* full stop found */
+	  Read_Next_Char(pstm, convert);
+	  if (c == EOF || (c_type & (LA | CM))) /* full stop found */
 	    {
-	      Pl_Stream_Ungetc(c, pstm);
-	      return;		
+	      Unget_Last_Char;
+	      return;
 	    }
 	}
 
-- 
2.43.0


From 06930b3d2396e5dbae0f16c132522787e18eac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 42/93] fix: the position of a stream whose end of file has
 been peeked was one character before it

---
 src/BipsPl/stream_supp.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index ec4dfdc..d019ded 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1681,6 +1681,32 @@ Pl_Stream_End_Of_Stream(StmInf *pstm)
 
 
 
+/*-------------------------------------------------------------------------*
+ * PB_NB_CHARS                                                             *
+ *                                                                         *
+ * Number of characters in the push back buffer. A peeked EOF is not one.  *
+ *-------------------------------------------------------------------------*/
+static int
+PB_Nb_Chars(StmInf *pstm)
+{
+  PbStk *pb = &pstm->pb_char;
+  PlLong *p = pb->ptr;
+  int nb = 0;
+  int i;
+
+  for (i = pb->nb_elems; i > 0; i--)
+    {
+      p = (p != pb->buff) ? p - 1 : pb->buff + STREAM_PB_SIZE - 1;
+      if (*p != EOF)
+	nb++;
+    }
+
+  return nb;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_STREAM_GET_POSITION                                                  *
  *                                                                         *
@@ -1696,7 +1722,7 @@ Pl_Stream_Get_Position(StmInf *pstm, PlLong *offset, PlLong *char_count,
 	*offset = 0;
       else
 	{
-	  *offset = *offset - pstm->pb_char.nb_elems;
+	  *offset = *offset - PB_Nb_Chars(pstm);
 	  if (*offset < 0)
 	    *offset = 0;
 	}
-- 
2.43.0


From 5be43676d8587b5fbc11038e44e7c1fc3d3aece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 43/93] fix: a failed set_stream_line_column lost the line
 positions used by unget

---
 src/BipsPl/stream_supp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index d019ded..8aeaee7 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1796,6 +1796,7 @@ Pl_Stream_Set_Position_LC(StmInf *pstm, PlLong line_count, PlLong line_pos)
   Bool save_eof_reached;
   PlLong save_char_count, save_line_count, save_line_pos;
   int save_char_nb_elems;
+  PbStk save_pb_line_pos;
 
 
   offset = CALL_TELL(pstm);
@@ -1812,6 +1813,7 @@ Pl_Stream_Set_Position_LC(StmInf *pstm, PlLong line_count, PlLong line_pos)
   save_line_count = pstm->line_count;
   save_line_pos = pstm->line_pos;
   save_char_nb_elems = pstm->pb_char.nb_elems;
+  save_pb_line_pos = pstm->pb_line_pos;
 
 
   pstm->char_count = 0;
@@ -1854,6 +1856,7 @@ err:
   pstm->line_count = save_line_count;
   pstm->line_pos = save_line_pos;
   pstm->pb_char.nb_elems = save_char_nb_elems;
+  pstm->pb_line_pos = save_pb_line_pos;
 
   x = CALL_SEEK(pstm, (long) offset, SEEK_SET);
   if (x != 0)
-- 
2.43.0


From 712059a3b8f074df9282ce8b0b53cde6ed999bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 44/93] fix: seek(S, current, N, L) ignored the characters
 peeked or pushed back

---
 src/BipsPl/stream_supp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 8aeaee7..2fc5962 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1753,7 +1753,12 @@ int
 Pl_Stream_Set_Position(StmInf *pstm, int whence, PlLong offset, PlLong char_count,
 		       PlLong line_count, PlLong line_pos)
 {
-  int x = CALL_SEEK(pstm, (long) offset, whence);
+  int x;
+
+  if (whence == SEEK_CUR)	/* the characters pushed back have not been read */
+    offset -= PB_Nb_Chars(pstm);
+
+  x = CALL_SEEK(pstm, (long) offset, whence);
   if (x != 0)
     return x;
 
-- 
2.43.0


From 4ad1514effca85144155ff826ac3cd309d2e84b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 45/93] fix: seek relative to the current position or to the
 end set a wrong character count

---
 src/BipsPl/stream_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 560224f..d835563 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -1266,6 +1266,7 @@ Pl_Seek_4(WamWord sora_word, WamWord whence_word, WamWord offset_word,
     return FALSE;
 
   Pl_Stream_Get_Position(pstm, &offset, p + 1, p + 2, p + 3);
+  pstm->char_count = offset;
 
   return Pl_Get_Integer(offset, new_loc_word);
 }
-- 
2.43.0


From 2226906c767fd66f48affb097b48cbe08f8c445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 46/93] fix: a stream refused for reposition(true) stayed in
 the stream table with a closed file

---
 src/BipsPl/stream_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index d835563..a6e32bb 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -267,6 +267,7 @@ Pl_Open_3(WamWord source_sink_word, WamWord mode_word, WamWord stm_word)
       if (reposition && !prop.reposition)
 	{
 	  fclose(f);
+	  Pl_Delete_Stream(stm, FALSE);
 	  word = Pl_Put_Structure(pl_atom_reposition, 1);
 	  Pl_Unify_Atom(pl_atom_true);
 	  Pl_Err_Permission(pl_permission_operation_open,
-- 
2.43.0


From 219354a795357ecd5737e9c4a24f8cfc68b53fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 47/93] fix: fd_maximize looped for ever when the maximum is
 fd_max_integer

---
 src/BipsFD/fd_optim.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsFD/fd_optim.pl b/src/BipsFD/fd_optim.pl
index 37a2829..da747a0 100644
--- a/src/BipsFD/fd_optim.pl
+++ b/src/BipsFD/fd_optim.pl
@@ -72,7 +72,8 @@ fd_maximize(Goal, Var) :-
 	g_read('$cur_max', B),
 	B1 is B + 1,
 	set_bip_name(fd_maximize, 2),
-	(   '$fd_domain'(Var, B1, Inf),
+	(   B \== Inf,			% else B1 would be taken for Inf again
+	    '$fd_domain'(Var, B1, Inf),
 	    '$call'(Goal, fd_maximize, 2, true) ->
 	    fd_max(Var, C),
 	    g_assign('$cur_max', C),
-- 
2.43.0


From 662569411e35efcc4a64c9c88ece5e053c5cfb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 48/93] fix: errors of several built-ins named another
 predicate in their context

---
 src/BipsFD/fd_bool.pl   |  2 +-
 src/BipsFD/fd_math.pl   | 12 ++++++------
 src/BipsPl/dec10io.pl   | 11 +++++++++--
 src/BipsPl/list.pl      |  1 +
 src/BipsPl/os_interf.pl |  6 +++---
 src/BipsPl/src_rdr.pl   |  5 +++--
 src/BipsPl/write.pl     |  2 +-
 7 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/BipsFD/fd_bool.pl b/src/BipsFD/fd_bool.pl
index de64eb2..74703eb 100644
--- a/src/BipsFD/fd_bool.pl
+++ b/src/BipsFD/fd_bool.pl
@@ -60,7 +60,7 @@ LE #\<=> RE :-
 	'$call_c_test'('Pl_Fd_Bool_Meta_3'(LE, RE, 2)).
 
 LE ## RE :-
-	set_bip_name(#, 2),
+	set_bip_name(##, 2),
 	'$call_c_test'('Pl_Fd_Bool_Meta_3'(LE, RE, 2)).
 
 LE #==> RE :-
diff --git a/src/BipsFD/fd_math.pl b/src/BipsFD/fd_math.pl
index e5767c5..d2bbb85 100644
--- a/src/BipsFD/fd_math.pl
+++ b/src/BipsFD/fd_math.pl
@@ -75,31 +75,31 @@ LE #>= RE :-
 
 
 LE #=# RE :-
-	set_bip_name(#=, 2),
+	set_bip_name(#=#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Eq_2'(LE, RE)).
 
 LE #\=# RE :-
-	set_bip_name(#\=, 2),
+	set_bip_name(#\=#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Neq_2'(LE, RE)).
 
 LE #<# RE :-
-	set_bip_name(#<, 2),
+	set_bip_name(#<#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Lt_2'(LE, RE)).
 
 LE #=<# RE :-
-	set_bip_name(#=<, 2),
+	set_bip_name(#=<#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Lte_2'(LE, RE)).
 
 LE #># RE :-
-	set_bip_name(#>, 2),
+	set_bip_name(#>#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Lt_2'(RE, LE)).
 
 LE #>=# RE :-
-	set_bip_name(#>=, 2),
+	set_bip_name(#>=#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Lte_2'(RE, LE)).
diff --git a/src/BipsPl/dec10io.pl b/src/BipsPl/dec10io.pl
index 8628fba..f8d92c3 100644
--- a/src/BipsPl/dec10io.pl
+++ b/src/BipsPl/dec10io.pl
@@ -187,8 +187,8 @@ skip(X) :-
 
 '$check_in_character_code'(X) :-
 	integer(X), !,
-	(   X >= -1,
-	    X =< 255 ->
+	(   X @>= -1,		% not >=: it would change the current built-in name
+	    X @=< 255 ->
 	    true
 	;   '$pl_err_representation'(in_character_code)
 	).
@@ -200,8 +200,15 @@ skip(X) :-
 tab(Exp) :-
 	set_bip_name(tab, 1),
 	'$arith_evaluate'(N, Exp), % N is Exp
+	'$tab_check'(N),
 	for(_, 1, N),
 	put_char(' '),
 	fail.
 
 tab(_).
+
+'$tab_check'(N) :-
+	integer(N), !.
+
+'$tab_check'(N) :-
+	'$pl_err_type'(integer, N).
diff --git a/src/BipsPl/list.pl b/src/BipsPl/list.pl
index aa3c8ae..a6cfcda 100644
--- a/src/BipsPl/list.pl
+++ b/src/BipsPl/list.pl
@@ -221,6 +221,7 @@ length(L, N) :-
 
 
 length(L, N) :-
+	set_bip_name(length, 2),
 	'$call_c_test'('Pl_Length_2'(L, N)).
 
 
diff --git a/src/BipsPl/os_interf.pl b/src/BipsPl/os_interf.pl
index 3b8a201..e29dffe 100644
--- a/src/BipsPl/os_interf.pl
+++ b/src/BipsPl/os_interf.pl
@@ -49,7 +49,7 @@ make_directory(PathName) :-
 
 
 delete_directory(PathName) :-
-	set_bip_name(delete_directory, 2),
+	set_bip_name(delete_directory, 1),
 	'$call_c_test'('Pl_Delete_Directory_1'(PathName)).
 
 
@@ -90,14 +90,14 @@ copy_file(PathName1, PathName2) :-
 
 
 unlink(PathName) :-
-	set_bip_name(unlink, 2),
+	set_bip_name(unlink, 1),
 	'$call_c'('Pl_Unlink_1'(PathName)).
 
 
 
 
 delete_file(PathName) :-
-	set_bip_name(delete_file, 2),
+	set_bip_name(delete_file, 1),
 	'$call_c_test'('Pl_Delete_File_1'(PathName)).
 
 
diff --git a/src/BipsPl/src_rdr.pl b/src/BipsPl/src_rdr.pl
index eb7a58a..de23f47 100644
--- a/src/BipsPl/src_rdr.pl
+++ b/src/BipsPl/src_rdr.pl
@@ -249,13 +249,14 @@ sr_new_pass(D) :-
 
 
 sr_read_term(D, Term, Options, SRError) :-
+	set_bip_name(sr_read_term, 4),
 	'$call_c'('Pl_SR_Check_Descriptor_1'(D)),
 	repeat,
 	'$call_c'('Pl_SR_Get_Stm_For_Read_Term_1'(Stm)),
 	Stream = '$stream'(Stm),
-	set_bip_name(sr_read_term, 3),
+	set_bip_name(sr_read_term, 4),
 	'$catch'('$read_term'(Stream, Term, Options), Excep, true,
-		 sr_read_term, 3, false),
+		 sr_read_term, 4, false),
 	'$call_c'('Pl_SR_Update_Position_0'),
 	(   var(Excep) ->
 	    '$sr_treat_term'(Term, SRError)
diff --git a/src/BipsPl/write.pl b/src/BipsPl/write.pl
index 875d2a7..afb7fac 100644
--- a/src/BipsPl/write.pl
+++ b/src/BipsPl/write.pl
@@ -222,7 +222,7 @@ write_term(_, _, _).
 '$get_write_options2'(max_depth(X), VarNames, VarNames) :-
 	'$check_nonvar'(X),
 	integer(X),
-	X >= 0,
+	X @>= 0,		% not >=: it would change the current built-in name
 	'$sys_var_write'(1, X).
 
 '$get_write_options2'(priority(X), VarNames, VarNames) :-
-- 
2.43.0


From 2ccdb33e6944042c1920f124c8eee9ec389c5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 49/93] fix: get/1 looped for ever at the end of a stream that
 is not exhausted by reading it

---
 src/BipsPl/dec10io.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/dec10io.pl b/src/BipsPl/dec10io.pl
index f8d92c3..8b7cf1c 100644
--- a/src/BipsPl/dec10io.pl
+++ b/src/BipsPl/dec10io.pl
@@ -162,7 +162,7 @@ get(X) :-
 	set_bip_name(get, 1),
 	'$check_in_character_code'(X),
 	'$call_c_test'('Pl_Get_Code_1'(X0)),
-	(   X0 =< 32 ->
+	(   X0 =< 32, X0 \== -1 ->
 	    get(X)
 	;   X = X0
 	).
-- 
2.43.0


From 1b729f71bff9ccd0a53f905eae297b28d49e3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 50/93] fix: a grammar rule ending with [] after a goal was not
 steadfast

---
 src/BipsPl/expand_c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/expand_c.c b/src/BipsPl/expand_c.c
index 29a771f..6e3977a 100644
--- a/src/BipsPl/expand_c.c
+++ b/src/BipsPl/expand_c.c
@@ -363,7 +363,8 @@ Dcg_Body_On_Stack(WamWord dcg_body_word, Bool opt_equal_between_in_out_vars,
 
   if (word == NIL_WORD)
     {
-      opt_equal_between_in_out_vars = TRUE; /* deactivate to not always optimize [] as unif */
+      /* optimize [] as unif if no goal precedes it (else the last [] is not steadfast) */
+      opt_equal_between_in_out_vars |= opt_term_unif;
     in_is_out:
       if (opt_equal_between_in_out_vars)
 	Pl_Unify(in_word, out_word);
-- 
2.43.0


From fa14f89b7d472262d0954b64f3b57c255d3e7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 51/93] fix: an error in a predicate working on a temporary
 string stream left the stream open

---
 src/BipsPl/const_io_c.c  |  8 ++---
 src/BipsPl/stream_supp.c | 72 +++++++++++++++++++++++++++++++++++-----
 src/BipsPl/stream_supp.h |  4 +++
 src/EnginePl/engine.c    | 69 +++++++++++++++++++++++++++++++++++++-
 src/EnginePl/engine.h    |  4 +++
 5 files changed, 143 insertions(+), 14 deletions(-)

diff --git a/src/BipsPl/const_io_c.c b/src/BipsPl/const_io_c.c
index 7cf7670..f6b582c 100644
--- a/src/BipsPl/const_io_c.c
+++ b/src/BipsPl/const_io_c.c
@@ -130,7 +130,7 @@ Bool Pl_Read_Token_2(WamWord sora_word, WamWord token_word);
   int stm;							\
   WamWord stm_word;						\
 								\
-  stm = Pl_Add_Str_Stream(NULL, const_stream_type);		\
+  stm = Pl_Add_Tmp_Str_Stream(NULL, const_stream_type);		\
   stm_word = Pl_Make_Stream_Tagged_Word(stm);
 
 
@@ -139,7 +139,7 @@ Bool Pl_Read_Token_2(WamWord sora_word, WamWord token_word);
 								\
   { code_after; }						\
 								\
-  Pl_Delete_Str_Stream(stm);
+  Pl_Delete_Tmp_Str_Stream(stm);
 
 
 
@@ -666,12 +666,12 @@ Pl_Format_To_Codes_3(WamWord codes_word, WamWord format_word, WamWord args_word)
   int stm;							\
   WamWord stm_word;						\
 								\
-  stm = Pl_Add_Str_Stream(str, const_stream_type);		\
+  stm = Pl_Add_Tmp_Str_Stream(str, const_stream_type);		\
   stm_word = Pl_Make_Stream_Tagged_Word(stm);			\
 								\
   { code_in; }							\
 								\
-  Pl_Delete_Str_Stream(stm);					\
+  Pl_Delete_Tmp_Str_Stream(stm);				\
 }
 
 
diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 2fc5962..90c236d 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1602,23 +1602,32 @@ int
 Pl_Stream_Printf(StmInf *pstm, char *format, ...)
 {
   va_list arg_ptr;
-  static char str[BIG_BUFFER];
-  char *p;
-  int c;
+  static char buff[BIG_BUFFER];
+  char *str = buff;
+  int n;
 
 
   va_start(arg_ptr, format);
-  vsprintf(str, format, arg_ptr);
+  n = vsnprintf(buff, sizeof(buff), format, arg_ptr);
   va_end(arg_ptr);
 
-  for (p = str; *p; p++)
+  if (n < 0)
+    return n;
+
+  if ((size_t) n >= sizeof(buff))	/* too long for the static buffer */
     {
-      c = *p;
-      Basic_Call_Fct_Putc(c, pstm); /* like Stream_Putc */
-      Update_Counters(pstm, c);
+      str = Malloc((size_t) n + 1);
+      va_start(arg_ptr, format);
+      vsnprintf(str, (size_t) n + 1, format, arg_ptr);
+      va_end(arg_ptr);
     }
 
-  return (int) (p - str);
+  n = Pl_Stream_Puts(str, pstm);
+
+  if (str != buff)
+    Free(str);
+
+  return n;
 }
 
 
@@ -1975,6 +1984,51 @@ Pl_Delete_Str_Stream(int stm)
 
 
 
+/*-------------------------------------------------------------------------*
+ * CLEANUP_STR_STREAM                                                      *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+Cleanup_Str_Stream(PlLong stm)
+{
+  Pl_Delete_Str_Stream((int) stm);
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_ADD_TMP_STR_STREAM                                                   *
+ *                                                                         *
+ * A str stream only used by the current C function: it is also deleted if *
+ * the function is left by an error.                                       *
+ *-------------------------------------------------------------------------*/
+int
+Pl_Add_Tmp_Str_Stream(char *buff, int prop_other)
+{
+  int stm = Pl_Add_Str_Stream(buff, prop_other);
+
+  Pl_Push_C_Cleanup(Cleanup_Str_Stream, stm);
+  return stm;
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_DELETE_TMP_STR_STREAM                                                *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+void
+Pl_Delete_Tmp_Str_Stream(int stm)
+{
+  Pl_Pop_C_Cleanup();
+  Pl_Delete_Str_Stream(stm);
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_TERMINATE_OUTPUT_STR_STREAM                                          *
  *                                                                         *
diff --git a/src/BipsPl/stream_supp.h b/src/BipsPl/stream_supp.h
index fd50a0e..b4c5686 100644
--- a/src/BipsPl/stream_supp.h
+++ b/src/BipsPl/stream_supp.h
@@ -471,6 +471,10 @@ int Pl_Add_Str_Stream(char *buff, int prop_other);
 
 void Pl_Delete_Str_Stream(int stm);
 
+int Pl_Add_Tmp_Str_Stream(char *buff, int prop_other);
+
+void Pl_Delete_Tmp_Str_Stream(int stm);
+
 void Pl_Rewind_Str_Stream(int stm);
 
 char *Pl_Terminate_Output_Str_Stream(int stm);
diff --git a/src/EnginePl/engine.c b/src/EnginePl/engine.c
index 0c44d96..e014f36 100644
--- a/src/EnginePl/engine.c
+++ b/src/EnginePl/engine.c
@@ -97,6 +97,19 @@ static WamWord *p_buff_save;
 
 static CodePtr cont_jmp;        /* we use a global var to support DEC alpha */
 
+/* What has to be released if a C function is left by a longjmp (i.e. an error).
+ * p_jumper identifies the nesting level of the function which has pushed it.
+ */
+typedef struct c_cleanup
+{
+  sigjmp_buf *level;
+  void (*fct)(PlLong);
+  PlLong arg;
+  struct c_cleanup *next;
+}CCleanup;
+
+static CCleanup *c_cleanup_stack;
+
 
 
 /*---------------------------------*
@@ -470,7 +483,17 @@ Call_Next(CodePtr codep)
     Pl_Call_Compiled(codep);
 
   if (jmp_val == 3)             /* return with a continuation in jmp_val */
-    Pl_Call_Compiled(cont_jmp);
+    {
+      while (c_cleanup_stack != NULL && c_cleanup_stack->level == p_jumper)
+	{			/* C functions of this level have been left */
+	  void (*fct)(PlLong) = c_cleanup_stack->fct;
+	  PlLong arg = c_cleanup_stack->arg;
+
+	  Pl_Pop_C_Cleanup();
+	  (*fct) (arg);
+	}
+      Pl_Call_Compiled(cont_jmp);
+    }
 
                                 /* normal return */
   p_jumper = old_jumper;
@@ -563,3 +586,47 @@ Pl_Execute_A_Continuation(CodePtr codep)
   cont_jmp = codep;
   siglongjmp(*p_jumper, 3);
 }
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_PUSH_C_CLEANUP                                                       *
+ *                                                                         *
+ * Registers fct(arg) to be called if the current C function is left by an *
+ * error (longjmp). On a normal exit the function pops it (and releases    *
+ * itself what it uses).                                                   *
+ *-------------------------------------------------------------------------*/
+void
+Pl_Push_C_Cleanup(void (*fct)(PlLong), PlLong arg)
+{
+  CCleanup *c = (CCleanup *) malloc(sizeof(CCleanup));
+
+  if (c == NULL)
+    {
+      fprintf(stderr, "Memory allocation fault\n");
+      exit(1);
+    }
+
+  c->level = p_jumper;
+  c->fct = fct;
+  c->arg = arg;
+  c->next = c_cleanup_stack;
+  c_cleanup_stack = c;
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_POP_C_CLEANUP                                                        *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+void
+Pl_Pop_C_Cleanup(void)
+{
+  CCleanup *c = c_cleanup_stack;
+
+  c_cleanup_stack = c->next;
+  free(c);
+}
diff --git a/src/EnginePl/engine.h b/src/EnginePl/engine.h
index e8687d1..5db77e8 100644
--- a/src/EnginePl/engine.h
+++ b/src/EnginePl/engine.h
@@ -141,6 +141,10 @@ void Pl_Exit_With_Exception(void);
 
 void Pl_Execute_A_Continuation(CodePtr codep);
 
+void Pl_Push_C_Cleanup(void (*fct)(PlLong), PlLong arg);
+
+void Pl_Pop_C_Cleanup(void);
+
 
 
 #define   Goto_Predicate(p, n)  ((*Prolog_Predicate(p, n))())
-- 
2.43.0


From cf234b670976ad1474b061ac8f44e5a3e73d88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 52/93] fix: format mishandled signs and spaces after ~,
 newlines and errors in pending columns, and incomplete printf formats

---
 src/BipsPl/format_c.c | 98 ++++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 47 deletions(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 9732806..9dc8f2f 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -40,6 +40,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <ctype.h>
 
 #include "engine_pl.h"
 #include "bips_pl.h"
@@ -74,6 +75,8 @@ PadInf;
  * Function Prototypes             *
  *---------------------------------*/
 
+static void Free_Format(PlLong format);
+
 static void Format(StmInf *pstm, char *format, WamWord args_word);
 
 static void Flush_Padding(StmInf *pstm_orig, int stm_pad, int nb_pad,
@@ -109,9 +112,7 @@ Pl_Format_3(WamWord sora_word, WamWord format_word, WamWord args_word)
   WamWord word, tag_mask;
   int stm;
   StmInf *pstm;
-  char buff[2048];		/* should be enough most of the case */
   char *p;
-  size_t l;
 
 
   stm = (sora_word == NOT_A_WAM_WORD) ? pl_stm_current_output :
@@ -125,21 +126,13 @@ Pl_Format_3(WamWord sora_word, WamWord format_word, WamWord args_word)
 
   /* copy from pl_glob_buff (in case of ~s occurs later) */
   p = Pl_Rd_Atom_Or_Chars_Or_Codes_Check(format_word);
-  l = strlen(p);
-  if (l < sizeof(buff))
-    {
-      strcpy(buff, p);
-      p = buff;
-    }
-  else
-    {
-      p = Strdup(p);
-    }
+  p = Strdup(p);
+  Pl_Push_C_Cleanup(Free_Format, (PlLong) p); /* in case of Pl_Err_... */
 
   Format(pstm, p, args_word);
 
-  if (p != buff)
-    Free(p);			/* missed in case of Pl_Err_... */
+  Pl_Pop_C_Cleanup();
+  Free(p);
 }
 
 
@@ -158,6 +151,19 @@ Pl_Format_2(WamWord format_word, WamWord args_word)
 
 
 
+/*-------------------------------------------------------------------------*
+ * FREE_FORMAT                                                             *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+Free_Format(PlLong format)
+{
+  Free((char *) format);
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * FORMAT                                                                  *
  *                                                                         *
@@ -189,7 +195,6 @@ Format(StmInf *pstm, char *format, WamWord args_word)
   int stm_pad = -1;		/* str stream to use fo active tab-paddings (-1 if not yet created) */
   PlLong tab_stop = 0;		/* tab stop (i.e. column boundary): numbered from 0 */
   PlLong curr_pos, free_space;
-#define CLEAN if (stm_pad >= 0) { Pl_Delete_Str_Stream(stm_pad); stm_pad = -1; }
  
 
   while (*format)
@@ -205,10 +210,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	{
 	  n = Arg_Integer(&lst_adr);
 	  if (n < 0)
-	    {
-	      CLEAN;
-	      Pl_Err_Domain(pl_domain_not_less_than_zero, Tag_INT(n));
-	    }
+	    Pl_Err_Domain(pl_domain_not_less_than_zero, Tag_INT(n));
 	  format++;
 	  has_n = TRUE;
 	}
@@ -217,9 +219,13 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  p = format;
 	  if (*p == '`' && p[1] != '\0') /* form `<char> n=ascii code of <char> */
 	    {
-	      n = p[1];
+	      n = (unsigned char) p[1];
 	      format += 2;
 	    }
+	  else if (!isdigit((unsigned char) *p)) /* strtol() also accepts spaces and a sign */
+	    {
+	      n = 0;
+	    }
 	  else
 	    {
 	      n = (PlLong) Str_To_PlLong(format, &format, 10); /* 0 is returned if no conversion is possible */
@@ -230,10 +236,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	       * We will detect it at return from this function.
 	       */
 	      if (TEST_INT_OVERFLOW(n))
-		{
-		  CLEAN;
-		  Pl_Err_Evaluation(pl_evaluation_int_overflow);
-		}
+		Pl_Err_Evaluation(pl_evaluation_int_overflow);
 	    }
 	  has_n = (format != p);
 	}
@@ -243,19 +246,16 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	{
 	case 'a':
 	  p = Arg_Atom(&lst_adr);
+	  Pl_Stream_Puts(p, pstm);
 	  if (has_n)
-	    Pl_Stream_Printf(pstm, "%*s", -n, p);
-	  else
-	    Pl_Stream_Puts(p, pstm);
+	    for (n -= strlen(p); n > 0; n--)
+	      Pl_Stream_Putc(' ', pstm);
 	  break;
 
 	case 'c':
 	  x = Arg_Integer(&lst_adr);
 	  if (!Is_Valid_Code(x))
-	    {
-	      CLEAN;
-	      Pl_Err_Representation(pl_representation_character_code);
-	    }
+	    Pl_Err_Representation(pl_representation_character_code);
 
 	  DEFAULT_N(1);
 	  while(n-- > 0)
@@ -328,10 +328,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 
 	  DEFAULT_N(8);
 	  if (n < 2 || n > 36)
-	    {
-	      CLEAN;
-	      Pl_Err_Domain(pl_domain_radix, Tag_INT(n));
-	    }
+	    Pl_Err_Domain(pl_domain_radix, Tag_INT(n));
 
 	  k = ((fmt_char == 'r') ? 'a' : 'A') - 10;
 
@@ -358,9 +355,10 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  p = Arg_Any_String(&lst_adr);
  
 	  if (has_n)
-	    Pl_Stream_Printf(pstm, "%-*.*s", n, n, p);
+	    while (n-- > 0)
+	      Pl_Stream_Putc((*p) ? *p++ : ' ', pstm);
 	  else
-	    Pl_Stream_Printf(pstm, "%s", p);
+	    Pl_Stream_Puts(p, pstm);
 	  break;
 
 	case 'i':
@@ -410,7 +408,10 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  break;
 
 	case 'N': /* NB: the 'n' is ignored since after the the first \n we are at the begin of line */
-	  if (pstm->line_pos > 0)
+	  curr_pos = pstm->line_pos;
+	  if (pstm != pstm_orig && last_line_count == pstm->line_count)
+	    curr_pos += pstm_orig->line_pos; /* on the same line as what precedes the ~t */
+	  if (curr_pos > 0)
 	    Pl_Stream_Putc('\n', pstm);
 	  break;
 
@@ -439,15 +440,19 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 		  n = Arg_Integer(&lst_adr);
 		else if (n1 == IMPOSS)
 		  n1 = Arg_Integer(&lst_adr);
+		else
+		  goto c_printf_error;
 	      }
+	    else if (p >= buff + sizeof(buff) - 8) /* keep room for length modifiers */
+	      goto c_printf_error;
 	  while (fmt_char >= ' ' && fmt_char <= '9');
 	  *p = '\0';
 	  format--;		/* sync for break */
 	  
-	  if (strchr("diouxXpcsaAeEfFgG", fmt_char) == NULL) /* do not include 'n' (dangerous) */
+	  if (fmt_char == '\0' || strchr("diouxXpcsaAeEfFgG", fmt_char) == NULL) /* do not include 'n' (dangerous) */
 	    {
 	    c_printf_error:
-	      CLEAN;
+	      *p = '\0';
 	      Pl_Err_Domain(pl_domain_format_control_sequence,
 			    Tag_ATM(Pl_Create_Atom(buff)));
 	    }
@@ -524,6 +529,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  if (last_line_count != pstm->line_count)
 	    {		/* newline occured juste before this ~| or ~+ - flush (no free space) */
 	      Flush_Padding(pstm_orig, stm_pad, nb_pad, pad, 0); 
+	      pstm = pstm_orig;
 	      nb_pad = 0;
 	      tab_stop = 0;
 	    }
@@ -569,16 +575,13 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  if (nb_pad == 0)
 	    {
 	      if (stm_pad < 0)
-		stm_pad = Pl_Add_Str_Stream(NULL, 0); /* prop_other ? TERM_STREAM_ATOM ? */
+		stm_pad = Pl_Add_Tmp_Str_Stream(NULL, 0); /* prop_other ? TERM_STREAM_ATOM ? */
 	      pstm = pl_stm_tbl[stm_pad]; /* will only be restored to pstm_orig at ~| or ~+ */
 	      last_line_count = pstm->line_count;
 	    }
 
 	  if (nb_pad >= MAX_PAD)
-	    {
-	      CLEAN;
-	      Pl_Err_Resource(Pl_Create_Atom("too many consecutive ~t in format"));
-	    }
+	    Pl_Err_Resource(Pl_Create_Atom("too many consecutive ~t in format"));
 	      
 	  pad[nb_pad].start_ptr = Pl_Get_Ptr_Str_Stream(stm_pad);
 	  pad[nb_pad].fill_char = (char) n;
@@ -586,7 +589,6 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  break;
 	      
 	default:
-	  CLEAN;
 	  Pl_Err_Domain(pl_domain_format_control_sequence, Tag_ATM(ATOM_CHAR(fmt_char)));
 	}
       format++;
@@ -595,7 +597,9 @@ Format(StmInf *pstm, char *format, WamWord args_word)
   /* end of format occured while remaining ~t - flush (no free space) */
   Flush_Padding(pstm_orig, stm_pad, nb_pad, pad, 0);
 
-  CLEAN;  
+  if (stm_pad >= 0)
+    Pl_Delete_Tmp_Str_Stream(stm_pad);
+
   Pl_Check_Empty_List(*lst_adr, args_word);
 }
 
-- 
2.43.0


From 3572f9b91d6e131ba8e8b026e6005f54ec09a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 53/93] fix: the length of an atom was kept modulo 65536

---
 src/EnginePl/atom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EnginePl/atom.h b/src/EnginePl/atom.h
index 9d8235c..22ffa44 100644
--- a/src/EnginePl/atom.h
+++ b/src/EnginePl/atom.h
@@ -96,7 +96,7 @@
 
 typedef struct			/* Atom properties                */
 {				/* ------------------------------ */
-  unsigned length:16;		/* its length (in characters)     */
+  int length;			/* its length (in characters)     */
   unsigned op_mask:4;		/* operator defined for the atom  */
   unsigned type:2;		/* IDENTIFIER GRAPHIC SOLO OTHER  */
   unsigned needs_quote:1;	/* needs ' around it ?            */
-- 
2.43.0


From 06f7900918e7794c9acc4ec2cb1260c0837fd5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 54/93] fix: write_term_to_atom/chars/codes succeeded when
 their first argument was a different constant

---
 src/BipsPl/const_io.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/const_io.pl b/src/BipsPl/const_io.pl
index 8f18f7c..fe4cc3e 100644
--- a/src/BipsPl/const_io.pl
+++ b/src/BipsPl/const_io.pl
@@ -126,7 +126,7 @@ write_term_to_atom(_Atom, Term, Options) :-
 	fail.			% undo variable_names assignments
 
 write_term_to_atom(Atom, _Term, _Options) :-
-	'$call_c'('Pl_Write_Term_To_Atom_After_1'(Atom)).
+	'$call_c_test'('Pl_Write_Term_To_Atom_After_1'(Atom)).
 
 
 write_term_to_chars(_Chars, Term, Options) :-
@@ -137,7 +137,7 @@ write_term_to_chars(_Chars, Term, Options) :-
 	fail.			% undo variable_names assignments
 
 write_term_to_chars(Chars, _Term, _Options) :-
-	'$call_c'('Pl_Write_Term_To_Chars_After_1'(Chars)).
+	'$call_c_test'('Pl_Write_Term_To_Chars_After_1'(Chars)).
 
 
 write_term_to_codes(_Codes, Term, Options) :-
@@ -148,7 +148,7 @@ write_term_to_codes(_Codes, Term, Options) :-
 	fail.			% undo variable_names assignments
 
 write_term_to_codes(Codes, _Term, _Options) :-
-	'$call_c'('Pl_Write_Term_To_Codes_After_1'(Codes)).
+	'$call_c_test'('Pl_Write_Term_To_Codes_After_1'(Codes)).
 
 
 
-- 
2.43.0


From e46e4c79e29c2db9185edcee252c0733d5a6aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 55/93] fix: writing to another stream inside portray/1 raised
 a resource_error

---
 src/BipsPl/write_supp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/write_supp.c b/src/BipsPl/write_supp.c
index e17b239..346f4ad 100644
--- a/src/BipsPl/write_supp.c
+++ b/src/BipsPl/write_supp.c
@@ -1416,7 +1416,7 @@ Try_Portray(WamWord word)
   pl_stm_current_output = save_stm_current_output; 
   Pl_Set_Alias_To_Stream(pl_atom_current_output, pl_stm_current_output, TRUE);
 
-  if (pl_stm_tbl[stm_o] != pstm_o)
+  if (pl_stm_tbl[stm_o] != save_pstm_o) /* pstm_o: changed by a nested write */
     Pl_Err_Resource(Pl_Create_Atom("no longer available stream after portray/1"));
 
   pstm_o = save_pstm_o;
-- 
2.43.0


From 760184746637997b88a409a01505ef4ccc11ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 56/93] fix: comparing two long lists (or right-nested terms)
 overflowed the C stack

---
 src/BipsPl/term_supp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/term_supp.c b/src/BipsPl/term_supp.c
index ca39ab3..3917c9d 100644
--- a/src/BipsPl/term_supp.c
+++ b/src/BipsPl/term_supp.c
@@ -100,6 +100,8 @@ PlLong Pl_Term_Compare(WamWord start_u_word, WamWord start_v_word)
   PlLong x;
   double d1, d2;
 
+terminal_rec:
+
   DEREF(start_u_word, u_word, u_tag_mask);
   DEREF(start_v_word, v_word, v_tag_mask);
 
@@ -171,11 +173,13 @@ PlLong Pl_Term_Compare(WamWord start_u_word, WamWord start_v_word)
   if (u_func != v_func)
     return strcmp(pl_atom_tbl[u_func].name, pl_atom_tbl[v_func].name);
 
-  for (i = 0; i < u_arity; i++)
+  for (i = 1; i < u_arity; i++)
     if ((x = Pl_Term_Compare(*u_arg_adr++, *v_arg_adr++)) != 0)
       return x;
 
-  return 0;
+  start_u_word = *u_arg_adr;	/* last arg: no recursion (long lists) */
+  start_v_word = *v_arg_adr;
+  goto terminal_rec;
 }
 
 
-- 
2.43.0


From 128cca78671f74f839c2218a98e9adca182ffec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 57/93] fix: a list of characters or codes longer than 1 MB
 overflowed a static buffer

---
 src/BipsPl/atom_c.c   | 10 +++--
 src/BipsPl/c_supp.c   | 93 +++++++++++++++++++++++++++++++++++--------
 src/BipsPl/c_supp.h   |  2 +
 src/BipsPl/stream_c.c | 12 ++----
 src/EnginePl/engine.h |  4 +-
 5 files changed, 91 insertions(+), 30 deletions(-)

diff --git a/src/BipsPl/atom_c.c b/src/BipsPl/atom_c.c
index 234c1c1..c7fb66e 100644
--- a/src/BipsPl/atom_c.c
+++ b/src/BipsPl/atom_c.c
@@ -674,7 +674,8 @@ Pl_Number_Chars_2(WamWord number_word, WamWord chars_word)
 {
   WamWord word, tag_mask;
   WamWord *lst_adr, list_word;
-  char *str = pl_glob_buff;
+  char *buff = Pl_Str_Buff(chars_word);
+  char *str = buff;
   int atom;
 
   list_word = chars_word;
@@ -699,7 +700,7 @@ Pl_Number_Chars_2(WamWord number_word, WamWord chars_word)
     }
 
   *str = '\0';
-  return String_To_Number(pl_glob_buff, number_word);
+  return String_To_Number(buff, number_word);
 
 from_nb:
   DEREF(number_word, word, tag_mask);
@@ -731,7 +732,8 @@ Pl_Number_Codes_2(WamWord number_word, WamWord codes_word)
 {
   WamWord word, tag_mask;
   WamWord *lst_adr, list_word;
-  char *str = pl_glob_buff;
+  char *buff = Pl_Str_Buff(codes_word);
+  char *str = buff;
   PlLong c;
 
   list_word = codes_word;
@@ -756,7 +758,7 @@ Pl_Number_Codes_2(WamWord number_word, WamWord codes_word)
     }
 
   *str = '\0';
-  return String_To_Number(pl_glob_buff, number_word);
+  return String_To_Number(buff, number_word);
 
 from_nb:
   DEREF(number_word, word, tag_mask);
diff --git a/src/BipsPl/c_supp.c b/src/BipsPl/c_supp.c
index a00419e..dbefe6d 100644
--- a/src/BipsPl/c_supp.c
+++ b/src/BipsPl/c_supp.c
@@ -781,6 +781,51 @@ Pl_Rd_String(WamWord start_word)
 
 
 
+/*-------------------------------------------------------------------------*
+ * PL_STR_BUFF                                                             *
+ *                                                                         *
+ * returns a buffer large enough for the characters of an atom or of a     *
+ * (maybe partial) list: pl_glob_buff unless it is too small.              *
+ *-------------------------------------------------------------------------*/
+char *
+Pl_Str_Buff(WamWord start_word)
+{
+  static char *big_buff = NULL;
+  static PlLong big_size = 0;
+  WamWord word, tag_mask;
+  PlLong n = 1;			/* for the \0 */
+
+  for (;;)
+    {
+      DEREF(start_word, word, tag_mask);
+
+      if (tag_mask == TAG_ATM_MASK)
+	n += pl_atom_tbl[UnTag_ATM(word)].prop.length;
+
+      if (tag_mask != TAG_LST_MASK)
+	break;
+
+      n++;
+      start_word = Cdr(UnTag_LST(word));
+    }
+
+  if (n <= PL_GLOB_BUFF_SIZE)
+    return pl_glob_buff;
+
+  if (n > big_size)
+    {
+      if (big_buff != NULL)
+	Free(big_buff);
+      big_buff = Malloc(n);
+      big_size = n;
+    }
+
+  return big_buff;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_RD_CHARS_CHECK                                                       *
  *                                                                         *
@@ -788,8 +833,10 @@ Pl_Rd_String(WamWord start_word)
 char *
 Pl_Rd_Chars_Check(WamWord start_word)
 {
-  Pl_Rd_Chars_Str_Check(start_word, pl_glob_buff);
-  return pl_glob_buff;
+  char *str = Pl_Str_Buff(start_word);
+
+  Pl_Rd_Chars_Str_Check(start_word, str);
+  return str;
 }
 
 
@@ -802,8 +849,10 @@ Pl_Rd_Chars_Check(WamWord start_word)
 char *
 Pl_Rd_Chars(WamWord start_word)
 {
-  Pl_Rd_Chars_Str(start_word, pl_glob_buff);
-  return pl_glob_buff;
+  char *str = Pl_Str_Buff(start_word);
+
+  Pl_Rd_Chars_Str(start_word, str);
+  return str;
 }
 
 
@@ -816,8 +865,10 @@ Pl_Rd_Chars(WamWord start_word)
 char *
 Pl_Rd_Codes_Check(WamWord start_word)
 {
-  Pl_Rd_Codes_Str_Check(start_word, pl_glob_buff);
-  return pl_glob_buff;
+  char *str = Pl_Str_Buff(start_word);
+
+  Pl_Rd_Codes_Str_Check(start_word, str);
+  return str;
 }
 
 
@@ -830,8 +881,10 @@ Pl_Rd_Codes_Check(WamWord start_word)
 char *
 Pl_Rd_Codes(WamWord start_word)
 {
-  Pl_Rd_Codes_Str(start_word, pl_glob_buff);
-  return pl_glob_buff;
+  char *str = Pl_Str_Buff(start_word);
+
+  Pl_Rd_Codes_Str(start_word, str);
+  return str;
 }
 
 
@@ -848,8 +901,10 @@ Pl_Rd_Codes(WamWord start_word)
 char *
 Pl_Rd_Chars_Or_Codes_Check(WamWord start_word)
 {
-  Pl_Rd_Chars_Or_Codes_Str_Check(start_word, pl_glob_buff);
-  return pl_glob_buff;
+  char *str = Pl_Str_Buff(start_word);
+
+  Pl_Rd_Chars_Or_Codes_Str_Check(start_word, str);
+  return str;
 }
 
 
@@ -862,8 +917,10 @@ Pl_Rd_Chars_Or_Codes_Check(WamWord start_word)
 char *
 Pl_Rd_Chars_Or_Codes(WamWord start_word)
 {
-  Pl_Rd_Chars_Or_Codes_Str(start_word, pl_glob_buff);
-  return pl_glob_buff;
+  char *str = Pl_Str_Buff(start_word);
+
+  Pl_Rd_Chars_Or_Codes_Str(start_word, str);
+  return str;
 }
 
 
@@ -876,8 +933,10 @@ Pl_Rd_Chars_Or_Codes(WamWord start_word)
 char *
 Pl_Rd_Atom_Or_Chars_Or_Codes_Check(WamWord start_word)
 {
-  Pl_Rd_Atom_Or_Chars_Or_Codes_Str_Check(start_word, pl_glob_buff);
-  return pl_glob_buff;
+  char *str = Pl_Str_Buff(start_word);
+
+  Pl_Rd_Atom_Or_Chars_Or_Codes_Str_Check(start_word, str);
+  return str;
 }
 
 
@@ -890,8 +949,10 @@ Pl_Rd_Atom_Or_Chars_Or_Codes_Check(WamWord start_word)
 char *
 Pl_Rd_Atom_Or_Chars_Or_Codes(WamWord start_word)
 {
-  Pl_Rd_Atom_Or_Chars_Or_Codes_Str(start_word, pl_glob_buff);
-  return pl_glob_buff;
+  char *str = Pl_Str_Buff(start_word);
+
+  Pl_Rd_Atom_Or_Chars_Or_Codes_Str(start_word, str);
+  return str;
 }
 
 
diff --git a/src/BipsPl/c_supp.h b/src/BipsPl/c_supp.h
index 669a0d6..594ba3c 100644
--- a/src/BipsPl/c_supp.h
+++ b/src/BipsPl/c_supp.h
@@ -112,6 +112,8 @@ char *Pl_Rd_String_Check(WamWord start_word);
 
 char *Pl_Rd_String(WamWord start_word);
 
+char *Pl_Str_Buff(WamWord start_word);
+
 char *Pl_Rd_Chars_Check(WamWord start_word);
 
 char *Pl_Rd_Chars(WamWord start_word);
diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index a6e32bb..6cd6f8e 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -1427,22 +1427,16 @@ Pl_Open_Input_Term_Stream_2(WamWord sink_term_word, WamWord stm_word)
 {
   char *str;
   int stm;
-  int n;
 
   if (SYS_VAR_OPTION_MASK == TERM_STREAM_ATOM)
     str = pl_atom_tbl[Pl_Rd_Atom_Check(sink_term_word)].name;
   else
     {
-      n = Pl_List_Length(sink_term_word);	/* -1 if not a list */
-      if (n >= 0)
-	str = Malloc(n + 1);	/* +1 for \0 */
-      else
-	str = pl_glob_buff;
-
       if (SYS_VAR_OPTION_MASK == TERM_STREAM_CHARS)
-	Pl_Rd_Chars_Str_Check(sink_term_word, str);
+	str = Pl_Rd_Chars_Check(sink_term_word);
       else
-	Pl_Rd_Codes_Str_Check(sink_term_word, str);
+	str = Pl_Rd_Codes_Check(sink_term_word);
+      str = Strdup(str);
     }
 
   stm = Pl_Add_Str_Stream(str, (int) SYS_VAR_OPTION_MASK);
diff --git a/src/EnginePl/engine.h b/src/EnginePl/engine.h
index 5db77e8..5f2f723 100644
--- a/src/EnginePl/engine.h
+++ b/src/EnginePl/engine.h
@@ -54,6 +54,8 @@
 
 #define Prolog_Prototype(p, n)     void Prolog_Predicate(p, n)()
 
+#define PL_GLOB_BUFF_SIZE          (1024 * 1024)
+
 
 
 
@@ -85,7 +87,7 @@ Bool pl_devel_mode;
  * or explicitely specifynig an alignement below with gcc attribute (see arch_dep.h)
  */
 ATTR_ALIGN(SIZEOF_VOIDP)
-char pl_glob_buff[1024 * 1024];
+char pl_glob_buff[PL_GLOB_BUFF_SIZE];
 
 PlLong *pl_base_fl;		/* overwritten by foreign if present */
 double *pl_base_fd;		/* overwritten by foreign if present */
-- 
2.43.0


From 48c6465b185f37f0f7060991680e2a4c0f28504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 58/93] fix: enumerating operators, predicates, aliases or
 mirrors while they are modified used freed memory

---
 src/BipsPl/oper_c.c   | 165 +++++++++++++++++++++---------------------
 src/BipsPl/pred_c.c   | 131 +++++++++++++++------------------
 src/BipsPl/stream_c.c | 147 ++++++++++++++-----------------------
 3 files changed, 199 insertions(+), 244 deletions(-)

diff --git a/src/BipsPl/oper_c.c b/src/BipsPl/oper_c.c
index aeb9934..f7472c8 100644
--- a/src/BipsPl/oper_c.c
+++ b/src/BipsPl/oper_c.c
@@ -81,6 +81,11 @@ static int atom_specif_tbl[7];
 
 static int Detect_Oper_Specif(OperInf *oper);
 
+static WamWord Push_Oper(OperInf *oper, WamWord list_word);
+
+static Bool Next_Oper(WamWord prec_word, WamWord specif_word, WamWord oper_word,
+		      WamWord list_word, Bool has_choice_point);
+
 
 
 #define CURRENT_OP_ALT             X1_2463757272656E745F6F705F616C74
@@ -194,8 +199,7 @@ Pl_Current_Op_3(WamWord prec_word, WamWord specif_word, WamWord oper_word)
   PlLong prec;
   int atom_specif;
   OperInf *oper;
-  int atom;
-  int op_mask;
+  WamWord list_word;
   int i = 0;			/* init for the compiler */
 
   DEREF(oper_word, word, tag_mask);
@@ -226,114 +230,111 @@ Pl_Current_Op_3(WamWord prec_word, WamWord specif_word, WamWord oper_word)
   specif_word = word;
 
 
+		/* collect now since the table can be modified before backtracking */
+  list_word = NIL_WORD;
   if (Tag_Mask_Of(oper_word) == TAG_ATM_MASK)
     {
-      atom = UnTag_ATM(oper_word);
-      op_mask = pl_atom_tbl[atom].prop.op_mask;
-      if (op_mask == 0)
-	return FALSE;
-
-      for (i = PREFIX; i <= POSTFIX; i++)
-	if (op_mask & Make_Op_Mask(i))
-	  break;
-
-      op_mask &= ~Make_Op_Mask(i);
-      if (op_mask)		/* non deterministic case */
-	{
-	  A(0) = prec_word;
-	  A(1) = specif_word;
-	  A(2) = oper_word;
-	  A(3) = op_mask;
-	  Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_OP_ALT, 0),
-			      4);
-	}
-      oper = Pl_Lookup_Oper(atom, i);
+      for (i = INFIX; i >= PREFIX; i--)
+	if ((oper = Pl_Lookup_Oper(UnTag_ATM(oper_word), i)) != NULL)
+	  list_word = Push_Oper(oper, list_word);
     }
   else
     {
-      oper = (OperInf *) Pl_HTBL_First(pl_oper_htbl, &scan);
-      if (oper == NULL)
-	return FALSE;
-
-      /* non deterministic case */
-      A(0) = prec_word;
-      A(1) = specif_word;
-      A(2) = oper_word;
-      A(3) = (WamWord) scan.end_t;
-      A(4) = (WamWord) scan.cur_t;
-      A(5) = (WamWord) scan.cur_p;
-      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_OP_ALT, 0), 6);
+      for (oper = (OperInf *) Pl_HTBL_First(pl_oper_htbl, &scan); oper;
+	   oper = (OperInf *) Pl_HTBL_Next(&scan))
+	list_word = Push_Oper(oper, list_word);
     }
 
-  return Pl_Get_Integer(oper->prec, prec_word) &&
-    Pl_Get_Atom(Detect_Oper_Specif(oper), specif_word) &&
-    Pl_Get_Atom(Atom_Of_Oper(oper->a_t), oper_word);
+  return Next_Oper(prec_word, specif_word, oper_word, list_word, FALSE);
 }
 
 
 
 
 /*-------------------------------------------------------------------------*
- * PL_CURRENT_OP_ALT_0                                                     *
+ * PUSH_OPER                                                               *
  *                                                                         *
+ * adds prec, specif, atom in front of a list (on the heap)                *
  *-------------------------------------------------------------------------*/
-Bool
-Pl_Current_Op_Alt_0(void)
+static WamWord
+Push_Oper(OperInf *oper, WamWord list_word)
 {
-  WamWord prec_word, specif_word, oper_word;
-  HashScan scan;
-  OperInf *oper;
-  int atom;
-  int op_mask;
+  WamWord word[3];
   int i;
 
+  word[0] = Tag_ATM(Atom_Of_Oper(oper->a_t));
+  word[1] = Tag_ATM(Detect_Oper_Specif(oper));
+  word[2] = Tag_INT(oper->prec);
 
-  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_OP_ALT, 0), 0);
+  for (i = 0; i < 3; i++)
+    {
+      H[0] = word[i];
+      H[1] = list_word;
+      list_word = Tag_LST(H);
+      H += 2;
+    }
+
+  return list_word;
+}
 
-  prec_word = AB(B, 0);
-  specif_word = AB(B, 1);
-  oper_word = AB(B, 2);
 
-  if (Tag_Mask_Of(oper_word) == TAG_ATM_MASK)
-    {
-      atom = UnTag_ATM(oper_word);
-      op_mask = (int) AB(B, 3);
 
-      for (i = PREFIX; i <= POSTFIX; i++)
-	if (op_mask & Make_Op_Mask(i))
-	  break;
 
-      oper = Pl_Lookup_Oper(atom, i);
+/*-------------------------------------------------------------------------*
+ * NEXT_OPER                                                               *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static Bool
+Next_Oper(WamWord prec_word, WamWord specif_word, WamWord oper_word,
+	  WamWord list_word, Bool has_choice_point)
+{
+  WamWord word[3];
+  WamWord *lst_adr;
+  int i;
+
+  if (list_word == NIL_WORD)
+    return FALSE;
+
+  for (i = 0; i < 3; i++)
+    {
+      lst_adr = UnTag_LST(list_word);
+      word[i] = Car(lst_adr);
+      list_word = Cdr(lst_adr);
+    }
 
-      Delete_Last_Choice_Point();
+  if (list_word == NIL_WORD)
+    {
+      if (has_choice_point)
+	Delete_Last_Choice_Point();
     }
-  else
+  else if (has_choice_point)
+    AB(B, 3) = list_word;
+  else				/* non deterministic case */
     {
-      scan.end_t = (HashNode *) AB(B, 3);
-      scan.cur_t = (HashNode *) AB(B, 4);
-      scan.cur_p = (HashNode)   AB(B, 5);
-
-      oper = (OperInf *) Pl_HTBL_Next(&scan);
-      if (oper == NULL)
-	{
-	  Delete_Last_Choice_Point();
-	  return FALSE;
-	}
-
-
-#if 0 /* the following data is unchanged */
-      AB(B, 0) = prec_word;
-      AB(B, 1) = specif_word;
-      AB(B, 2) = oper_word;
-      AB(B, 3) = (WamWord) scan.end_t;
-#endif
-      AB(B, 4) = (WamWord) scan.cur_t;
-      AB(B, 5) = (WamWord) scan.cur_p;
+      A(0) = prec_word;
+      A(1) = specif_word;
+      A(2) = oper_word;
+      A(3) = list_word;
+      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_OP_ALT, 0), 4);
     }
 
-  return Pl_Get_Integer(oper->prec, prec_word) &&
-    Pl_Get_Atom(Detect_Oper_Specif(oper), specif_word) &&
-    Pl_Get_Atom(Atom_Of_Oper(oper->a_t), oper_word);
+  return Pl_Unify(word[0], prec_word) && Pl_Unify(word[1], specif_word) &&
+    Pl_Unify(word[2], oper_word);
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_CURRENT_OP_ALT_0                                                     *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+Bool
+Pl_Current_Op_Alt_0(void)
+{
+  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_OP_ALT, 0), 0);
+
+  return Next_Oper(AB(B, 0), AB(B, 1), AB(B, 2), AB(B, 3), TRUE);
 }
 
 
diff --git a/src/BipsPl/pred_c.c b/src/BipsPl/pred_c.c
index 7c17c55..a8d4374 100644
--- a/src/BipsPl/pred_c.c
+++ b/src/BipsPl/pred_c.c
@@ -62,6 +62,13 @@
  * Function Prototypes             *
  *---------------------------------*/
 
+#define Pred_Is_Ok(pred, func, which_preds) \
+  (which_preds == 2 || (pl_atom_tbl[func].name[0] != '$' && \
+   (which_preds == 1 || !(pred->prop & MASK_PRED_BUILTIN))))
+
+static Bool Next_Predicate(WamWord name_word, WamWord arity_word, int which_preds,
+			   WamWord list_word, Bool has_choice_point);
+
 #define CURRENT_PREDICATE_ALT   X1_2463757272656E745F7072656469636174655F616C74
 
 Prolog_Prototype(CURRENT_PREDICATE_ALT, 0);
@@ -77,6 +84,7 @@ Bool
 Pl_Current_Predicate_2(WamWord pred_indic_word, WamWord which_preds_word)
 {
   WamWord name_word, arity_word;
+  WamWord list_word;
   HashScan scan;
   PredInf *pred;
   int func, arity;
@@ -93,10 +101,6 @@ Pl_Current_Predicate_2(WamWord pred_indic_word, WamWord which_preds_word)
   if (which_preds == 0 && !Flag_Value(strict_iso))
     which_preds = 1;
 
-#define Pred_Is_Ok(pred, func, which_preds) \
-  (which_preds == 2 || (pl_atom_tbl[func].name[0] != '$' && \
-   (which_preds == 1 || !(pred->prop & MASK_PRED_BUILTIN))))
-
   if (func >= 0 && arity >= 0)
     {
       pred = Pl_Lookup_Pred(func, arity);
@@ -106,105 +110,90 @@ Pl_Current_Predicate_2(WamWord pred_indic_word, WamWord which_preds_word)
 				/* here func or arity == -1 (or both) */
   all = (func == -1 && arity == -1);
 
-  pred = (PredInf *) Pl_HTBL_First(pl_pred_htbl, &scan);
-  for (;;)
+		/* collect now since the table can be modified before backtracking */
+  list_word = NIL_WORD;
+  for (pred = (PredInf *) Pl_HTBL_First(pl_pred_htbl, &scan); pred;
+       pred = (PredInf *) Pl_HTBL_Next(&scan))
     {
-      if (pred == NULL)
-	return FALSE;
-
       func1 = Functor_Of(pred->f_n);
       arity1 = Arity_Of(pred->f_n);
 
       if ((all || func == func1 || arity == arity1) &&
 	  Pred_Is_Ok(pred, func1, which_preds))
-	break;
-
-      pred = (PredInf *) Pl_HTBL_Next(&scan);
+	{
+	  H[0] = Tag_INT((PlLong) func1 * (MAX_ARITY + 1) + arity1);
+	  H[1] = list_word;
+	  list_word = Tag_LST(H);
+	  H += 2;
+	}
     }
 
-				/* non deterministic case */
-  A(0) = name_word;
-  A(1) = arity_word;
-  A(2) = which_preds;
-  A(3) = (WamWord) scan.end_t;
-  A(4) = (WamWord) scan.cur_t;
-  A(5) = (WamWord) scan.cur_p;
-  Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PREDICATE_ALT, 0), 6);
-
-  return Pl_Get_Atom(Functor_Of(pred->f_n), name_word) &&
-    Pl_Get_Integer(Arity_Of(pred->f_n), arity_word);
-  /*
-  return Pl_Un_Atom_Check(Functor_Of(pred->f_n), name_word) &&
-    Pl_Un_Integer_Check(Arity_Of(pred->f_n), arity_word);
-  */
+  return Next_Predicate(name_word, arity_word, which_preds, list_word, FALSE);
 }
 
 
 
 
 /*-------------------------------------------------------------------------*
- * PL_CURRENT_PREDICATE_ALT_0                                              *
+ * NEXT_PREDICATE                                                          *
  *                                                                         *
  *-------------------------------------------------------------------------*/
-Bool
-Pl_Current_Predicate_Alt_0(void)
+static Bool
+Next_Predicate(WamWord name_word, WamWord arity_word, int which_preds,
+	       WamWord list_word, Bool has_choice_point)
 {
-  WamWord name_word, arity_word;
-  HashScan scan;
   PredInf *pred;
-  int which_preds;
+  WamWord *lst_adr;
+  PlLong f_n;
   int func, arity;
-  int func1, arity1;
-  Bool all;
-
-  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PREDICATE_ALT, 0), 0);
-
-  name_word = AB(B, 0);
-  arity_word = AB(B, 1);
-  which_preds = (int) AB(B, 2);
-  scan.end_t = (HashNode *) AB(B, 3);
-  scan.cur_t = (HashNode *) AB(B, 4);
-  scan.cur_p = (HashNode)   AB(B, 5);
-
-  func = Tag_Mask_Of(name_word) == TAG_REF_MASK ? -1 : UnTag_ATM(name_word);
-  arity = Tag_Mask_Of(arity_word) == TAG_REF_MASK ? -1 : (int) UnTag_INT(arity_word);
 
-				/* here func or arity == -1 (or both) */
-  all = (func == -1 && arity == -1);
-
-  for (;;)
+  do
     {
-      pred = (PredInf *) Pl_HTBL_Next(&scan);
-      if (pred == NULL)
+      if (list_word == NIL_WORD)
 	{
-	  Delete_Last_Choice_Point();
+	  if (has_choice_point)
+	    Delete_Last_Choice_Point();
 	  return FALSE;
 	}
 
-      func1 = Functor_Of(pred->f_n);
-      arity1 = Arity_Of(pred->f_n);
+      lst_adr = UnTag_LST(list_word);
+      f_n = UnTag_INT(Car(lst_adr));
+      list_word = Cdr(lst_adr);
+      func = (int) (f_n / (MAX_ARITY + 1));
+      arity = (int) (f_n % (MAX_ARITY + 1));
+      pred = Pl_Lookup_Pred(func, arity);
+    }
+  while (pred == NULL || !Pred_Is_Ok(pred, func, which_preds));
 
-      if ((all || func == func1 || arity == arity1) &&
-	  Pred_Is_Ok(pred, func1, which_preds))
-	break;
+  if (has_choice_point)
+    AB(B, 3) = list_word;
+  else				/* non deterministic case */
+    {
+      A(0) = name_word;
+      A(1) = arity_word;
+      A(2) = which_preds;
+      A(3) = list_word;
+      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PREDICATE_ALT, 0), 4);
     }
 
-				/* non deterministic case */
+  return Pl_Get_Atom(func, name_word) && Pl_Get_Integer(arity, arity_word);
+}
 
-#if 0				/* the following data is unchanged */
-  AB(B, 0) = name_word;
-  AB(B, 1) = arity_word;
-  AB(B, 2) = which_preds;
-  AB(B, 3) = (WamWord) scan.end_t;
-#endif
-  AB(B, 4) = (WamWord) scan.cur_t;
-  AB(B, 5) = (WamWord) scan.cur_p;
 
-  return Pl_Get_Atom(Functor_Of(pred->f_n), name_word) &&
-    Pl_Get_Integer(Arity_Of(pred->f_n), arity_word);
-}
 
 
+/*-------------------------------------------------------------------------*
+ * PL_CURRENT_PREDICATE_ALT_0                                              *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+Bool
+Pl_Current_Predicate_Alt_0(void)
+{
+  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PREDICATE_ALT, 0), 0);
+
+  return Next_Predicate(AB(B, 0), AB(B, 1), (int) AB(B, 2), AB(B, 3), TRUE);
+}
+
 
 
 
diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 6cd6f8e..4ee1508 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -103,6 +103,8 @@ TermSInf;
  * Function Prototypes             *
  *---------------------------------*/
 
+static Bool Next_In_List(WamWord arg_word, WamWord list_word, CodePtr alt);
+
 #define CURRENT_STREAM_ALT         X1_2463757272656E745F73747265616D5F616C74
 #define CURRENT_ALIAS_ALT          X1_2463757272656E745F616C6961735F616C74
 #define CURRENT_MIRROR_ALT         X1_2463757272656E745F6D6972726F725F616C74
@@ -965,7 +967,7 @@ Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word)
   int stm;
   HashScan scan;
   AliasInf *alias;
-  AliasInf *save_alias;
+  WamWord list_word;
 
   stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
 
@@ -973,37 +975,58 @@ Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word)
   if (tag_mask != TAG_REF_MASK)
     return Pl_Find_Stream_By_Alias(Pl_Rd_Atom_Check(word)) == stm;
 
+		/* collect now since the table can be modified before backtracking */
+  list_word = NIL_WORD;
   for (alias = (AliasInf *) Pl_HTBL_First(pl_alias_htbl, &scan); alias;
        alias = (AliasInf *) Pl_HTBL_Next(&scan))
     if (alias->stm == stm)
-      break;
+      {
+	H[0] = Tag_ATM(alias->atom);
+	H[1] = list_word;
+	list_word = Tag_LST(H);
+	H += 2;
+      }
+
+  return Next_In_List(alias_word, list_word, (CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0));
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * NEXT_IN_LIST                                                            *
+ *                                                                         *
+ * unifies the first element of a list and keeps a choice point for the    *
+ * others (alt == NULL: called from the alternative of that choice point). *
+ *-------------------------------------------------------------------------*/
+static Bool
+Next_In_List(WamWord arg_word, WamWord list_word, CodePtr alt)
+{
+  WamWord *lst_adr;
+  WamWord word;
 
-  if (alias == NULL)
+  if (list_word == NIL_WORD)
     return FALSE;
 
-  save_alias = alias;
+  lst_adr = UnTag_LST(list_word);
+  word = Car(lst_adr);
+  list_word = Cdr(lst_adr);
 
-  for (;;)
+  if (list_word == NIL_WORD)
     {
-      alias = (AliasInf *) Pl_HTBL_Next(&scan);
-      if (alias == NULL || alias->stm == stm)
-	break;
+      if (alt == NULL)
+	Delete_Last_Choice_Point();
     }
-
-
-  if (alias)			/* non deterministic case */
+  else if (alt == NULL)
+    AB(B, 1) = list_word;
+  else				/* non deterministic case */
     {
-      A(0) = stm;
-      A(1) = alias_word;
-      A(2) = (WamWord) scan.end_t;
-      A(3) = (WamWord) scan.cur_t;
-      A(4) = (WamWord) scan.cur_p;
-      A(5) = (WamWord) alias;
-      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 6);
+      A(0) = arg_word;
+      A(1) = list_word;
+      Pl_Create_Choice_Point(alt, 2);
     }
 
-  Pl_Get_Atom((int) save_alias->atom, alias_word);
-  return TRUE;
+  return Pl_Unify(word, arg_word);
 }
 
 
@@ -1016,49 +1039,9 @@ Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word)
 Bool
 Pl_Current_Alias_Alt_0(void)
 {
-  int stm;
-  WamWord alias_word;
-  HashScan scan;
-  AliasInf *alias;
-  AliasInf *save_alias;
-
-
   Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 0);
 
-  stm = (int) AB(B, 0);
-  alias_word = AB(B, 1);
-  scan.end_t = (HashNode *) AB(B, 2);
-  scan.cur_t = (HashNode *) AB(B, 3);
-  scan.cur_p = (HashNode)   AB(B, 4);
-  alias      = (AliasInf *) AB(B, 5);
-
-
-  save_alias = alias;
-
-  for (;;)
-    {
-      alias = (AliasInf *) Pl_HTBL_Next(&scan);
-      if (alias == NULL || alias->stm == stm)
-	break;
-    }
-
-
-  if (alias)			/* non deterministic case */
-    {
-#if 0 /* the following data is unchanged */
-      AB(B, 0) = stm;
-      AB(B, 1) = alias_word;
-      AB(B, 2) = (WamWord) scan.end_t;
-#endif
-      AB(B, 3) = (WamWord) scan.cur_t;
-      AB(B, 4) = (WamWord) scan.cur_p;
-      AB(B, 5) = (WamWord) alias;
-    }
-  else
-    Delete_Last_Choice_Point();
-
-  Pl_Get_Atom((int) save_alias->atom, alias_word);
-  return TRUE;
+  return Next_In_List(AB(B, 0), AB(B, 1), NULL);
 }
 
 
@@ -1072,24 +1055,25 @@ Bool
 Pl_Current_Mirror_2(WamWord stm_word, WamWord m_stm_word)
 {
   int stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
-  StmInf *pstm = pl_stm_tbl[stm];
-  StmLst *m = pstm->mirror;
+  WamWord list_word = NIL_WORD;
+  WamWord *adr = &list_word;
+  StmLst *m;
 
 				/* From here, the code also works with     */
 				/* m = m_pstm->mirror_of. Could be used    */
 				/* if m_stm_word is given and not stm_word */
-  if (m == NULL)
-    return FALSE;
 
-  if (m->next != NULL) /* non deterministic case */
+		/* collect now since the list can be modified before backtracking */
+  for (m = pl_stm_tbl[stm]->mirror; m; m = m->next)
     {
-      A(0) = stm;		/* useless in fact */
-      A(1) = m_stm_word;
-      A(2) = (WamWord) m->next;
-      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0), 3);
+      *adr = Tag_LST(H);
+      H[0] = Tag_INT(m->stm);
+      H[1] = NIL_WORD;
+      adr = H + 1;
+      H += 2;
     }
 
-  return Pl_Get_Integer(m->stm, m_stm_word);
+  return Next_In_List(m_stm_word, list_word, (CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0));
 }
 
 
@@ -1102,28 +1086,9 @@ Pl_Current_Mirror_2(WamWord stm_word, WamWord m_stm_word)
 Bool
 Pl_Current_Mirror_Alt_0(void)
 {
-  /*  int stm; */
-  WamWord m_stm_word;
-  StmLst *m;
-
   Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0), 0);
 
-  /*  stm = AB(B, 0); */
-  m_stm_word = AB(B, 1);
-  m = (StmLst *) AB(B, 2);
-
-  if (m->next)			/* non deterministic case */
-    {
-#if 0				/* the following data is unchanged */
-      AB(B, 0) = stm;
-      AB(B, 1) = m_stm_word;
-#endif
-      AB(B, 2) = (WamWord) m->next;
-    }
-  else
-    Delete_Last_Choice_Point();
-
-  return Pl_Get_Integer(m->stm, m_stm_word);
+  return Next_In_List(AB(B, 0), AB(B, 1), NULL);
 }
 
 
-- 
2.43.0


From 4b1ea5bc8c49e9f25487993566dcdea84730a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 59/93] fix: op/3 on a list that does not end with [] gave its
 tail as the culprit

---
 src/BipsPl/utils.pl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BipsPl/utils.pl b/src/BipsPl/utils.pl
index 2c9f213..ec08a41 100644
--- a/src/BipsPl/utils.pl
+++ b/src/BipsPl/utils.pl
@@ -116,21 +116,21 @@
 	atom(List), !.
 
 '$check_atom_or_atom_list'(List) :-
-	'$check_atom_or_atom_list1'(List), !.
+	'$check_atom_or_atom_list1'(List, List), !.
 
 
-'$check_atom_or_atom_list1'(List) :-
+'$check_atom_or_atom_list1'(List, _) :-
 	var(List),
 	'$pl_err_instantiation'.
 
-'$check_atom_or_atom_list1'([]).
+'$check_atom_or_atom_list1'([], _).
 
-'$check_atom_or_atom_list1'([X|List]) :-
+'$check_atom_or_atom_list1'([X|List], List0) :-
 	'$check_atom_or_atom_list2'(X),
-	'$check_atom_or_atom_list1'(List).
+	'$check_atom_or_atom_list1'(List, List0).
 
-'$check_atom_or_atom_list1'(List) :-
-	'$pl_err_type'(list, List).
+'$check_atom_or_atom_list1'(_, List0) :-
+	'$pl_err_type'(list, List0).
 
 
 '$check_atom_or_atom_list2'(X) :-
-- 
2.43.0


From 9682cb9433d7e8567384e1cfbb304fc9a9d59ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 60/93] fix: new_atom with a prefix of more than about 1000
 characters overflowed a static buffer

---
 src/EnginePl/atom.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/EnginePl/atom.c b/src/EnginePl/atom.c
index 0808420..21f87c1 100644
--- a/src/EnginePl/atom.c
+++ b/src/EnginePl/atom.c
@@ -469,7 +469,8 @@ Pl_Gen_New_Atom(char *prefix)
 #define GEN_SYM_CHARS "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
 
   static char gen_sym_chars[] = GEN_SYM_CHARS;
-  static char gen_sym_buff[1024];
+  static char *gen_sym_buff = NULL;
+  static int gen_sym_size = 0;
 
 #define Gen_Sym_Rand()  (gen_sym_rand_next = gen_sym_rand_next * 1103515245 + 12345, (gen_sym_rand_next / 65536 % 32768))
 
@@ -505,11 +506,25 @@ Pl_Gen_New_Atom(char *prefix)
   /* printf("GEN_SYM PREFIX : %s\n", prefix); */
 #endif
 
+  len = (int) strlen(prefix);
+  if (len + 32 > gen_sym_size)	/* room for the prefix, some characters and '\0' */
+    {
+      gen_sym_size = len + 256;
+      gen_sym_buff = (gen_sym_buff == NULL) ? Malloc(gen_sym_size) : Realloc(gen_sym_buff, gen_sym_size);
+    }
   strcpy(gen_sym_buff, prefix);
-  str = gen_sym_buff + strlen(prefix);
+  str = gen_sym_buff + len;
 
   for(;;)
     {
+      len = (int) (str - gen_sym_buff);
+      if (len + 2 > gen_sym_size)
+	{
+	  gen_sym_size += 256;
+	  gen_sym_buff = Realloc(gen_sym_buff, gen_sym_size);
+	  str = gen_sym_buff + len;
+	}
+
       c = Gen_Sym_Rand() % (sizeof(gen_sym_chars) - 1); /* NB: -1 for '\0' */
       *str = gen_sym_chars[c];
       str[1] = '\0';
-- 
2.43.0


From 0cb0bd2e3c64546897f37ca1befef8435d0ed76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 61/93] fix: portray_clause and listing printed some clauses as
 text for another one ((a,b),c / a-->true / redefined operators)

---
 src/BipsPl/pretty_c.c | 67 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/BipsPl/pretty_c.c b/src/BipsPl/pretty_c.c
index 02e4d93..402aa58 100644
--- a/src/BipsPl/pretty_c.c
+++ b/src/BipsPl/pretty_c.c
@@ -104,6 +104,8 @@ static void Portray_Clause(StmInf *pstm, WamWord term_word);
 
 static Bool Check_Structure(WamWord term_word, int func, int arity, WamWord arg_word[]);
 
+static Bool Is_Oper(int atom, int type, int prec, int left, int right);
+
 static Bool Is_Cut(WamWord body_word);
 
 static void Show_Body(StmInf *pstm, int level, int context, WamWord body_word);
@@ -198,17 +200,22 @@ static void
 Portray_Clause(StmInf *pstm, WamWord term_word)
 {
   WamWord word, tag_mask;
-  WamWord arg_word[2];
+  WamWord arg_word[2], head_word[2];
   int atom;
 
   bol_indent = "\t";
   
-  if (Check_Structure(term_word, atom_clause, 2, arg_word))
+  if (Is_Oper(atom_clause, INFIX, 1200, 1199, 1199) &&
+      Check_Structure(term_word, atom_clause, 2, arg_word))
     {
       Pl_Write_Term(pstm, 0, 1200 - 1, WRITE_MASK, above_H, arg_word[0]);
       DEREF(arg_word[1], word, tag_mask);
       atom = UnTag_ATM(word);
-      if (tag_mask != TAG_ATM_MASK || atom != pl_atom_true)
+      if (tag_mask != TAG_ATM_MASK || atom != pl_atom_true ||
+				/* alone these heads are not facts */
+	  Check_Structure(arg_word[0], atom_clause, 2, head_word) ||
+	  Check_Structure(arg_word[0], atom_clause, 1, head_word) ||
+	  Check_Structure(arg_word[0], atom_dcg, 2, head_word))
 	{
 	  Pl_Stream_Puts(" :-", pstm);
 	  Start_Line(pstm, 0, ' ');
@@ -218,22 +225,19 @@ Portray_Clause(StmInf *pstm, WamWord term_word)
       return;
     }
 
-  if (Check_Structure(term_word, atom_dcg, 2, arg_word))
+  if (Is_Oper(atom_dcg, INFIX, 1200, 1199, 1199) &&
+      Check_Structure(term_word, atom_dcg, 2, arg_word))
     {
       Pl_Write_Term(pstm, 0, 1200 - 1, WRITE_MASK, above_H, arg_word[0]);
-      DEREF(arg_word[1], word, tag_mask);
-      atom = UnTag_ATM(word);
-      if (tag_mask != TAG_ATM_MASK || atom != pl_atom_true)
-	{
-	  Pl_Stream_Puts(" -->", pstm);
-	  Start_Line(pstm, 0, ' ');
-	  Show_Body(pstm, 0, GENERAL_BODY, arg_word[1]);
-	}
+      Pl_Stream_Puts(" -->", pstm);
+      Start_Line(pstm, 0, ' ');
+      Show_Body(pstm, 0, GENERAL_BODY, arg_word[1]);
       Pl_Write_A_Full_Stop(pstm);
       return;
     }
 
-  if (Check_Structure(term_word, atom_clause, 1, arg_word))
+  if (Is_Oper(atom_clause, PREFIX, 1200, 1199, 1199) &&
+      Check_Structure(term_word, atom_clause, 1, arg_word))
     {
       bol_indent = "   ";
       Pl_Stream_Puts(":- ", pstm);
@@ -279,6 +283,22 @@ Check_Structure(WamWord term_word, int func, int arity, WamWord arg_word[])
 
 
 
+/*-------------------------------------------------------------------------*
+ * IS_OPER                                                                 *
+ *                                                                         *
+ * is it (still) this operator ? (else the layout below cannot be read)    *
+ *-------------------------------------------------------------------------*/
+static Bool
+Is_Oper(int atom, int type, int prec, int left, int right)
+{
+  OperInf *oper = Pl_Lookup_Oper(atom, type);
+
+  return oper != NULL && oper->prec == prec && oper->left == left && oper->right == right;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * IS_CUT                                                                  *
  *                                                                         *
@@ -313,6 +333,12 @@ Show_Body(StmInf *pstm, int level, int context, WamWord body_word)
 
   if (Check_Structure(body_word, ATOM_CHAR(','), 2, arg_word))
     {
+      if (context == LEFT_AND)	/* (a,b),c is not a,(b,c) */
+	{
+	  Pl_Stream_Puts("(   ", pstm);
+	  level++;
+	}
+
       Show_Body(pstm, level, LEFT_AND, arg_word[0]);
       Pl_Stream_Putc(',', pstm);
       if (Is_Cut(arg_word[1]))
@@ -320,11 +346,18 @@ Show_Body(StmInf *pstm, int level, int context, WamWord body_word)
       else
 	Start_Line(pstm, level, ' ');
       Show_Body(pstm, level, RIGHT_AND, arg_word[1]);
+
+      if (context == LEFT_AND)
+	{
+	  Start_Line(pstm, level - 1, ' ');
+	  Pl_Stream_Putc(')', pstm);
+	}
       return;
     }
 
 
-  if (Check_Structure(body_word, ATOM_CHAR(';'), 2, arg_word))
+  if (Is_Oper(ATOM_CHAR(';'), INFIX, 1100, 1099, 1100) &&
+      Check_Structure(body_word, ATOM_CHAR(';'), 2, arg_word))
     {
       if (context != RIGHT_OR)
 	{
@@ -346,8 +379,10 @@ Show_Body(StmInf *pstm, int level, int context, WamWord body_word)
 
 
   soft_cut = 0;
-  if (Check_Structure(body_word, atom_if, 2, arg_word) ||
-      (soft_cut = 1, Check_Structure(body_word, atom_soft_if, 2, arg_word)))
+  if ((Is_Oper(atom_if, INFIX, 1050, 1049, 1050) &&
+       Check_Structure(body_word, atom_if, 2, arg_word)) ||
+      (soft_cut = 1, Is_Oper(atom_soft_if, INFIX, 1050, 1049, 1050) &&
+       Check_Structure(body_word, atom_soft_if, 2, arg_word)))
     {
       if (context != LEFT_OR && context != RIGHT_OR)
 	{
-- 
2.43.0


From 892fbcda79500d93881f09281b5996f482a76033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 62/93] fix: a hash table created or resized with a size below
 1 had no cell

---
 src/EnginePl/hash_tbl.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/EnginePl/hash_tbl.c b/src/EnginePl/hash_tbl.c
index c91f637..f3b4d99 100644
--- a/src/EnginePl/hash_tbl.c
+++ b/src/EnginePl/hash_tbl.c
@@ -120,15 +120,15 @@ Pl_HTBL_Alloc_Table(int tbl_size, int elem_size)
 {
   void *htbl;
 
+  if (tbl_size < 1)
+    tbl_size = 1;		/* at least one cell in a table */
+
   htbl = Calloc(HASH_STATIC_SIZE + tbl_size, sizeof(HashNode));
 #ifdef USE_ALONE
   if (htbl == NULL)
     return NULL;
 #endif
 
-  if (tbl_size < 1)
-    tbl_size = 1;		/* at least one cell in a table */
-
   Tbl_Size(htbl) = tbl_size;
   Elem_Size(htbl) = elem_size;
   Nb_Elem(htbl) = 0;
@@ -159,6 +159,7 @@ Pl_HTBL_Realloc_Table(void *htbl, int new_tbl_size)
   if ((new_htbl = Pl_HTBL_Alloc_Table(new_tbl_size, elem_size)) == NULL)
     return NULL;
 
+  new_tbl_size = Tbl_Size(new_htbl);
   Nb_Elem(new_htbl) = Nb_Elem(htbl);
 
   new_t = The_Array(new_htbl);
-- 
2.43.0


From 63803f37e027ea4039084dcb2f2250bc3a2ca3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 63/93] fix: names with escapes, empty or long were given
 symbols which did not decode to them (or crashed wam2ma, ma2asm and hexgplc)

---
 src/Ma2Asm/ma_parser.c      |   4 +-
 src/TopComp/mangle_filter.c |  13 ++--
 src/TopComp/mangling.c      | 122 +++++++++++++++++++++++++++++++-----
 src/TopComp/mangling.h      |   2 +
 src/TopComp/top_comp.c      |  11 +---
 src/Wam2Ma/wam2ma.c         |  81 +++++++++++++++++++++---
 src/Wam2Ma/wam_parser.c     |   4 +-
 7 files changed, 191 insertions(+), 46 deletions(-)

diff --git a/src/Ma2Asm/ma_parser.c b/src/Ma2Asm/ma_parser.c
index 00d4e0e..9bad235 100644
--- a/src/Ma2Asm/ma_parser.c
+++ b/src/Ma2Asm/ma_parser.c
@@ -59,8 +59,8 @@
  * Constants                       *
  *---------------------------------*/
 
-#define MAX_LINE_LEN               65536
-#define MAX_STR_LEN                32768
+#define MAX_LINE_LEN               1048576 /* an atom can need 5 x 65535 characters */
+#define MAX_STR_LEN                524288
 #define MAX_ARGS                   128
 #define MAX_SWITCH_CASES           1000000
 
diff --git a/src/TopComp/mangle_filter.c b/src/TopComp/mangle_filter.c
index e3d2498..36cc97e 100644
--- a/src/TopComp/mangle_filter.c
+++ b/src/TopComp/mangle_filter.c
@@ -152,15 +152,10 @@ main(int argc, char *argv[])
 void
 One_File(FILE *f)
 {
-  static char buff[4096];
+  char *line;
 
-  for (;;)
-    {
-      if (fgets(buff, sizeof(buff), f) == NULL)
-	break;
-
-      One_Line(buff);
-    }
+  while ((line = Read_Whole_Line(f)) != NULL)
+    One_Line(line);
 }
 
 
@@ -343,7 +338,7 @@ Display_Help(void)
   L("  --aux-father                decode auxiliary predicate as its father");
   L("  --aux-father2               decode auxiliary predicate as its father + auxiliary number");
   L("  --cmd-line                  command-line mode: encode/decode each argument of the command-line");
-  L("  -M or -H                    shortcut for --cmd-line --encode --relax");
+  L("  -M or -E                    shortcut for --cmd-line --encode --relax");
   L("  -D or -P                    shortcut for --cmd-line --decode --relax --quote");
   L("  -h, --help                  print this help and exit");
   L("  --version                   print version number and exit");
diff --git a/src/TopComp/mangling.c b/src/TopComp/mangling.c
index 5d440be..a966844 100644
--- a/src/TopComp/mangling.c
+++ b/src/TopComp/mangling.c
@@ -120,6 +120,8 @@ static char *Decode_String(char *str, char *buff);
 static void Quote_If_Needed(char *str);
 static char *Parse_Atom(char *src, char *dst);
 
+static char *Line_Buffer(char *buff, int *size, int len);
+
 
 /*-------------------------------------------------------------------------*
  * MANGLE                                                                  *
@@ -175,16 +177,24 @@ Mangle(char *module, char *pred, int arity, char *str)
 char *
 Mangle_Line(char *str, char *format, Bool strict)
 {
-  static char result[4096];
-  static char buff[4096];
+  static char *result = NULL;
+  static int result_size = 0;
+  static char *buff = NULL;
+  static int buff_size = 0;
   char *module, *pred;
   char *src, *dst;
   char *p, *q, *free_in_buff;
   int arity;
+  int len = (int) strlen(str);
+  int n;
 
   if (format == NULL)
     format = "%s";
 
+  /* names + their encoding (each character can be encoded on 2 characters) */
+  buff = Line_Buffer(buff, &buff_size, 3 * len + 64);
+  result = Line_Buffer(result, &result_size, len + 1);
+
   src = str;
   dst = result;
   for(;;)
@@ -222,10 +232,16 @@ Mangle_Line(char *str, char *format, Bool strict)
 	  pred = buff;
 	}
 
-      arity = strtol(p + 1, &q, 10); /* we suppose *p = '/' */
+      if (*p == '/')
+	arity = strtol(p + 1, &q, 10);
+      else
+	{
+	  arity = -1;
+	  q = p;
+	}
 
-      if (*pred == '\0' || (*p != '/' && strict) ||
-	  (*p == '/' && (arity < 0 || arity > 1024 || isalnum(*q) || *q == '_')))
+      if ((*pred == '\0' && *p != '/') || (*p != '/' && strict) ||
+	  (*p == '/' && (!isdigit(p[1]) || arity > 1024 || isalnum(*q) || *q == '_')))
 	{
 	  while(src < q)
 	    *dst++ = *src++;
@@ -233,10 +249,7 @@ Mangle_Line(char *str, char *format, Bool strict)
 	}
 
       if (*p != '/')
-	{
-	  arity = -1;
-	  src = p;
-	}
+	src = p;
       else
 	src = q;
 
@@ -244,6 +257,9 @@ Mangle_Line(char *str, char *format, Bool strict)
 
       Mangle(module, pred, arity, free_in_buff);
 
+      n = (int) (dst - result);
+      result = Line_Buffer(result, &result_size, n + snprintf(NULL, 0, format, free_in_buff) + len + 1);
+      dst = result + n;
       dst += sprintf(dst, format, free_in_buff);
     }
 
@@ -332,7 +348,7 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
   char *p = NULL;		/* init for the compiler */
   char *q;
 
-  if (*str++ != 'X' || *str < '0' || *str >= '5')
+  if (*str++ != 'X' || *str < '0' || *str > '5')
     return NULL;
 
   n = *str++ - '0';
@@ -361,7 +377,7 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
     Copy_Not_Encoded_String(str, pred) :
     Decode_String(str, pred);
 
-  if (str == NULL || *pred == '\0')
+  if (str == NULL)
     return NULL;
 
   *arity = -1;
@@ -370,16 +386,17 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
       *arity = strtoul(str + 3, &p, 10); /* +3 to skip '__a' */
       if (p == str + 3)
 	*arity = -1;
-      str = p;
     }
 
   if (*arity < 0 || *arity > 1024 || isalnum(*p) || *p == '_') /* no valid arity found */
     {
-      if (strict)
+      if (strict || *pred == '\0')
 	return NULL;
 
       *arity = -1;
     }
+  else
+    str = p;
 
   *aux_no = -1;
   if (decode_aux && *pred == '$' && (p = strstr(pred, AUX_STR)) != NULL)
@@ -427,17 +444,26 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
 char *
 Demangle_Line(char *str, char *format, Bool strict, Bool quote, int decode_aux)
 {
-  static char result[4096];
-  static char module[2048];
-  static char pred[1024];
+  static char *result = NULL;
+  static int result_size = 0;
+  static char *module = NULL;
+  static int module_size = 0;
+  static char *pred = NULL;
+  static int pred_size = 0;
   int arity;
   int aux_no;
   char *src, *dst, *p;
+  int len = (int) strlen(str);
   int n;
 
   if (format == NULL)
     format = "%s";
 
+  /* a quoted character can be 5 characters long (encoded on 2 characters), module also receives : pred/arity(aux no) */
+  result = Line_Buffer(result, &result_size, len + 1);
+  module = Line_Buffer(module, &module_size, 6 * len + 64);
+  pred = Line_Buffer(pred, &pred_size, 3 * len + 64);
+
   src = str;
   dst = result;
   while(*src)
@@ -461,6 +487,9 @@ Demangle_Line(char *str, char *format, Bool strict, Bool quote, int decode_aux)
 	  if (decode_aux == 2 && aux_no >= 0)
 	    n += sprintf(module + n, "(aux %d)", aux_no);
 
+	  n = (int) (dst - result);
+	  result = Line_Buffer(result, &result_size, n + snprintf(NULL, 0, format, module) + len + 1);
+	  dst = result + n;
 	  dst += sprintf(dst, format, module);
 	}
       else
@@ -473,6 +502,34 @@ Demangle_Line(char *str, char *format, Bool strict, Bool quote, int decode_aux)
 
 
 
+/*-------------------------------------------------------------------------*
+ * READ_WHOLE_LINE                                                         *
+ *                                                                         *
+ * Returns the next line, however long it is (static buffer) or NULL at EOF*
+ *-------------------------------------------------------------------------*/
+char *
+Read_Whole_Line(FILE *f)
+{
+  static char *buff = NULL;
+  static int size = 0;
+  int len = 0;
+
+  do
+    {
+      buff = Line_Buffer(buff, &size, len + 4096);
+      if (fgets(buff + len, size - len, f) == NULL)
+	break;
+
+      len += (int) strlen(buff + len);
+    }
+  while (len == 0 || buff[len - 1] != '\n');
+
+  return len == 0 ? NULL : buff;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * COPY_NOT_ENCODED_STRING                                                 *
  *                                                                         *
@@ -539,7 +596,8 @@ Decode_String(char *str, char *buff)
 static void
 Quote_If_Needed(char *str)
 {
-  static char buff[2048];
+  static char *buff = NULL;
+  static int buff_size = 0;
   char *p;
   char *q, *r;
 
@@ -554,6 +612,8 @@ Quote_If_Needed(char *str)
     }
 
 
+  buff = Line_Buffer(buff, &buff_size, 5 * (int) strlen(str) + 3);
+
   p = str;
   q = buff;
 
@@ -585,6 +645,30 @@ Quote_If_Needed(char *str)
 
 
 
+/*-------------------------------------------------------------------------*
+ * LINE_BUFFER                                                             *
+ *                                                                         *
+ * Returns buff (extended if needed) with a size of at least len           *
+ *-------------------------------------------------------------------------*/
+static char *
+Line_Buffer(char *buff, int *size, int len)
+{
+  if (len > *size)
+    {
+      *size = 2 * len;
+      if ((buff = (char *) realloc(buff, *size)) == NULL)
+	{
+	  fprintf(stderr, "mangling: memory allocation fault\n");
+	  exit(1);
+	}
+    }
+
+  return buff;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PARSE_ATOM                                                              *
  *                                                                         *
@@ -611,6 +695,9 @@ Parse_Atom(char *src, char *dst)
           if (*src == '\\')
             {
 	      src++;
+	      if (*src == '\0')
+		return NULL;
+
 	      if (strchr("\\'\"`", *src))      /* \\ or \' or \" or \` */
 		{
 		  *dst++ = *src++;
@@ -620,6 +707,7 @@ Parse_Atom(char *src, char *dst)
 	      if ((p = (char *) strchr(pl_escape_symbol, *src)))    /* \a \b \f \n \r \t \v */
 		{
 		  *dst++ = pl_escape_char[p - pl_escape_symbol];
+		  src++;
 		  continue;
 		}
 
diff --git a/src/TopComp/mangling.h b/src/TopComp/mangling.h
index a4dcd80..166599f 100644
--- a/src/TopComp/mangling.h
+++ b/src/TopComp/mangling.h
@@ -64,3 +64,5 @@ char *Demangle(char *str, Bool strict, Bool quote, int decode_aux,
 char *Demangle_Line(char *str, char *format, Bool strict, Bool quote,
 		    int decode_aux);
 
+char *Read_Whole_Line(FILE *f);
+
diff --git a/src/TopComp/top_comp.c b/src/TopComp/top_comp.c
index d03a2de..8c2a36d 100644
--- a/src/TopComp/top_comp.c
+++ b/src/TopComp/top_comp.c
@@ -921,7 +921,7 @@ Spawn_And_Filter(char *arg[], char *cmd_filter)
   FILE *f_out = M_SPAWN_REDIRECT_CREATE;
   FILE **pf_err = &f_out;	/* merge out and err for demangle */
   FILE *f_res = NULL;
-  static char buff[CMD_LINE_LENGTH];
+  char *buff;
 
   f_out = M_SPAWN_REDIRECT_CREATE;
 
@@ -940,15 +940,8 @@ Spawn_And_Filter(char *arg[], char *cmd_filter)
   if (pid == -1 || pid == -2)
     return pid;
 
-  for (;;)
+  while ((buff = Read_Whole_Line(f_out)) != NULL)
     {
-      if (fgets(buff, sizeof(buff), f_out)) /* to avoid gcc warning warn_unused_result */
-	{
-	}
-
-      if (feof(f_out))
-	break;
-
       if (cmd_filter == CMD_FILTER_DEMANGLE)
 	{
 #ifndef DEBUG
diff --git a/src/Wam2Ma/wam2ma.c b/src/Wam2Ma/wam2ma.c
index 1e6a8c3..a80c421 100644
--- a/src/Wam2Ma/wam2ma.c
+++ b/src/Wam2Ma/wam2ma.c
@@ -88,8 +88,8 @@
 
 #define DEFAULT_OUTPUT_SUFFIX      ".ma"
 
-#define MAX_PRED_NAME_LENGTH       2048
-#define MAX_MANGLE_LENGTH          MAX_PRED_NAME_LENGTH * 2 + 2 + 16
+#define MAX_PRED_NAME_LENGTH       65536
+#define MAX_MANGLE_LENGTH          (2 * MAX_PRED_NAME_LENGTH * 2 + 32) /* module + pred */
 #define MAX_LABEL_LENGTH           32
 
 
@@ -249,6 +249,10 @@ int Add_F_N_Tagged(char *atom, int n);
 
 void Emit_One_F_N_Tagged(struct map_entry *entry);
 
+static char *Unescape(char *str, char *buff);
+
+static void Mangle_Pred(char *module, char *pred, int arity, char *str);
+
 void Label_Printf(char *label, ...) ATTR_PRINTF(1);
 
 void Inst_Printf(char *op, char *operands, ...) ATTR_PRINTF(2);
@@ -594,7 +598,7 @@ F_predicate(ArgVal arg[])
    *    - it belongs to module 'user' or 'system'
    */
 
-  Mangle((local_symbol || module_user_system) ? NULL : module, functor, (int) arity, buff_mangle + 1);
+  Mangle_Pred((local_symbol || module_user_system) ? NULL : module, functor, (int) arity, buff_mangle + 1);
   *buff_mangle = '&';
   cur_pred->mangle = strdup(buff_mangle);
 
@@ -652,6 +656,69 @@ F_directive(ArgVal arg[])
 
 
 
+/*-------------------------------------------------------------------------*
+ * UNESCAPE                                                                *
+ *                                                                         *
+ * The parser gives an atom as the text of a C string (see Lexer):         *
+ * store in buff the characters it denotes.                                *
+ *-------------------------------------------------------------------------*/
+static char *
+Unescape(char *str, char *buff)
+{
+  static char symbol[] = "abfnrtv";
+  static char value[] = "\a\b\f\n\r\t\v";
+  char *q = buff;
+  char *r;
+
+  while (*str)
+    {
+      if (*str != '\\')
+	{
+	  *q++ = *str++;
+	  continue;
+	}
+
+      str++;
+      if (*str >= '0' && *str <= '7') /* always 3 octal digits */
+	{
+	  *q++ = (char) (((str[0] - '0') << 6) | ((str[1] - '0') << 3) | (str[2] - '0'));
+	  str += 3;
+	  continue;
+	}
+
+      if ((r = strchr(symbol, *str)) != NULL)
+	*q++ = value[r - symbol];
+      else
+	*q++ = *str;
+      str++;
+    }
+
+  *q = '\0';
+  return buff;
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * MANGLE_PRED                                                             *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+Mangle_Pred(char *module, char *pred, int arity, char *str)
+{
+  static char buff_module[MAX_PRED_NAME_LENGTH];
+  static char buff_pred[MAX_PRED_NAME_LENGTH];
+
+  if (module != NULL)
+    module = Unescape(module, buff_module);
+
+  Mangle(module, Unescape(pred, buff_pred), arity, str);
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * F_ENSURE_LINKED                                                         *
  *                                                                         *
@@ -666,7 +733,7 @@ F_ensure_linked(ArgVal arg[])
   while (nb_elem--)
     {
       LOAD_MP_N(m, p, n);
-      Mangle(m, p, (int) n, buff_mangle);
+      Mangle_Pred(m, p, (int) n, buff_mangle);
       Inst_Printf("pl_jump", "%s", buff_mangle);
     }
 }
@@ -1202,7 +1269,7 @@ F_call(ArgVal arg[])
 {
   Args1(MP_N(m, p, n));
 
-  Mangle(m, p, (int) n, buff_mangle);
+  Mangle_Pred(m, p, (int) n, buff_mangle);
 
   Inst_Printf("pl_call", "%s", buff_mangle);
 }
@@ -1219,7 +1286,7 @@ F_execute(ArgVal arg[])
 {
   Args1(MP_N(m, p, n));
 
-  Mangle(m, p, (int) n, buff_mangle);
+  Mangle_Pred(m, p, (int) n, buff_mangle);
 
   Inst_Printf("pl_jump", "%s", buff_mangle);
 }
@@ -1777,7 +1844,7 @@ F_call_c(ArgVal arg[])
 	  LOAD_STR(module);
 	  LOAD_STR(functor);
 	  LOAD_C_INT(arity);
-	  Mangle(module, functor, arity, buff_mangle);
+	  Mangle_Pred(module, functor, arity, buff_mangle);
 	  fprintf(file_out, "&%s", buff_mangle);
 	  break;
 	}
diff --git a/src/Wam2Ma/wam_parser.c b/src/Wam2Ma/wam_parser.c
index 0b74ba5..950335e 100644
--- a/src/Wam2Ma/wam_parser.c
+++ b/src/Wam2Ma/wam_parser.c
@@ -56,8 +56,8 @@
  *---------------------------------*/
 
 #define MAX_FCT_ARITY              10
-#define MAX_LINE_LEN               65536
-#define MAX_STR_LEN                32768
+#define MAX_LINE_LEN               1048576 /* an atom can need 5 x 65535 characters */
+#define MAX_STR_LEN                524288
 #define MAX_ARGS                   1000000 /* for big swith_on_... */
 
 
-- 
2.43.0


From 6fb7d82e7aa618bf9325753dd5e37ba42dd49fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 64/93] fix: file names longer than the system limit overflowed
 static buffers (crash)

---
 src/EnginePl/os_path.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/EnginePl/os_path.c b/src/EnginePl/os_path.c
index a927eb6..cb0e2ac 100644
--- a/src/EnginePl/os_path.c
+++ b/src/EnginePl/os_path.c
@@ -487,6 +487,9 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 #define SWAP_SRC_DST { char *tmp = src; src = dst; dst = tmp; }
 
   /* --- Expand $VARNAME (and %VARNAME% under Windows) --- */
+  if (strlen(path) >= MAXPATHLEN)
+    return NULL;
+
   dst = buff1;
   while ((*dst++ = *src))
     {
@@ -509,6 +512,8 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
           if (q)
             {
               p--;
+	      if (p + strlen(q) + strlen(src) >= buff1 + MAXPATHLEN)
+		return NULL;
               strcpy(p, q);
               dst = p + strlen(p);
 #if defined(_WIN32) || defined(__CYGWIN__)
@@ -546,6 +551,8 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 	      return NULL;
 #endif
 	    }
+	  if (strlen(q) + strlen(p) + strlen(src) + 1 >= MAXPATHLEN)
+	    return NULL;
           sprintf(dst, "%s%s/%s", q, p, src + 1);
 	  SWAP_SRC_DST;
         }
@@ -565,6 +572,8 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 
           *p = src[0];
 
+	  if (strlen(pw->pw_dir) + strlen(p) + 2 >= MAXPATHLEN)
+	    return NULL;
           sprintf(dst, "%s/%s", pw->pw_dir, p);
 	  SWAP_SRC_DST;
         }
@@ -610,6 +619,8 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 
   if (src[0] != '/')      /* add current directory */
     {
+      if (strlen(Pl_Get_Working_Dir()) + strlen(src) + 3 >= MAXPATHLEN)
+	return NULL;
       sprintf(dst, "%s/%.*s", Pl_Get_Working_Dir(),
 	      MAXPATHLEN, src); /* MAXPATHLEN is to avoid gcc warning */
       SWAP_SRC_DST;
@@ -834,10 +845,24 @@ Pl_Is_Absolute_File_Name(char *path)
 char *
 Pl_Decompose_File_Name(char *path, Bool del_trail_slashes, char **base, char **suffix)
 {
-  static char buff_dir[MAXPATHLEN];
-  static char buff_base[MAXPATHLEN];
+  static char *buff_dir = NULL;
+  static char *buff_base = NULL;
+  static size_t buff_size = 0;
+  size_t size = strlen(path) + MAXPATHLEN; /* the caller can add a suffix */
   size_t dir_start_pos = 0;	/* on _WIN32 maybe there is a drive specif */
 
+  if (size > buff_size)
+    {
+      buff_size = 2 * size;
+      buff_dir = (char *) realloc(buff_dir, buff_size);
+      buff_base = (char *) realloc(buff_base, buff_size);
+      if (buff_dir == NULL || buff_base == NULL)
+	{
+	  fprintf(stderr, "Pl_Decompose_File_Name: memory allocation fault\n");
+	  exit(1);
+	}
+    }
+
 #if 0 && defined(_WIN32)	/* uncomment to explicitely use _splitpath() on Windows */
 
   char direct[_MAX_DIR];
-- 
2.43.0


From 9412f5e8f3c776a1ae9240f7fdeed6ddc322a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 65/93] fix: copy_file onto the same file emptied it and read
 errors were ignored; file sizes above 2GB were wrong; file_permission(F,[])
 failed

---
 src/BipsPl/os_interf_c.c | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 431b671..701da66 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -396,6 +396,10 @@ Pl_Copy_File_2(WamWord path_name1_word, WamWord path_name2_word)
   char path_name1[MAXPATHLEN];
   char *path_name2;
   FILE *f_in = NULL, *f_out = NULL;
+  struct stat info1;
+#if defined(__unix__) || defined(__CYGWIN__)
+  struct stat info2;
+#endif
   int is_dir;
   char *base, *suffix;
   long size_rd;			/* not size_t to test < 0 on error */
@@ -417,15 +421,37 @@ Pl_Copy_File_2(WamWord path_name1_word, WamWord path_name2_word)
       Os_Test_Error(-1);
     }
 
+  if (fstat(fileno(f_in), &info1) < 0)
+    goto error;
+  if (S_ISDIR(info1.st_mode))	/* can be opened under Unix but not read */
+    {
+      errno = EISDIR;
+      goto error;
+    }
+
   is_dir = Pl_Is_Dir_Name(path_name2, FALSE);
   if (is_dir < 0)
     goto error;
   if (is_dir)
     {
       Pl_Decompose_File_Name(path_name1, FALSE, &base, &suffix);
+      if (strlen(path_name2) + strlen(base) + 2 > MAXPATHLEN)
+	{
+	  errno = ENAMETOOLONG;
+	  goto error;
+	}
       sprintf(path_name2 + strlen(path_name2), "/%s", base);
     }
 
+#if defined(__unix__) || defined(__CYGWIN__)
+  /* same file (maybe under another name): opening it for writing would empty it */
+  if (stat(path_name2, &info2) == 0 && info1.st_dev == info2.st_dev && info1.st_ino == info2.st_ino)
+    {
+      fclose(f_in);
+      return TRUE;
+    }
+#endif
+
   if ((f_out = fopen(path_name2, "wb")) == NULL)
     goto error;
 
@@ -452,11 +478,11 @@ Pl_Copy_File_2(WamWord path_name1_word, WamWord path_name2_word)
 	}
     }
 
-  if (size_rd < 0)
+  if (ferror(f_in))
     goto error;
 
   fclose(f_in);
-  fclose(f_out);
+  Os_Test_Error(fclose(f_out));
   
   return TRUE;
 }
@@ -578,7 +604,7 @@ Pl_File_Permission_2(WamWord path_name_word, WamWord perm_list_word)
 	}
     }
 
-  return (res == 0) && perm > 0 && ((mode | perm) == mode);
+  return (res == 0) && perm >= 0 && ((mode | perm) == mode);
 }
 
 
@@ -716,7 +742,7 @@ Pl_File_Prop_Size_2(WamWord size_word, WamWord path_name_word)
 
   Os_Test_Error(stat(path_name, &file_info));
 
-  return Pl_Un_Positive_Check((int) file_info.st_size, size_word);
+  return Pl_Un_Positive_Check((PlLong) file_info.st_size, size_word);
 }
 
 
-- 
2.43.0


From 63759090c6fcf9629075874bc2c6372e41e84338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 66/93] fix: line editor: endless loop (word motion before the
 first word), memory corruption (mark beyond the end, long cut, pasted tabs),
 history overwritten by a failed search

---
 src/Linedit/linedit.c | 82 +++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/src/Linedit/linedit.c b/src/Linedit/linedit.c
index a7d7820..4e84612 100644
--- a/src/Linedit/linedit.c
+++ b/src/Linedit/linedit.c
@@ -145,7 +145,7 @@ static int prompt_length;
 
 static PlLong ctrl_c_ret_val;
 
-static char clipboard[4096] = "";
+static char *clipboard = NULL;
 
 static HistCell hist_tbl[MAX_HISTORY_LINES];
 static int hist_start = 0;
@@ -168,6 +168,8 @@ static int Search_Bracket(char *brackets, char c);
 
 static int Tab_To_Spaces(int p);
 
+static void Set_Clipboard(char *start, char *stop);
+
 
 
 static void History_Add_Line(char *line, int length);
@@ -277,7 +279,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
           goto return_is_read;
         }
       if (c == '\t')            /* '\t' on output would cause trouble */
-        for(n = Tab_To_Spaces((int) (end - str)); n; n--)
+        for(n = Tab_To_Spaces((int) (end - str)); n && end - str < size; n--)
           *end++ = ' ';
       else
         *end++ = c;
@@ -409,11 +411,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
 
         case KEY_CTRL('U'):     /* erase begin of line */
         case KEY_ID2(KEY_MODIF_CTRL, KEY_EXT_HOME):
-          q = clipboard;
-          p = str;
-          while (p < pos)       /* add deleted part to clipboard */
-            *q++ = *p++;
-          *q = '\0';
+          Set_Clipboard(str, pos); /* add deleted part to clipboard */
           n = (int) (pos - str);
           for (p = pos; p < end; p++)
             p[-n] = *p;
@@ -429,18 +427,14 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
 
         case KEY_CTRL('K'):     /* erase end of line */
         case KEY_ID2(KEY_MODIF_CTRL, KEY_EXT_END):
-          q = clipboard;
-          p = pos;
-          while (p < end)       /* add deleted part to clipboard */
-            *q++ = *p++;
-          *q = '\0';
+          Set_Clipboard(pos, end); /* add deleted part to clipboard */
           ERASE(end - pos);
           end = pos;
           continue;
 
 
         case KEY_CTRL('Y'):     /* paste from clipboard */
-          for (p = clipboard; *p; p++)
+          for (p = clipboard; p && *p; p++)
             if (!New_Char(*p, str, size, &pos, &end))
               goto error;
           continue;
@@ -456,6 +450,9 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
           if (mark == NULL)
             goto error;
 
+          if (mark > end)       /* the line is now shorter */
+            mark = end;
+
           if (mark < pos)
             {
               start = mark;
@@ -466,11 +463,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
               start = pos;
               stop = mark;
             }
-          q = clipboard;
-          p = start;
-          while (p < stop)
-            *q++ = *p++;
-          *q = '\0';
+          Set_Clipboard(start, stop);
           if (c == KEY_ESC('W'))
             continue;
 
@@ -493,7 +486,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
           p = (pos == str) ? pos : pos - 1; /* to avoid start of a word */
           p = Skip(p, str, 1, -1);      /* skip separators */
           p = Skip(p, str, 0, -1);      /* skip non separators */
-          p = Skip(p, end, 1, +1);      /* skip separators */
+          p = Skip(p, pos, 1, +1);      /* skip separators */
           BACKD(pos - p);
           pos = p;
           continue;
@@ -553,7 +546,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
             }
           p = (pos == str) ? pos : pos - 1; /* to avoid start of a word */
           p = Skip(p, str, 0, -1);      /* skip non separators */
-          p = Skip(p, end, 1, +1);      /* skip separators */
+          p = Skip(p, pos, 1, +1);      /* skip separators */
 	  n = (int) (pos - p);
 	  w = *pos;			/* prefix from p to pos */
           *pos = '\0';
@@ -649,13 +642,15 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
             goto error;
           *end = '\0';
           History_Update_Line(str, (int) (end - str), h_no);
+          n = h_no;             /* h_no is unchanged if there is no match */
         try_previous:
-          if (h_no == Hist_Start_Entry())
+          if (n == Hist_Start_Entry())
             goto error;
-          Hist_Dec(h_no);
-          if (hist_tbl[h_no].line == NULL ||
-              strncmp(str, hist_tbl[h_no].line, pos - str) != 0)
+          Hist_Dec(n);
+          if (hist_tbl[n].line == NULL ||
+              strncmp(str, hist_tbl[n].line, pos - str) != 0)
             goto try_previous;
+          h_no = n;
         write_hist_match_line:
           p = end;
           end = str + History_Get_Line(str, h_no);
@@ -671,13 +666,15 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
             goto error;
           *end = '\0';
           History_Update_Line(str, (int) (end - str), h_no);
+          n = h_no;
         try_next:
-          if (Hist_Is_Empty() || h_no == Hist_End_Entry())
+          if (n == Hist_End_Entry())
             goto error;
-          Hist_Inc(h_no);
-          if (hist_tbl[h_no].line == NULL ||
-              strncmp(str, hist_tbl[h_no].line, pos - str) != 0)
+          Hist_Inc(n);
+          if (hist_tbl[n].line == NULL ||
+              strncmp(str, hist_tbl[n].line, pos - str) != 0)
             goto try_next;
+          h_no = n;
           goto write_hist_match_line;
 
 
@@ -1036,6 +1033,25 @@ Tab_To_Spaces(int p)
 
 
 
+/*-------------------------------------------------------------------------*
+ * SET_CLIPBOARD                                                           *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+Set_Clipboard(char *start, char *stop)
+{
+  size_t length = stop - start;
+
+  if ((clipboard = (char *) realloc(clipboard, length + 1)) == NULL)
+    exit(1);
+
+  memcpy(clipboard, start, length);
+  clipboard[length] = '\0';
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * HISTORY_ADD_LINE                                                        *
  *                                                                         *
@@ -1051,8 +1067,14 @@ History_Add_Line(char *line, int length)
     return;
 
 #ifdef NO_DUP_IN_HISTORY
-  if (hist_end > 0 && strcmp(line, hist_tbl[hist_end - 1].line) == 0)
-    return;
+  if (!Hist_Is_Empty())
+    {
+      int last = hist_end;
+
+      Hist_Dec(last);
+      if (strcmp(line, hist_tbl[last].line) == 0)
+        return;
+    }
 #endif
 
   History_Update_Line(line, length, hist_end);
-- 
2.43.0


From a3ad57d24028b730644f9b9b0449daf04edd5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 67/93] fix: line editor: moving over the end of a row erased
 the first character of the next row on the screen

---
 src/Linedit/linedit.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/Linedit/linedit.c b/src/Linedit/linedit.c
index 4e84612..8c80b66 100644
--- a/src/Linedit/linedit.c
+++ b/src/Linedit/linedit.c
@@ -160,6 +160,8 @@ static int hist_end = 0;
 
 static bool New_Char(int c, char *str, int size, char **p_pos, char **p_end);
 
+static void Redisplay_After_Wrap(char *str, char *pos, char *end);
+
 static char *Skip(char *from, char *limit, int res_sep_cmp, int direction);
 
 static bool Is_A_Separator(char c);
@@ -380,6 +382,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
             goto error;
           FORWD(1, pos);
           pos++;
+          Redisplay_After_Wrap(str, pos, end);
           continue;
 
 
@@ -499,6 +502,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
           p = Skip(p, end, 1, +1);      /* skip separators */
           FORWD(p - pos, pos);
           pos = p;
+          Redisplay_After_Wrap(str, pos, end);
           continue;
 
 
@@ -510,6 +514,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
           p = Skip(p, end, 0, +1);      /* skip non separators */
           DISPL(p - pos, pos);
           pos = p;
+          Redisplay_After_Wrap(str, pos, end);
           continue;
 
 
@@ -520,6 +525,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
             *p = tolower(*p);
           DISPL(p - pos, pos);
           pos = p;
+          Redisplay_After_Wrap(str, pos, end);
           continue;
 
 
@@ -530,6 +536,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
             *p = toupper(*p);
           DISPL(p - pos, pos);
           pos = p;
+          Redisplay_After_Wrap(str, pos, end);
           continue;
 
 
@@ -594,6 +601,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
           BACKD(1);
           DISPL(2, pos - 1);
           pos++;
+          Redisplay_After_Wrap(str, pos, end);
           continue;
 
         case '\n':
@@ -786,6 +794,7 @@ Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
           pos = p;
           FORWD(n, pos);
           pos = q;
+          Redisplay_After_Wrap(str, pos, end);
         bracket_exit:
           continue;
         }
@@ -824,6 +833,7 @@ New_Char(int c, char *str, int size, char **p_pos, char **p_end)
       if (++pos > end)
         end = pos;
       PUT_CHAR(c);
+      Redisplay_After_Wrap(str, pos, end);
     }
   else
     {
@@ -845,6 +855,32 @@ New_Char(int c, char *str, int size, char **p_pos, char **p_end)
 
 
 
+/*-------------------------------------------------------------------------*
+ * REDISPLAY_AFTER_WRAP                                                    *
+ *                                                                         *
+ * When the last column of a row has just been written, the cursor is sent *
+ * to the next row with a space (see Pl_LE_Put_Char) which erases the char *
+ * which is there: display it again.                                       *
+ *-------------------------------------------------------------------------*/
+static void
+Redisplay_After_Wrap(char *str, char *pos, char *end)
+{
+  int row, col;
+
+  if (pos == end)
+    return;
+
+  SCREEN_SIZE(&row, &col);
+  if (col > 1 && (prompt_length + (pos - str)) % col == 0)
+    {
+      DISPL(1, pos);
+      BACKD(1);
+    }
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_LE_GET_PROMPT_LENGTH                                                 *
  *                                                                         *
-- 
2.43.0


From 43a5d42ca5cd017ebaae15fe3812948c3a5f2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 68/93] fix: a write error on an output stream was ignored, and
 close/1 could leave a closed FILE in use

Characters refused by the operating system (disk full, size limit) were silently
lost: neither the writing predicates nor flush_output/1 and close/1 looked at
the result of fputc/fflush. They now raise a system_error. close/1 also raised
an error leaving a stream whose FILE was already closed, and took the exit
status of a popen/3 child for an error.
---
 src/BipsPl/stream_c.c    | 21 ++++++--------
 src/BipsPl/stream_supp.c | 60 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 64 insertions(+), 17 deletions(-)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 4ee1508..de0e451 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -513,32 +513,27 @@ void
 Pl_Close_Stm(int stm, Bool force)
 {
   StmInf *pstm = pl_stm_tbl[stm];
-  int fd;
   Bool keep_stream;
+  Bool error = FALSE;
 
   if (pstm->prop.special_close)
     Pl_Err_System(Pl_Create_Atom(ERR_NEEDS_SPECIAL_CLOSE));
 
-  Pl_Stream_Flush(pstm);
+  if (!force)			/* on error the stream is not closed */
+    Pl_Stream_Flush(pstm);
 
   if (stm == pl_stm_stdin || stm == pl_stm_stdout || stm == pl_stm_stderr)
     keep_stream = TRUE;
   else
     {
       keep_stream = FALSE;
-      fd = pstm->fileno;	/* -1 if none */
-
-      if (Pl_Stream_Close(pstm) != 0)
-	{
-	  if (force == 0)
-	    Pl_Err_System(Pl_Create_Atom(ERR_CANNOT_CLOSE_STREAM));
-
-	  /* else force close */
-	  if (fd > 2)
-	    close(fd);
-	}
+      if (Pl_Stream_Close(pstm) < 0)
+	error = TRUE;
     }
   Pl_Delete_Stream(stm, keep_stream);
+
+  if (error && !force)		/* the underlying object no longer exists */
+    Pl_Err_System(Pl_Create_Atom(ERR_CANNOT_CLOSE_STREAM));
 }
 
 
diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 90c236d..d041f5b 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -44,6 +44,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <errno.h>
 
 
 #ifdef clearerr	/* prevent the case clearerr is (also) a macro */
@@ -152,6 +153,8 @@ static int Basic_Call_Fct_Getc(StmInf *pstm);
 
 static void Basic_Call_Fct_Putc(int c, StmInf *pstm);
 
+static void Output_Error(StmInf *pstm);
+
 /* declare a void * to make the clang sanitizer OK with fct ptr exact type */
 static int Str_Stream_Getc(void *a_str_stream);
 
@@ -778,8 +781,13 @@ Pl_Flush_All_Streams(void)
   int stm;
 
   for (stm = 0; stm <= pl_stm_last_used ; stm++)
-    if (pl_stm_tbl[stm])
-      Pl_Stream_Flush(pl_stm_tbl[stm]);
+    {
+      StmInf *pstm = pl_stm_tbl[stm];
+
+      /* a write error is kept by stdio and raised by the next flush or close */
+      if (pstm && pstm->prop.output && pstm->fct_flush != STREAM_FCT_UNDEFINED)
+	CALL_FLUSH(pstm);
+    }
 }
 
 
@@ -1307,7 +1315,14 @@ Basic_Call_Fct_Putc(int c, StmInf *pstm)
 {
   StmLst *m;
 
-  CALL_PUTC(c, pstm);
+  if (pstm->fct_putc == (StmFct) fputc)
+    {
+      errno = 0;
+      if (fputc(c, (FILE *) pstm->file) == EOF)
+	Output_Error(pstm);
+    }
+  else
+    CALL_PUTC(c, pstm);
 
   for (m = pstm->mirror; m ; m = m->next)
     Pl_Stream_Putc(c, pl_stm_tbl[m->stm]);
@@ -1316,6 +1331,34 @@ Basic_Call_Fct_Putc(int c, StmInf *pstm)
 
 
 
+/*-------------------------------------------------------------------------*
+ * OUTPUT_ERROR                                                            *
+ *                                                                         *
+ * Some characters could not be written on a stdio stream: raise an error  *
+ * (once: the error indicator is cleared). On stdout and stderr (used to   *
+ * report errors) it is only raised the first time.                        *
+ *-------------------------------------------------------------------------*/
+static void
+Output_Error(StmInf *pstm)
+{
+  static Bool std_error_raised = FALSE;
+  int err = errno;
+
+  clearerr((FILE *) pstm->file);
+  if (pstm == pl_stm_tbl[pl_stm_stdout] || pstm == pl_stm_tbl[pl_stm_stderr])
+    {
+      if (std_error_raised)
+	return;
+      std_error_raised = TRUE;
+    }
+#ifndef FOR_EXTERNAL_USE
+  Pl_Err_System(Pl_Create_Allocate_Atom(strerror(err ? err : EIO)));
+#endif
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_PB_EMPTY_BUFFER                                                      *
  *                                                                         *
@@ -1640,7 +1683,16 @@ Pl_Stream_Printf(StmInf *pstm, char *format, ...)
 void
 Pl_Stream_Flush(StmInf *pstm)
 {
-  if (pstm->prop.output && pstm->fct_flush != STREAM_FCT_UNDEFINED)
+  if (!pstm->prop.output || pstm->fct_flush == STREAM_FCT_UNDEFINED)
+    return;
+
+  if (pstm->fct_flush == (StmFct) fflush)
+    {
+      errno = 0;
+      if (fflush((FILE *) pstm->file) != 0 || ferror((FILE *) pstm->file))
+	Output_Error(pstm);
+    }
+  else
     CALL_FLUSH(pstm);
 }
 
-- 
2.43.0


From 94f19cfda832e003ac4df11b2380a6677643bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 69/93] fix: Pl_Query_End(PL_KEEP_FOR_PROLOG) left alternatives
 returning to the ended query (environments only reachable from an older
 choice-point)

---
 src/EnginePl/engine.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/EnginePl/engine.c b/src/EnginePl/engine.c
index e014f36..e93df4d 100644
--- a/src/EnginePl/engine.c
+++ b/src/EnginePl/engine.c
@@ -430,16 +430,30 @@ void
 Pl_Keep_Rest_For_Prolog(WamWord *query_b)
 {
   WamWord *b, *e, *query_e;
+  WamWord *seen_e = NULL, *p;
+
+  query_e = EB(query_b);
 
   for (b = B; b > query_b; b = BB(b))
-    if (CPB(b) == Adjust_CP(Call_Prolog_Success))
-      CPB(b) = CP;
+    {
+      if (CPB(b) == Adjust_CP(Call_Prolog_Success))
+	CPB(b) = CP;
 
-  query_e = EB(query_b);
+      /* an environment can be only reachable from an older choice-point */
+      p = seen_e;
+      for (e = EB(b); e > query_e; e = EE(e))
+	{
+	  while (p > e)
+	    p = EE(p);
+
+	  if (p == e)		/* joins the chain of the previous one */
+	    break;
 
-  for (e = EB(B); e > query_e; e = EE(e))
-    if (CPE(e) == Adjust_CP(Call_Prolog_Success))
-      CPE(e) = CP;
+	  if (CPE(e) == Adjust_CP(Call_Prolog_Success))
+	    CPE(e) = CP;
+	}
+      seen_e = EB(b);
+    }
 }
 
 
-- 
2.43.0


From 631eb68a02d351a6929d416ae421ad90c068c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 70/93] fix: Pl_Query_End of a non recoverable query could take
 the recover choice-point of the enclosing query for its own

---
 src/BipsPl/foreign_supp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index d2c77bb..d391577 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -426,7 +426,10 @@ Pl_Query_End(int op)
   pl_query_top_b = (query_stack_top == query_stack) ? NULL :
     query_stack_top[-1];
 
-  recoverable = (ALTB(query_b) == Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0));
+				/* same B as the enclosing query: the recover */
+				/* choice-point (if any) is not ours, it is its */
+  recoverable = (query_b != pl_query_top_b &&
+		 ALTB(query_b) == Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0));
   prev_b = BB(query_b);
 
   switch (op)
-- 
2.43.0


From 0a77e6f347e8207f75dcf5b3684f865c10b16e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 71/93] fix: Pl_Rd_C_Int_Check raised a domain_error instead of
 a representation_error

---
 src/BipsPl/c_supp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/c_supp.c b/src/BipsPl/c_supp.c
index dbefe6d..d08912c 100644
--- a/src/BipsPl/c_supp.c
+++ b/src/BipsPl/c_supp.c
@@ -293,7 +293,7 @@ int PlLong_To_C_Int(PlLong x, WamWord start_word) {
 #define C_INT_MAX ( ((PlLong) 1 << (8 * SIZEOF_INT - 1)) - 1)
 
   if (x < C_INT_MIN || x > C_INT_MAX)
-    Pl_Err_Domain(pl_representation_integer_32bits, start_word);
+    Pl_Err_Representation(pl_representation_integer_32bits);
 
 #endif
 
-- 
2.43.0


From 6a2f7319adf47fb4bf9fdd503b8c9ed0a6751c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 72/93] fix: Pl_Mk_List/Compound/Proper_List and Pl_Un_* could
 leave in the heap a reference to a local variable

---
 src/BipsPl/c_supp.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/BipsPl/c_supp.c b/src/BipsPl/c_supp.c
index d08912c..3256654 100644
--- a/src/BipsPl/c_supp.c
+++ b/src/BipsPl/c_supp.c
@@ -2388,7 +2388,7 @@ Pl_Un_List_Check(WamWord *arg, WamWord start_word)
   if (!Pl_Get_List(start_word))
     goto check_type;
 
-  return Pl_Unify_Value(arg[0]) && Pl_Unify_Value(arg[1]);
+  return Pl_Unify_Local_Value(arg[0]) && Pl_Unify_Local_Value(arg[1]);
 }
 
 
@@ -2404,7 +2404,7 @@ Pl_Un_List(WamWord *arg, WamWord start_word)
   if (arg == NULL)
     return Pl_Get_Nil(start_word);
 
-  return Pl_Get_List(start_word) && Pl_Unify_Value(arg[0]) && Pl_Unify_Value(arg[1]);
+  return Pl_Get_List(start_word) && Pl_Unify_Local_Value(arg[0]) && Pl_Unify_Local_Value(arg[1]);
 }
 
 
@@ -2437,7 +2437,7 @@ Pl_Un_Proper_List(int n, WamWord *arg, WamWord start_word)
 
   while (n--)
     {
-      if (!Pl_Get_List(start_word) || !Pl_Unify_Value(*arg++))
+      if (!Pl_Get_List(start_word) || !Pl_Unify_Local_Value(*arg++))
 	return FALSE;
 
       start_word = Pl_Unify_Variable();
@@ -2472,7 +2472,7 @@ Pl_Un_Compound_Check(int func, int arity, WamWord *arg, WamWord start_word)
     }
 
   for (i = 0; i < arity; i++)
-    if (!Pl_Unify_Value(arg[i]))
+    if (!Pl_Unify_Local_Value(arg[i]))
       return FALSE;
 
   return TRUE;
@@ -2500,7 +2500,7 @@ Pl_Un_Compound(int func, int arity, WamWord *arg, WamWord start_word)
     return FALSE;
 
   for (i = 0; i < arity; i++)
-    if (!Pl_Unify_Value(arg[i]))
+    if (!Pl_Unify_Local_Value(arg[i]))
       return FALSE;
 
   return TRUE;
@@ -2532,7 +2532,7 @@ Pl_Un_Callable_Check(int func, int arity, WamWord *arg, WamWord start_word)
     }
 
   for (i = 0; i < arity; i++)
-    if (!Pl_Unify_Value(arg[i]))
+    if (!Pl_Unify_Local_Value(arg[i]))
       return FALSE;
 
   return TRUE;
@@ -2815,8 +2815,8 @@ Pl_Mk_List(WamWord *arg)
     return NIL_WORD;
 
   res_word = Pl_Put_List();
-  Pl_Unify_Value(arg[0]);
-  Pl_Unify_Value(arg[1]);
+  Pl_Unify_Local_Value(arg[0]);
+  Pl_Unify_Local_Value(arg[1]);
 
   return res_word;
 }
@@ -2841,6 +2841,8 @@ WamWord
 Pl_Mk_Proper_List(int n, WamWord *arg)
 {
   WamWord *src, *dst, *p;
+  WamWord word, tag_mask;
+  WamWord *adr;
 
   if (n <= 0 || arg == NULL)
     return NIL_WORD;
@@ -2856,7 +2858,12 @@ Pl_Mk_Proper_List(int n, WamWord *arg)
       p = dst--;
       *dst = Tag_LST(p);
     entry:
-      *--dst = *--src;
+      DEREF(*--src, word, tag_mask);
+      if (tag_mask == TAG_REF_MASK && Is_A_Local_Adr(adr = UnTag_REF(word)))
+	Globalize_Local_Unbound_Var(adr, word); /* never a heap -> local ref */
+      else
+	Do_Copy_Of_Word(tag_mask, word);
+      *--dst = word;
     }
   while (--n);
 
@@ -2923,7 +2930,7 @@ Pl_Mk_Compound(int func, int arity, WamWord *arg)
 
   res_word = Pl_Put_Structure(func, arity);
   for (i = 0; i < arity; i++)
-    Pl_Unify_Value(arg[i]);
+    Pl_Unify_Local_Value(arg[i]);
 
   return res_word;
 }
-- 
2.43.0


From 8a94c8b81bc4afb7441d0779ec09a45d57a68a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 73/93] fix: characters above 127 and -1 (end of file) given
 wrongly to foreign functions by the types char, in_char, in_code and in_byte

---
 src/BipsPl/c_supp.c    | 20 ++++++++++----------
 src/BipsPl/c_supp.h    | 12 ++++++------
 src/EnginePl/gprolog.h | 12 ++++++------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/BipsPl/c_supp.c b/src/BipsPl/c_supp.c
index 3256654..8d6cfee 100644
--- a/src/BipsPl/c_supp.c
+++ b/src/BipsPl/c_supp.c
@@ -540,7 +540,7 @@ Pl_Rd_Char_Check(WamWord start_word)
   if (tag_mask != TAG_ATM_MASK || pl_atom_tbl[atom].prop.length != 1)
     Pl_Err_Type(pl_type_character, word);
 
-  return pl_atom_tbl[atom].name[0];
+  return (unsigned char) pl_atom_tbl[atom].name[0];
 }
 
 
@@ -559,7 +559,7 @@ Pl_Rd_Char(WamWord start_word)
   DEREF(start_word, word, tag_mask);
   atom = UnTag_ATM(word);
 
-  return pl_atom_tbl[atom].name[0];
+  return (unsigned char) pl_atom_tbl[atom].name[0];
 }
 
 
@@ -569,7 +569,7 @@ Pl_Rd_Char(WamWord start_word)
  * PL_RD_IN_CHAR_CHECK                                                     *
  *                                                                         *
  *-------------------------------------------------------------------------*/
-int
+PlLong
 Pl_Rd_In_Char_Check(WamWord start_word)
 {
   WamWord word, tag_mask;
@@ -584,7 +584,7 @@ Pl_Rd_In_Char_Check(WamWord start_word)
       (atom != pl_atom_end_of_file && pl_atom_tbl[atom].prop.length != 1))
     Pl_Err_Type(pl_type_in_character, word);
 
-  return (atom != pl_atom_end_of_file) ? pl_atom_tbl[atom].name[0] : -1;
+  return (atom != pl_atom_end_of_file) ? (unsigned char) pl_atom_tbl[atom].name[0] : -1;
 }
 
 
@@ -594,7 +594,7 @@ Pl_Rd_In_Char_Check(WamWord start_word)
  * PL_RD_IN_CHAR                                                           *
  *                                                                         *
  *-------------------------------------------------------------------------*/
-int
+PlLong
 Pl_Rd_In_Char(WamWord start_word)
 {
   WamWord word, tag_mask;
@@ -602,7 +602,7 @@ Pl_Rd_In_Char(WamWord start_word)
 
   DEREF(start_word, word, tag_mask);
   atom = UnTag_ATM(word);
-  return (atom != pl_atom_end_of_file) ? pl_atom_tbl[atom].name[0] : -1;
+  return (atom != pl_atom_end_of_file) ? (unsigned char) pl_atom_tbl[atom].name[0] : -1;
 }
 
 
@@ -644,7 +644,7 @@ Pl_Rd_Code(WamWord start_word)
  * PL_RD_IN_CODE_CHECK                                                     *
  *                                                                         *
  *-------------------------------------------------------------------------*/
-int
+PlLong
 Pl_Rd_In_Code_Check(WamWord start_word)
 {
   PlLong c;
@@ -663,7 +663,7 @@ Pl_Rd_In_Code_Check(WamWord start_word)
  * PL_RD_IN_CODE                                                           *
  *                                                                         *
  *-------------------------------------------------------------------------*/
-int
+PlLong
 Pl_Rd_In_Code(WamWord start_word)
 {
   return (int) Pl_Rd_Integer(start_word);
@@ -713,7 +713,7 @@ Pl_Rd_Byte(WamWord start_word)
  * PL_RD_IN_BYTE_CHECK                                                     *
  *                                                                         *
  *-------------------------------------------------------------------------*/
-int
+PlLong
 Pl_Rd_In_Byte_Check(WamWord start_word)
 {
   WamWord word, tag_mask;
@@ -737,7 +737,7 @@ Pl_Rd_In_Byte_Check(WamWord start_word)
  * PL_RD_IN_BYTE                                                           *
  *                                                                         *
  *-------------------------------------------------------------------------*/
-int
+PlLong
 Pl_Rd_In_Byte(WamWord start_word)
 {
   return (int) Pl_Rd_Integer(start_word);
diff --git a/src/BipsPl/c_supp.h b/src/BipsPl/c_supp.h
index 594ba3c..2fcd464 100644
--- a/src/BipsPl/c_supp.h
+++ b/src/BipsPl/c_supp.h
@@ -88,25 +88,25 @@ int Pl_Rd_Char_Check(WamWord start_word);
 
 int Pl_Rd_Char(WamWord start_word);
 
-int Pl_Rd_In_Char_Check(WamWord start_word);
+PlLong Pl_Rd_In_Char_Check(WamWord start_word);
 
-int Pl_Rd_In_Char(WamWord start_word);
+PlLong Pl_Rd_In_Char(WamWord start_word);
 
 int Pl_Rd_Code_Check(WamWord start_word);
 
 int Pl_Rd_Code(WamWord start_word);
 
-int Pl_Rd_In_Code_Check(WamWord start_word);
+PlLong Pl_Rd_In_Code_Check(WamWord start_word);
 
-int Pl_Rd_In_Code(WamWord start_word);
+PlLong Pl_Rd_In_Code(WamWord start_word);
 
 int Pl_Rd_Byte_Check(WamWord start_word);
 
 int Pl_Rd_Byte(WamWord start_word);
 
-int Pl_Rd_In_Byte_Check(WamWord start_word);
+PlLong Pl_Rd_In_Byte_Check(WamWord start_word);
 
-int Pl_Rd_In_Byte(WamWord start_word);
+PlLong Pl_Rd_In_Byte(WamWord start_word);
 
 char *Pl_Rd_String_Check(WamWord start_word);
 
diff --git a/src/EnginePl/gprolog.h b/src/EnginePl/gprolog.h
index ffe5228..5beed6b 100644
--- a/src/EnginePl/gprolog.h
+++ b/src/EnginePl/gprolog.h
@@ -312,25 +312,25 @@ int Pl_Rd_Char_Check(PlTerm term);
 
 int Pl_Rd_Char(PlTerm term);
 
-int Pl_Rd_In_Char_Check(PlTerm term);
+PlLong Pl_Rd_In_Char_Check(PlTerm term);
 
-int Pl_Rd_In_Char(PlTerm term);
+PlLong Pl_Rd_In_Char(PlTerm term);
 
 int Pl_Rd_Code_Check(PlTerm term);
 
 int Pl_Rd_Code(PlTerm term);
 
-int Pl_Rd_In_Code_Check(PlTerm term);
+PlLong Pl_Rd_In_Code_Check(PlTerm term);
 
-int Pl_Rd_In_Code(PlTerm term);
+PlLong Pl_Rd_In_Code(PlTerm term);
 
 int Pl_Rd_Byte_Check(PlTerm term);
 
 int Pl_Rd_Byte(PlTerm term);
 
-int Pl_Rd_In_Byte_Check(PlTerm term);
+PlLong Pl_Rd_In_Byte_Check(PlTerm term);
 
-int Pl_Rd_In_Byte(PlTerm term);
+PlLong Pl_Rd_In_Byte(PlTerm term);
 
 char *Pl_Rd_String_Check(PlTerm term);
 
-- 
2.43.0


From 967979325cea43894cd438f93def9dad55e9c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 74/93] fix: the child of a spawn/exec which cannot execute its
 command ran exit() on the streams of the parent (moved the shared offset of
 its input files)

---
 src/EnginePl/os_spawn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index 564d656..a857936 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -335,7 +335,8 @@ Pl_Spawn(char *arg[])
   if (pid == 0)			/* child process */
     {
       execvp(arg[0], arg);	/* only returns on error */
-      exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
+      _exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127); /* not exit(): */
+				/* would act on the streams of the parent */
     }
 
   return Pl_Get_Status(pid);
@@ -551,7 +552,8 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
       system(buff);
 #endif	
 #endif
-      exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
+      _exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127); /* not exit(): */
+				/* would act on the streams of the parent */
     }
 
   /* in the parent */
-- 
2.43.0


From 5c0654b68a66b9515f11ef0435450481a0a56898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 75/93] fix: exec/4-5: wrong redirections in the child when a
 standard stream is given for another one (e.g. user_output for the error
 stream)

---
 src/EnginePl/os_spawn.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index a857936..1942b87 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -517,6 +517,16 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
 	  exit(0);    /* terminate child (only remains parent and grandchild) */
       }
 #endif
+      for(i = 0; i < 3; i++)	/* do not overwrite 0, 1 or 2 if still needed */
+	{
+	  if (file3[i] && (i != 2 || !merge_out_err))
+	    {
+	      fd = pipe3[i][i != 0];
+	      if (fd < 3 && fd != i && (pipe3[i][i != 0] = fcntl(fd, F_DUPFD, 3)) < 0)
+		goto err;
+	    }
+	}
+
       for(i = 0; i < 3; i++)
 	{
 	  if (file3[i])
-- 
2.43.0


From ba0c1562e0e62694568cc3976b88ea75a9ecdf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 76/93] fix: pipes of exec/4-5 and popen/3 inherited by the
 children started later (no end of file as long as they run)

---
 src/BipsPl/os_interf_c.c | 4 ++++
 src/EnginePl/os_spawn.c  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 701da66..1b00e88 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -56,6 +56,7 @@
 #else
 #include <dirent.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <sys/param.h>
 #include <sys/time.h>
 #include <sys/wait.h>
@@ -1111,6 +1112,9 @@ Pl_Popen_3(WamWord cmd_word, WamWord mode_word, WamWord stm_word)
   Pl_Flush_All_Streams();
   f = popen(cmd, open_str);
   Os_Test_Error_Null(f);
+#if defined(__unix__) || defined(__CYGWIN__)
+  fcntl(fileno(f), F_SETFD, FD_CLOEXEC); /* must not be inherited by other children */
+#endif
 
   sprintf(pl_glob_buff, "popen_stream('%.1024s')", cmd);
   atom = Pl_Create_Allocate_Atom(pl_glob_buff);
diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index 1942b87..791fdc9 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -481,6 +481,8 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
 	    {
 	      if (pipe(pipe3[i]))
 		goto err;
+	      /* our end must not be inherited (else no EOF while another child runs) */
+	      fcntl(pipe3[i][i == 0], F_SETFD, FD_CLOEXEC);
 	    }
 	  else
 	    {
-- 
2.43.0


From df40cf2a1e7d8811fdd1692c95af250f2b9d7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 77/93] fix: spawn/2-3 overflowed the stack with more than 1023
 arguments

---
 src/BipsPl/os_interf_c.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 1b00e88..00e0ca9 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1028,14 +1028,20 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
   WamWord word, tag_mask;
   WamWord save_list_word;
   WamWord *lst_adr;
-  char *arg[MAX_SPAWN_ARGS];
-  char **p = arg;
-  char err[64];
+  static char **arg = NULL;	/* kept (and enlarged) from one call to another */
+  static int max_arg = 0;
+  int n = 0;
   int status;
 
   save_list_word = list_word;
 
-  *p++ = Pl_Rd_String_Check(cmd_word);
+  if (arg == NULL)
+    {
+      max_arg = MAX_SPAWN_ARGS;
+      arg = (char **) Malloc(max_arg * sizeof(char *));
+    }
+
+  arg[n++] = Pl_Rd_String_Check(cmd_word);
 
   for (;;)
     {
@@ -1052,12 +1058,18 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
 
       lst_adr = UnTag_LST(word);
 
-      *p++ = Pl_Rd_String_Check(Car(lst_adr));
+      if (n + 1 >= max_arg)	/* room for this one and the final NULL */
+	{
+	  max_arg *= 2;
+	  arg = (char **) Realloc((char *) arg, max_arg * sizeof(char *));
+	}
+
+      arg[n++] = Pl_Rd_String_Check(Car(lst_adr));
 
       list_word = Cdr(lst_adr);
     }
 
-  *p = NULL;
+  arg[n] = NULL;
   Pl_Check_For_Un_Integer(status_word);
 
   Pl_Flush_All_Streams();
-- 
2.43.0


From 872b56a39c7bd5062352006f38bd1c6308d60aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 78/93] fix: spawn/2-3 and exec/4-5: buffer overflow in the
 error of a long command

---
 src/BipsPl/os_interf_c.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 00e0ca9..7d7ca52 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1079,8 +1079,8 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
     Os_Test_Error(status);
   else if (status == -2)
     {
-      sprintf(err, "error trying to execute %s", arg[0]);
-      Pl_Err_System(Pl_Create_Allocate_Atom(err));
+      sprintf(pl_glob_buff, "error trying to execute %.1024s", arg[0]);
+      Pl_Err_System(Pl_Create_Allocate_Atom(pl_glob_buff));
       return FALSE;
     }
 
@@ -1162,7 +1162,6 @@ Pl_Exec_5(WamWord cmd_word, WamWord sora_in_word, WamWord sora_out_word,
   int pid;
   int mask = (int) SYS_VAR_OPTION_MASK;
   int atom;
-  char err[1024];
   Bool merge_var_out_err = FALSE;
 
   if (stm_err == -2 && stm_out == -2) /* check if both vars are the same (if yes merge out and err) */
@@ -1185,8 +1184,8 @@ Pl_Exec_5(WamWord cmd_word, WamWord sora_in_word, WamWord sora_out_word,
     Os_Test_Error(pid); /* ENOENT is for Windows */
   if (pid < 0)
     {
-      sprintf(err, "error trying to execute %s (maybe not found)", cmd);
-      Pl_Err_System(Pl_Create_Allocate_Atom(err));
+      sprintf(pl_glob_buff, "error trying to execute %.1024s (maybe not found)", cmd);
+      Pl_Err_System(Pl_Create_Allocate_Atom(pl_glob_buff));
       return FALSE;
     }
 
-- 
2.43.0


From c99194025d25345c35323615ba24ca50e053a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 79/93] fix: socket_bind/2 and socket_connect/4: buffer
 overflow with a long path or host name

---
 src/BipsPl/sockets_c.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/sockets_c.c b/src/BipsPl/sockets_c.c
index 48cbbf0..1f1498c 100644
--- a/src/BipsPl/sockets_c.c
+++ b/src/BipsPl/sockets_c.c
@@ -278,6 +278,11 @@ Pl_Socket_Bind_2(WamWord socket_word, WamWord address_word)
 	Pl_Err_Domain(pl_domain_os_path, Arg(stc_adr, 0));
 
       adr_un.sun_family = AF_UNIX;
+      if (strlen(path_name) >= sizeof(adr_un.sun_path))
+	{
+	  errno = ENAMETOOLONG;
+	  Os_Test_Error(-1);
+	}
       strcpy(adr_un.sun_path, path_name);
       unlink(path_name);
       Os_Test_Error(bind(sock, (struct sockaddr *) &adr_un, sizeof(adr_un)));
@@ -370,9 +375,14 @@ Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word,
 	Pl_Err_Domain(pl_domain_os_path, Arg(stc_adr, 0));
 
       adr_un.sun_family = AF_UNIX;
+      if (strlen(path_name) >= sizeof(adr_un.sun_path))
+	{
+	  errno = ENAMETOOLONG;
+	  Os_Test_Error(-1);
+	}
       strcpy(adr_un.sun_path, path_name);
       Os_Test_Error(connect(sock, (struct sockaddr *) &adr_un, sizeof(adr_un)));
-      sprintf(stream_name, "socket_stream(connect('AF_UNIX'('%s')),%d)", path_name, sock);
+      snprintf(stream_name, sizeof(stream_name), "socket_stream(connect('AF_UNIX'('%s')),%d)", path_name, sock);
 #ifdef _WIN32
 	  /* Check for in-progress connection */
 	  Os_Test_Error( send(sock, "", 0, 0) );
@@ -396,7 +406,7 @@ Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word,
   memcpy(&adr_in.sin_addr, host_entry->h_addr_list[0], host_entry->h_length);
 
   Os_Test_Error(connect(sock, (struct sockaddr *) &adr_in, sizeof(adr_in)));
-  sprintf(stream_name, "socket_stream(connect('AF_INET'('%s',%d)),%d)",
+  snprintf(stream_name, sizeof(stream_name), "socket_stream(connect('AF_INET'('%s',%d)),%d)",
 	  host_name, port, sock);
 
 #ifdef SUPPORT_AF_UNIX
-- 
2.43.0


From 7225efe94a51fd6c60c5e590f867b8385931956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 80/93] fix: a stack overflow by a large environment jumped
 over the guard page (memory after the local stack overwritten or a bad
 message)

---
 src/EnginePl/stacks_sigsegv.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/EnginePl/stacks_sigsegv.c b/src/EnginePl/stacks_sigsegv.c
index a87d87e..50a9cbd 100644
--- a/src/EnginePl/stacks_sigsegv.c
+++ b/src/EnginePl/stacks_sigsegv.c
@@ -116,6 +116,8 @@
 
 #define MAX_SIGSEGV_HANDLER        10
 
+#define NB_GUARD_PAGES             256  /* after each stack: more than any frame */
+
 
           /* Error Messages */
 
@@ -143,6 +145,7 @@
  *---------------------------------*/
 
 static int page_size;
+static int guard_size;		/* protected words after each stack */
 
 static SegvHdlr tbl_handler[MAX_SIGSEGV_HANDLER];
 static int nb_handler = 0;
@@ -325,13 +328,14 @@ Pl_Allocate_Stacks(void)
     (WamWord *) -1 };
 
   page_size = getpagesize() / sizeof(WamWord);
+  guard_size = NB_GUARD_PAGES * page_size;
 
   for (i = 0; i < NB_OF_STACKS; i++)
     {
       stk_sz = pl_stk_tbl[i].size = Round_Up(pl_stk_tbl[i].size, page_size);
       if (stk_sz == 0)
 	stk_sz = page_size;	/* at leat one page to write magic numbers */
-      length += stk_sz + page_size;
+      length += stk_sz + guard_size;
     }
   length *= sizeof(WamWord);
 
@@ -377,13 +381,13 @@ Pl_Allocate_Stacks(void)
       if (stk_sz == 0)
 	stk_sz = page_size;	/* at least one page for magic numbers */
 #ifdef DEBUG
-      DBGPRINTF("  stack: %d %-10s length: %5" PL_FMT_d " Kb   addr:[%p..%p[ + 1 free page, next addr: %p\n", 
+      DBGPRINTF("  stack: %d %-10s length: %5" PL_FMT_d " Kb   addr:[%p..%p[ + guard pages, next addr: %p\n", 
 		i, pl_stk_tbl[i].name, stk_sz * sizeof(WamWord) / 1024, 
-		addr, addr + stk_sz, addr + stk_sz + page_size);
+		addr, addr + stk_sz, addr + stk_sz + guard_size);
 #endif
       addr += stk_sz;
-      Virtual_Mem_Protect(addr, page_size * sizeof(WamWord));
-      addr += page_size;
+      Virtual_Mem_Protect(addr, guard_size * sizeof(WamWord));
+      addr += guard_size;
     }
 
   Install_SIGSEGV_Handler();	/* install the real (and unique) SIGSEGV handler */
@@ -723,7 +727,7 @@ Default_SIGSEGV_Handler(void *bad_addr)
 #ifdef DEBUG
       DBGPRINTF("STACK[%d] stack: %p end: %p\n", i, start, end);
 #endif
-      if (addr >= end && addr < end + page_size)
+      if (addr >= end && addr < end + guard_size)
 	{
 #ifdef DEBUG
 	  DBGPRINTF("Found overflow on stack[%d]\n", i);
-- 
2.43.0


From aa6374e766dc0bfb7abdfd32e0535c414781e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 81/93] fix: a cut in a compiled clause of a dynamic or
 multifile predicate did not remove the choice point of the other clauses

---
 src/Pl2Wam/indexing.pl   |   5 +-
 src/Pl2Wam/indexing.wam  | 116 ++++++++++++--------
 src/Pl2Wam/read_file.pl  |   2 +
 src/Pl2Wam/read_file.wam | 228 ++++++++++++++++++++-------------------
 4 files changed, 200 insertions(+), 151 deletions(-)

diff --git a/src/Pl2Wam/indexing.pl b/src/Pl2Wam/indexing.pl
index d2b3361..cea3fe8 100644
--- a/src/Pl2Wam/indexing.pl
+++ b/src/Pl2Wam/indexing.pl
@@ -136,7 +136,10 @@ indexing(LCC, WamCode1) :-
 	cur_pred(Pred, N),
 	(   test_pred_flag(need_cut_level, Pred, N) ->
 	    N1 is N + 1,
-	    WamCode1 = [pragma_arity(N1), get_current_choice(x(N))|WamCode]
+	    (   test_pred_flag(wrapped, Pred, N) ->      % x(N) set by the caller
+		WamCode1 = [pragma_arity(N1)|WamCode]
+	    ;   WamCode1 = [pragma_arity(N1), get_current_choice(x(N))|WamCode]
+	    )
 	;   WamCode1 = WamCode
 	),
 	allocate_labels(WamCode1, 1, _).
diff --git a/src/Pl2Wam/indexing.wam b/src/Pl2Wam/indexing.wam
index 1a95efb..ba074c6 100644
--- a/src/Pl2Wam/indexing.wam
+++ b/src/Pl2Wam/indexing.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: indexing.pl
-% hash: 20ef30a8be46375e38578b58b0728e2ae84c3183  indexing.pl
+% hash: 8fdf5c10261da57198b427610220a2b105bfd204  indexing.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/indexing.pl').
@@ -34,39 +34,71 @@ predicate('$indexing/2_$aux1'/4,134,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
+    allocate(5),
+    get_variable(y(0),0),
+    get_variable(y(1),1),
+    get_variable(y(2),2),
+    get_variable(y(3),3),
+    get_variable(y(4),4),
+    put_atom(need_cut_level,0),
+    put_value(y(0),1),
+    put_value(y(1),2),
+    call(test_pred_flag/3),
+    cut(y(4)),
+    math_fast_load_value(y(1),0),
+    call_c('Pl_Fct_Fast_Inc',[fast_call,x(3)],[x(0)]),
+    put_value(y(0),0),
+    put_value(y(1),1),
+    put_value(y(2),2),
+    put_value(y(3),4),
+    deallocate,
+    execute('$indexing/2_$aux2'/5),
+
+label(1),
+    trust_me_else_fail,
+    get_value(x(3),2),
+    proceed]).
+
+
+predicate('$indexing/2_$aux2'/5,134,static,private,monofile,local,[
+    pragma_arity(6),
+    get_current_choice(x(5)),
+    try_me_else(1),
     allocate(4),
-    get_variable(y(0),1),
-    get_variable(y(1),2),
-    get_variable(y(2),3),
-    get_variable(y(3),4),
+    get_variable(y(0),2),
+    get_variable(y(1),3),
+    get_variable(y(2),4),
+    get_variable(x(2),1),
+    get_variable(y(3),5),
     put_value(x(0),1),
-    put_atom(need_cut_level,0),
-    put_value(y(0),2),
+    put_atom(wrapped,0),
     call(test_pred_flag/3),
     cut(y(3)),
-    math_fast_load_value(y(0),0),
-    call_c('Pl_Fct_Fast_Inc',[fast_call,x(1)],[x(0)]),
-    put_value(y(1),0),
+    put_value(y(0),0),
     get_list(0),
-    unify_variable(x(2)),
-    unify_list,
     unify_variable(x(0)),
     unify_local_value(y(2)),
-    get_structure(pragma_arity/1,2),
-    unify_local_value(x(1)),
-    get_structure(get_current_choice/1,0),
-    unify_structure(x/1),
-    unify_local_value(y(0)),
+    get_structure(pragma_arity/1,0),
+    unify_local_value(y(1)),
     deallocate,
     proceed,
 
 label(1),
     trust_me_else_fail,
-    get_value(x(3),2),
+    get_list(2),
+    unify_variable(x(2)),
+    unify_list,
+    unify_variable(x(0)),
+    unify_local_value(x(4)),
+    get_structure(pragma_arity/1,2),
+    unify_local_value(x(3)),
+    get_structure(get_current_choice/1,0),
+    unify_structure(x/1),
+    unify_local_value(x(1)),
     proceed]).
 
 
-predicate(indexing1/4,147,static,private,monofile,global,[
+predicate(indexing1/4,150,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -119,7 +151,7 @@ label(1),
     proceed]).
 
 
-predicate(look_for_var/5,161,static,private,monofile,global,[
+predicate(look_for_var/5,164,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     switch_on_term(2,3,fail,1,fail),
@@ -178,7 +210,7 @@ label(7),
     execute('$look_for_var/5_$aux2'/2)]).
 
 
-predicate('$look_for_var/5_$aux2'/2,170,static,private,monofile,local,[
+predicate('$look_for_var/5_$aux2'/2,173,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(6),
@@ -211,7 +243,7 @@ label(6),
     proceed]).
 
 
-predicate('$look_for_var/5_$aux1'/2,163,static,private,monofile,local,[
+predicate('$look_for_var/5_$aux1'/2,166,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -226,7 +258,7 @@ label(1),
     proceed]).
 
 
-predicate(mk_indexing/6,182,static,private,monofile,global,[
+predicate(mk_indexing/6,185,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(2,fail,1,fail,fail),
@@ -419,7 +451,7 @@ label(11),
     execute(gen_insts/3)]).
 
 
-predicate('$mk_indexing/6_$aux6'/8,213,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux6'/8,216,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -447,7 +479,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux5'/3,213,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux5'/3,216,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -464,7 +496,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux4'/3,207,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux4'/3,210,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -481,7 +513,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux3'/3,199,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux3'/3,202,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -498,7 +530,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux2'/3,191,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux2'/3,194,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -515,7 +547,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux1'/3,182,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux1'/3,185,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -532,7 +564,7 @@ label(1),
     proceed]).
 
 
-predicate(split/5,234,static,private,monofile,global,[
+predicate(split/5,237,static,private,monofile,global,[
     allocate(6),
     get_variable(y(0),1),
     get_variable(y(1),2),
@@ -553,7 +585,7 @@ predicate(split/5,234,static,private,monofile,global,[
     execute(group_by_keys/2)]).
 
 
-predicate(split1/5,241,static,private,monofile,global,[
+predicate(split1/5,244,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -597,7 +629,7 @@ label(4),
     execute(split1/5)]).
 
 
-predicate(split2/10,248,static,private,monofile,global,[
+predicate(split2/10,251,static,private,monofile,global,[
     switch_on_term(2,7,fail,fail,1),
 
 label(1),
@@ -672,7 +704,7 @@ label(9),
     proceed]).
 
 
-predicate(group_by_keys/2,268,static,private,monofile,global,[
+predicate(group_by_keys/2,271,static,private,monofile,global,[
     allocate(2),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -686,7 +718,7 @@ predicate(group_by_keys/2,268,static,private,monofile,global,[
     execute(sort/1)]).
 
 
-predicate(group_by_keys1/2,278,static,private,monofile,global,[
+predicate(group_by_keys1/2,281,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -726,7 +758,7 @@ label(4),
     execute(group_by_keys1/2)]).
 
 
-predicate(group_by_keys2/4,285,static,private,monofile,global,[
+predicate(group_by_keys2/4,288,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -749,7 +781,7 @@ label(1),
     proceed]).
 
 
-predicate(gen_switch/5,294,static,private,monofile,global,[
+predicate(gen_switch/5,297,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(5),
@@ -808,7 +840,7 @@ label(5),
     proceed]).
 
 
-predicate(create_switch_list/4,317,static,private,monofile,global,[
+predicate(create_switch_list/4,320,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -848,7 +880,7 @@ label(4),
     execute(create_switch_list/4)]).
 
 
-predicate(gen_list/4,327,static,private,monofile,global,[
+predicate(gen_list/4,330,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     switch_on_term(2,3,fail,1,fail),
@@ -898,7 +930,7 @@ label(7),
     execute(gen_list1/3)]).
 
 
-predicate(gen_list1/3,337,static,private,monofile,global,[
+predicate(gen_list1/3,340,static,private,monofile,global,[
     switch_on_term(2,fail,fail,1,fail),
 
 label(1),
@@ -934,7 +966,7 @@ label(5),
     execute(gen_list1/3)]).
 
 
-predicate(gen_insts/3,346,static,private,monofile,global,[
+predicate(gen_insts/3,349,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,fail,fail,1,fail),
@@ -999,7 +1031,7 @@ label(5),
     proceed]).
 
 
-predicate(gen_insts1/3,355,static,private,monofile,global,[
+predicate(gen_insts1/3,358,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,fail,fail,1,fail),
@@ -1070,7 +1102,7 @@ label(5),
     proceed]).
 
 
-predicate(allocate_labels/3,365,static,private,monofile,global,[
+predicate(allocate_labels/3,368,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(7),
diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index d7bcc84..babb8d2 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -407,6 +407,7 @@ create_exe_clauses_for_dyn_pred([SrcCl|LSrcCl], Pred, N) :-
 
 add_wrapper_to_dyn_clause(Pred, N, Where + Cl, AuxName) :-
 	init_aux_pred_name(Pred, N, AuxName, N),
+	set_pred_flag(wrapped, AuxName, N), % its cut level is the one of Pred (see indexing)
 	(   Cl = (Head :- Body) ->
 	    head_wrapper(Head, AuxName, Head1),
 	    Cl1 = (Head1 :- Body)
@@ -1230,6 +1231,7 @@ flag_bit(need_cut_level, 6).
 flag_bit(meta, 7).
 flag_bit(multi, 8).
 flag_bit(embed, 9).
+flag_bit(wrapped, 10).
 
 
 
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index 783a493..be89922 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: 2ec7b4fbceb099e4cc718d8f4a0593a0904639e8  read_file.pl
+% hash: 7a517229e93ae9f5aaf70721c36d6213548ebee8  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -925,6 +925,10 @@ predicate(add_wrapper_to_dyn_clause/4,408,static,private,monofile,global,[
     put_value(y(3),2),
     put_value(y(0),3),
     call(init_aux_pred_name/4),
+    put_atom(wrapped,0),
+    put_value(y(3),1),
+    put_value(y(0),2),
+    call(set_pred_flag/3),
     put_value(y(2),0),
     put_value(y(3),1),
     put_variable(y(4),2),
@@ -966,7 +970,7 @@ label(1),
     execute(head_wrapper/3)]).
 
 
-predicate(head_wrapper/3,418,static,private,monofile,global,[
+predicate(head_wrapper/3,419,static,private,monofile,global,[
     put_list(4),
     unify_void(1),
     unify_variable(x(3)),
@@ -978,7 +982,7 @@ predicate(head_wrapper/3,418,static,private,monofile,global,[
     proceed]).
 
 
-predicate(create_exe_clauses_for_pub_pred/1,424,static,private,monofile,global,[
+predicate(create_exe_clauses_for_pub_pred/1,425,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1013,7 +1017,7 @@ label(4),
     execute(create_exe_clauses_for_pub_pred/1)]).
 
 
-predicate(get_file_name/2,434,static,private,monofile,global,[
+predicate(get_file_name/2,435,static,private,monofile,global,[
     get_structure((+)/2,0),
     unify_variable(x(0)),
     unify_void(1),
@@ -1026,7 +1030,7 @@ predicate(get_file_name/2,434,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_next_clause/3,439,static,private,monofile,global,[
+predicate(get_next_clause/3,440,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1123,7 +1127,7 @@ label(2),
     proceed]).
 
 
-predicate('$get_next_clause/3_$aux1'/8,450,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux1'/8,451,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -1189,7 +1193,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause/3_$aux2'/3,450,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux2'/3,451,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1206,7 +1210,7 @@ label(1),
     proceed]).
 
 
-predicate(get_next_clause1/7,470,static,private,monofile,global,[
+predicate(get_next_clause1/7,471,static,private,monofile,global,[
     pragma_arity(8),
     get_current_choice(x(7)),
     try_me_else(1),
@@ -1227,7 +1231,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate('$get_next_clause1/7_$aux1'/6,470,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux1'/6,471,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(1,2,fail,4,fail),
@@ -1260,7 +1264,7 @@ label(4),
     execute('$get_next_clause1/7_$aux2'/7)]).
 
 
-predicate('$get_next_clause1/7_$aux2'/7,470,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux2'/7,471,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -1283,7 +1287,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate(get_next_clause2/6,490,static,private,monofile,global,[
+predicate(get_next_clause2/6,491,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1391,7 +1395,7 @@ label(4),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause2/6_$aux4'/2,517,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux4'/2,518,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1407,7 +1411,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux3'/2,507,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux3'/2,508,static,private,monofile,local,[
     try_me_else(1),
     execute(handle_directive/2),
 
@@ -1420,7 +1424,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$get_next_clause2/6_$aux2'/1,507,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux2'/1,508,static,private,monofile,local,[
     try_me_else(1),
     put_atom(foreign_only,0),
     put_atom(f,1),
@@ -1435,7 +1439,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux1'/4,490,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux1'/4,491,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1459,7 +1463,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate(after_syn_error/0,538,static,private,monofile,global,[
+predicate(after_syn_error/0,539,static,private,monofile,global,[
     allocate(3),
     put_atom(syn_error_nb,1),
     put_variable(x(0),2),
@@ -1493,7 +1497,7 @@ predicate(after_syn_error/0,538,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(expand_error/3,550,static,private,monofile,global,[
+predicate(expand_error/3,551,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1532,7 +1536,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(display_singletons/1,562,static,private,monofile,global,[
+predicate(display_singletons/1,563,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1552,7 +1556,7 @@ label(1),
     proceed]).
 
 
-predicate('$display_singletons/1_$aux1'/1,562,static,private,monofile,local,[
+predicate('$display_singletons/1_$aux1'/1,563,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1569,7 +1573,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(get_singletons/2,575,static,private,monofile,global,[
+predicate(get_singletons/2,576,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1599,7 +1603,7 @@ label(4),
     execute(get_singletons/2)]).
 
 
-predicate('$get_singletons/2_$aux1'/3,577,static,private,monofile,local,[
+predicate('$get_singletons/2_$aux1'/3,578,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1626,7 +1630,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_term/1,599,static,private,monofile,global,[
+predicate(pp_handle_term/1,600,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1658,7 +1662,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_directive/1,610,static,private,monofile,global,[
+predicate(pp_handle_directive/1,611,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,1,fail,fail,2),
@@ -1704,7 +1708,7 @@ label(10),
     execute('$pp_handle_directive/1_$aux4'/0)]).
 
 
-predicate('$pp_handle_directive/1_$aux4'/0,639,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux4'/0,640,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1725,7 +1729,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux3'/1,627,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux3'/1,628,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1761,7 +1765,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux5'/2,627,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux5'/2,628,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -1792,7 +1796,7 @@ label(7),
     proceed]).
 
 
-predicate('$pp_handle_directive/1_$aux2'/1,617,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux2'/1,618,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1816,7 +1820,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux6'/3,617,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux6'/3,618,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1840,7 +1844,7 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate('$pp_handle_directive/1_$aux1'/2,610,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux1'/2,611,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1872,14 +1876,14 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate(pp_exec_if_goal/3,648,static,private,monofile,global,[
+predicate(pp_exec_if_goal/3,649,static,private,monofile,global,[
     get_variable(x(3),2),
     get_variable(x(2),1),
     put_value(x(3),1),
     execute('$pp_exec_if_goal/3_$aux1'/3)]).
 
 
-predicate('$pp_exec_if_goal/3_$aux1'/3,648,static,private,monofile,local,[
+predicate('$pp_exec_if_goal/3_$aux1'/3,649,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1926,14 +1930,14 @@ label(1),
     proceed]).
 
 
-predicate(pp_start/0,658,static,private,monofile,global,[
+predicate(pp_start/0,659,static,private,monofile,global,[
     put_atom(pp_stack,0),
     put_nil(1),
     call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
     proceed]).
 
 
-predicate(pp_stop/0,664,static,private,monofile,global,[
+predicate(pp_stop/0,665,static,private,monofile,global,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1950,7 +1954,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate(handle_directive/2,678,static,private,monofile,global,[
+predicate(handle_directive/2,679,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1977,7 +1981,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(foreign_get_options/1,855,static,private,monofile,global,[
+predicate(foreign_get_options/1,856,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(1,2,fail,4,fail),
@@ -2005,7 +2009,7 @@ label(4),
     execute(foreign_get_options/1)]).
 
 
-predicate(foreign_get_options1/1,862,static,private,monofile,global,[
+predicate(foreign_get_options1/1,863,static,private,monofile,global,[
     switch_on_term(3,fail,fail,fail,1),
 
 label(1),
@@ -2103,7 +2107,7 @@ label(14),
     proceed]).
 
 
-predicate('$foreign_get_options1/1_$aux1'/1,866,static,private,monofile,local,[
+predicate('$foreign_get_options1/1_$aux1'/1,867,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2131,7 +2135,7 @@ label(7),
     proceed]).
 
 
-predicate(foreign_check_types/4,896,static,private,monofile,global,[
+predicate(foreign_check_types/4,897,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -2173,7 +2177,7 @@ label(1),
     execute(foreign_check_types/4)]).
 
 
-predicate('$foreign_check_types/4_$aux1'/3,899,static,private,monofile,local,[
+predicate('$foreign_check_types/4_$aux1'/3,900,static,private,monofile,local,[
     switch_on_term(2,9,fail,fail,1),
 
 label(1),
@@ -2216,7 +2220,7 @@ label(9),
     proceed]).
 
 
-predicate(foreign_check_arg/1,917,static,private,monofile,global,[
+predicate(foreign_check_arg/1,918,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2335,7 +2339,7 @@ label(33),
     proceed]).
 
 
-predicate(embed_clause/3,937,static,private,monofile,global,[
+predicate(embed_clause/3,938,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2368,7 +2372,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_clause/3_$aux2'/2,937,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux2'/2,938,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2400,7 +2404,7 @@ label(1),
     execute(retractall/1)]).
 
 
-predicate('$embed_clause/3_$aux1'/3,937,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux1'/3,938,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2430,7 +2434,7 @@ label(7),
     proceed]).
 
 
-predicate(handle_init_directive/3,958,static,private,monofile,global,[
+predicate(handle_init_directive/3,959,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2454,7 +2458,7 @@ label(1),
     proceed]).
 
 
-predicate(embed_directive/2,966,static,private,monofile,global,[
+predicate(embed_directive/2,967,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2481,7 +2485,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux2'/0,966,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux2'/0,967,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -2505,7 +2509,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux1'/2,966,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux1'/2,967,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2534,7 +2538,7 @@ label(7),
     proceed]).
 
 
-predicate(exec_directive/1,984,static,private,monofile,global,[
+predicate(exec_directive/1,985,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2565,7 +2569,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(exec_directive_exception/2,992,static,private,monofile,global,[
+predicate(exec_directive_exception/2,993,static,private,monofile,global,[
     get_variable(x(2),1),
     put_list(1),
     unify_local_value(x(0)),
@@ -2576,7 +2580,7 @@ predicate(exec_directive_exception/2,992,static,private,monofile,global,[
     execute(warn/2)]).
 
 
-predicate(record_initialization/3,998,static,private,monofile,global,[
+predicate(record_initialization/3,999,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2605,7 +2609,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate(add_empty_dyn/2,1007,static,private,monofile,global,[
+predicate(add_empty_dyn/2,1008,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2635,7 +2639,7 @@ label(4),
     execute(add_empty_dyn/2)]).
 
 
-predicate('$add_empty_dyn/2_$aux1'/3,1009,static,private,monofile,local,[
+predicate('$add_empty_dyn/2_$aux1'/3,1010,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2662,7 +2666,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_ensure_linked/1,1019,static,private,monofile,global,[
+predicate(add_ensure_linked/1,1020,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2689,7 +2693,7 @@ label(4),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$add_ensure_linked/1_$aux1'/2,1021,static,private,monofile,local,[
+predicate('$add_ensure_linked/1_$aux1'/2,1022,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2714,7 +2718,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_module_export_info/2,1032,static,private,monofile,global,[
+predicate(add_module_export_info/2,1033,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2744,7 +2748,7 @@ label(4),
     execute(add_module_export_info/2)]).
 
 
-predicate('$add_module_export_info/2_$aux1'/3,1034,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux1'/3,1035,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2787,7 +2791,7 @@ label(1),
     execute('$add_module_export_info/2_$aux2'/2)]).
 
 
-predicate('$add_module_export_info/2_$aux2'/2,1034,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux2'/2,1035,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2810,7 +2814,7 @@ label(1),
     proceed]).
 
 
-predicate(check_pi_specif/3,1050,static,private,monofile,global,[
+predicate(check_pi_specif/3,1051,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2836,7 +2840,7 @@ label(2),
     execute(check_pi_specif1/3)]).
 
 
-predicate(check_pi_specif1/3,1064,static,private,monofile,global,[
+predicate(check_pi_specif1/3,1065,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(10),
@@ -2917,7 +2921,7 @@ label(10),
     execute(error/2)]).
 
 
-predicate(check_callable/2,1089,static,private,monofile,global,[
+predicate(check_callable/2,1090,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2948,7 +2952,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_module_name/2,1103,static,private,monofile,global,[
+predicate(check_module_name/2,1104,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2972,7 +2976,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_head_is_module_free/1,1124,static,private,monofile,global,[
+predicate(check_head_is_module_free/1,1125,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2994,7 +2998,7 @@ label(1),
     proceed]).
 
 
-predicate(check_module_clash/2,1134,static,private,monofile,global,[
+predicate(check_module_clash/2,1135,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3034,7 +3038,7 @@ label(1),
     proceed]).
 
 
-predicate(get_owner_module/3,1146,static,private,monofile,global,[
+predicate(get_owner_module/3,1147,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3061,7 +3065,7 @@ label(1),
     proceed]).
 
 
-predicate(is_exported/2,1154,static,private,monofile,global,[
+predicate(is_exported/2,1155,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3078,7 +3082,7 @@ predicate(is_exported/2,1154,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_module_of_cur_pred/1,1160,static,private,monofile,global,[
+predicate(get_module_of_cur_pred/1,1161,static,private,monofile,global,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -3091,7 +3095,7 @@ predicate(get_module_of_cur_pred/1,1160,static,private,monofile,global,[
     execute('$get_module_of_cur_pred/1_$aux1'/3)]).
 
 
-predicate('$get_module_of_cur_pred/1_$aux1'/3,1160,static,private,monofile,local,[
+predicate('$get_module_of_cur_pred/1_$aux1'/3,1161,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3130,7 +3134,7 @@ label(2),
     proceed]).
 
 
-predicate(directive_set_flag_for_preds/2,1172,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds/2,1173,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(1,2,fail,4,fail),
@@ -3165,7 +3169,7 @@ label(4),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate(directive_set_flag_for_preds1/3,1179,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds1/3,1180,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3221,7 +3225,7 @@ label(3),
     execute('$directive_set_flag_for_preds1/3_$aux1'/3)]).
 
 
-predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1191,static,private,monofile,local,[
+predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1192,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(6),
@@ -3253,7 +3257,7 @@ label(6),
     proceed]).
 
 
-predicate(define_predicate/2,1203,static,private,monofile,global,[
+predicate(define_predicate/2,1204,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3315,11 +3319,11 @@ label(4),
     proceed]).
 
 
-predicate(flag_bit/2,1223,static,private,monofile,global,[
+predicate(flag_bit/2,1224,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
-    switch_on_atom([(def,3),(dyn,5),(pub,7),(bpl,9),(bfd,11),(discontig,13),(need_cut_level,15),(meta,17),(multi,19),(embed,21)]),
+    switch_on_atom([(def,3),(dyn,5),(pub,7),(bpl,9),(bfd,11),(discontig,13),(need_cut_level,15),(meta,17),(multi,19),(embed,21),(wrapped,23)]),
 
 label(2),
     try_me_else(4),
@@ -3394,15 +3398,23 @@ label(19),
     proceed,
 
 label(20),
-    trust_me_else_fail,
+    retry_me_else(22),
 
 label(21),
     get_atom(embed,0),
     get_integer(9,1),
+    proceed,
+
+label(22),
+    trust_me_else_fail,
+
+label(23),
+    get_atom(wrapped,0),
+    get_integer(10,1),
     proceed]).
 
 
-predicate(set_pred_flag/3,1238,static,private,monofile,global,[
+predicate(set_pred_flag/3,1240,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3430,7 +3442,7 @@ predicate(set_pred_flag/3,1238,static,private,monofile,global,[
     execute(assertz/1)]).
 
 
-predicate('$set_pred_flag/3_$aux1'/4,1238,static,private,monofile,local,[
+predicate('$set_pred_flag/3_$aux1'/4,1240,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -3450,7 +3462,7 @@ label(1),
     proceed]).
 
 
-predicate(unset_pred_flag/3,1249,static,private,monofile,global,[
+predicate(unset_pred_flag/3,1251,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3484,7 +3496,7 @@ label(1),
     proceed]).
 
 
-predicate(test_pred_flag/3,1260,static,private,monofile,global,[
+predicate(test_pred_flag/3,1262,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3511,7 +3523,7 @@ predicate(test_pred_flag/3,1260,static,private,monofile,global,[
     proceed]).
 
 
-predicate(test_not_pred_flag/3,1268,static,private,monofile,global,[
+predicate(test_not_pred_flag/3,1270,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3543,7 +3555,7 @@ label(1),
     proceed]).
 
 
-predicate(check_predicate/2,1323,static,private,monofile,global,[
+predicate(check_predicate/2,1325,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3658,7 +3670,7 @@ label(5),
     proceed]).
 
 
-predicate(reserved_predicate/2,1352,static,private,monofile,global,[
+predicate(reserved_predicate/2,1354,static,private,monofile,global,[
     switch_on_term(3,1,fail,fail,fail),
 
 label(1),
@@ -3693,7 +3705,7 @@ label(8),
     proceed]).
 
 
-predicate(bip/2,1357,static,private,monofile,global,[
+predicate(bip/2,1359,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3705,7 +3717,7 @@ predicate(bip/2,1357,static,private,monofile,global,[
     proceed]).
 
 
-predicate(control_construct/2,1365,static,private,monofile,global,[
+predicate(control_construct/2,1367,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3784,7 +3796,7 @@ label(19),
     proceed]).
 
 
-predicate(suspicious_predicate/2,1382,static,private,monofile,global,[
+predicate(suspicious_predicate/2,1384,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3849,7 +3861,7 @@ label(15),
     proceed]).
 
 
-predicate(warn/2,1393,static,private,monofile,global,[
+predicate(warn/2,1395,static,private,monofile,global,[
     put_value(x(0),2),
     put_value(x(1),3),
     put_atom(warning,0),
@@ -3857,7 +3869,7 @@ predicate(warn/2,1393,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(error/2,1399,static,private,monofile,global,[
+predicate(error/2,1401,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3874,7 +3886,7 @@ predicate(error/2,1399,static,private,monofile,global,[
     execute(abandon_exec/0)]).
 
 
-predicate('$error/2_$aux1'/1,1399,static,private,monofile,local,[
+predicate('$error/2_$aux1'/1,1401,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -3890,11 +3902,11 @@ label(1),
     proceed]).
 
 
-predicate(abandon_exec/0,1411,static,private,monofile,global,[
+predicate(abandon_exec/0,1413,static,private,monofile,global,[
     execute(abort/0)]).
 
 
-predicate(disp_msg/4,1417,static,private,monofile,global,[
+predicate(disp_msg/4,1419,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -3919,7 +3931,7 @@ predicate(disp_msg/4,1417,static,private,monofile,global,[
     execute(nl/0)]).
 
 
-predicate('$disp_msg/4_$aux1'/2,1417,static,private,monofile,local,[
+predicate('$disp_msg/4_$aux1'/2,1419,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3946,7 +3958,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_file_name/3,1434,static,private,monofile,global,[
+predicate(disp_file_name/3,1436,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(1,2,fail,4,fail),
@@ -3982,7 +3994,7 @@ label(4),
     execute('$disp_file_name/3_$aux1'/3)]).
 
 
-predicate('$disp_file_name/3_$aux1'/3,1437,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux1'/3,1439,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -4015,7 +4027,7 @@ label(1),
     execute(format/2)]).
 
 
-predicate('$disp_file_name/3_$aux2'/2,1437,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux2'/2,1439,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4031,7 +4043,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_lines/1,1453,static,private,monofile,global,[
+predicate(disp_lines/1,1455,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,fail,fail,fail,1),
@@ -4073,7 +4085,7 @@ label(6),
     execute(format/2)]).
 
 
-predicate(disp_column/1,1462,static,private,monofile,global,[
+predicate(disp_column/1,1464,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4093,7 +4105,7 @@ label(1),
     execute(write/1)]).
 
 
-predicate(exception/1,1474,static,private,monofile,global,[
+predicate(exception/1,1476,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(11),
@@ -4193,7 +4205,7 @@ label(11),
     execute(error/2)]).
 
 
-predicate(handle_directive/3,688,static,private,monofile,global,[
+predicate(handle_directive/3,689,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(3,1,fail,fail,fail),
@@ -4640,7 +4652,7 @@ label(44),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux9'/2,826,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux9'/2,827,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4668,7 +4680,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux8'/2,805,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux8'/2,806,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4720,7 +4732,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux7'/2,788,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux7'/2,789,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4745,7 +4757,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux6'/1,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux6'/1,767,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4758,7 +4770,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux10'/0,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux10'/0,767,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4782,7 +4794,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux5'/1,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux5'/1,767,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4795,7 +4807,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux11'/0,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux11'/0,767,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4819,7 +4831,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux4'/1,735,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux4'/1,736,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4836,7 +4848,7 @@ label(1),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux3'/1,727,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux3'/1,728,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4853,7 +4865,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux2'/1,719,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux2'/1,720,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4870,7 +4882,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux1'/1,711,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux1'/1,712,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),0),
-- 
2.43.0


From e64204932f0a28229182f09467eda00a49d3deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 82/93] fix: the value saved by an invalidated g_assignb/2 was
 never freed

---
 src/BipsPl/g_var_inl_c.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 0a377bc..8fb8e1a 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -1217,12 +1217,20 @@ G_Untrail(int n, WamWord *arg_frame)
 {
   GUndo *u = (GUndo *) arg_frame[0];
   GVarElt *g_elem = u->g_elem;
+  GVarElt saved;
 
   if (g_elem)			/* valid entry ? */
     {
       G_Free_Element(g_elem, FALSE);
       g_elem->size = u->save_size;
       g_elem->val = u->save_val;
+    }
+  else				/* the saved value will never be restored */
+    {
+      saved.size = u->save_size;
+      saved.val = u->save_val;
+      saved.undo = NULL;
+      G_Free_Element(&saved, TRUE);
     }
 
 				/* remove undo record */
-- 
2.43.0


From bc11c260da5611108589c056e90c87addbe6f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 83/93] fix: clauses produced by term_expansion/2 were
 reordered when the first one ended a predicate

---
 src/Pl2Wam/read_file.pl  |  11 +-
 src/Pl2Wam/read_file.wam | 248 +++++++++++++++++++--------------------
 2 files changed, 130 insertions(+), 129 deletions(-)

diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index babb8d2..ea36836 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -437,17 +437,18 @@ get_file_name([of(PlFile, _, _)|_] + _, PlFile).
 
 
 
-get_next_clause(Pred, N, SrcCl) :-
-	retract(buff_raw_clause(Cl, Where)), !,
-	g_assign(where, Where),
-	get_next_clause2(Cl, Where, [], Pred, N, SrcCl).
-
+		% first the lookahead clause (read before those of buff_raw_clause)
 
 get_next_clause(Pred, N, SrcCl) :-
 	retract(buff_src_clause(Pred, N, SrcCl)), !,
 	SrcCl = Where + _,
 	g_assign(where, Where).
 
+get_next_clause(Pred, N, SrcCl) :-
+	retract(buff_raw_clause(Cl, Where)), !,
+	g_assign(where, Where),
+	get_next_clause2(Cl, Where, [], Pred, N, SrcCl).
+
 get_next_clause(Pred, N, SrcCl) :-
 	g_read(open_file_stack, OpenFileStack),
 	OpenFileStack = [of(_, Stream, _)|_],
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index be89922..4a78777 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: 7a517229e93ae9f5aaf70721c36d6213548ebee8  read_file.pl
+% hash: 6af4e4c78c6a9a3aefc018cfd15c7d38576e3c99  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -1030,10 +1030,31 @@ predicate(get_file_name/2,435,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_next_clause/3,440,static,private,monofile,global,[
+predicate(get_next_clause/3,442,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
+    allocate(2),
+    get_variable(y(0),2),
+    get_variable(x(2),0),
+    get_variable(y(1),3),
+    put_structure(buff_src_clause/3,0),
+    unify_local_value(x(2)),
+    unify_local_value(x(1)),
+    unify_local_value(y(0)),
+    call(retract/1),
+    cut(y(1)),
+    put_value(y(0),0),
+    get_structure((+)/2,0),
+    unify_variable(x(1)),
+    unify_void(1),
+    put_atom(where,0),
+    call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
+    deallocate,
+    proceed,
+
+label(1),
+    retry_me_else(2),
     allocate(6),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1056,27 +1077,6 @@ predicate(get_next_clause/3,440,static,private,monofile,global,[
     deallocate,
     execute(get_next_clause2/6),
 
-label(1),
-    retry_me_else(2),
-    allocate(2),
-    get_variable(y(0),2),
-    get_variable(x(2),0),
-    get_variable(y(1),3),
-    put_structure(buff_src_clause/3,0),
-    unify_local_value(x(2)),
-    unify_local_value(x(1)),
-    unify_local_value(y(0)),
-    call(retract/1),
-    cut(y(1)),
-    put_value(y(0),0),
-    get_structure((+)/2,0),
-    unify_variable(x(1)),
-    unify_void(1),
-    put_atom(where,0),
-    call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
-    deallocate,
-    proceed,
-
 label(2),
     trust_me_else_fail,
     allocate(9),
@@ -1127,7 +1127,7 @@ label(2),
     proceed]).
 
 
-predicate('$get_next_clause/3_$aux1'/8,451,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux1'/8,452,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -1193,7 +1193,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause/3_$aux2'/3,451,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux2'/3,452,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1210,7 +1210,7 @@ label(1),
     proceed]).
 
 
-predicate(get_next_clause1/7,471,static,private,monofile,global,[
+predicate(get_next_clause1/7,472,static,private,monofile,global,[
     pragma_arity(8),
     get_current_choice(x(7)),
     try_me_else(1),
@@ -1231,7 +1231,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate('$get_next_clause1/7_$aux1'/6,471,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux1'/6,472,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(1,2,fail,4,fail),
@@ -1264,7 +1264,7 @@ label(4),
     execute('$get_next_clause1/7_$aux2'/7)]).
 
 
-predicate('$get_next_clause1/7_$aux2'/7,471,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux2'/7,472,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -1287,7 +1287,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate(get_next_clause2/6,491,static,private,monofile,global,[
+predicate(get_next_clause2/6,492,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1395,7 +1395,7 @@ label(4),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause2/6_$aux4'/2,518,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux4'/2,519,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1411,7 +1411,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux3'/2,508,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux3'/2,509,static,private,monofile,local,[
     try_me_else(1),
     execute(handle_directive/2),
 
@@ -1424,7 +1424,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$get_next_clause2/6_$aux2'/1,508,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux2'/1,509,static,private,monofile,local,[
     try_me_else(1),
     put_atom(foreign_only,0),
     put_atom(f,1),
@@ -1439,7 +1439,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux1'/4,491,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux1'/4,492,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1463,7 +1463,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate(after_syn_error/0,539,static,private,monofile,global,[
+predicate(after_syn_error/0,540,static,private,monofile,global,[
     allocate(3),
     put_atom(syn_error_nb,1),
     put_variable(x(0),2),
@@ -1497,7 +1497,7 @@ predicate(after_syn_error/0,539,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(expand_error/3,551,static,private,monofile,global,[
+predicate(expand_error/3,552,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1536,7 +1536,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(display_singletons/1,563,static,private,monofile,global,[
+predicate(display_singletons/1,564,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1556,7 +1556,7 @@ label(1),
     proceed]).
 
 
-predicate('$display_singletons/1_$aux1'/1,563,static,private,monofile,local,[
+predicate('$display_singletons/1_$aux1'/1,564,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1573,7 +1573,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(get_singletons/2,576,static,private,monofile,global,[
+predicate(get_singletons/2,577,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1603,7 +1603,7 @@ label(4),
     execute(get_singletons/2)]).
 
 
-predicate('$get_singletons/2_$aux1'/3,578,static,private,monofile,local,[
+predicate('$get_singletons/2_$aux1'/3,579,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1630,7 +1630,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_term/1,600,static,private,monofile,global,[
+predicate(pp_handle_term/1,601,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1662,7 +1662,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_directive/1,611,static,private,monofile,global,[
+predicate(pp_handle_directive/1,612,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,1,fail,fail,2),
@@ -1708,7 +1708,7 @@ label(10),
     execute('$pp_handle_directive/1_$aux4'/0)]).
 
 
-predicate('$pp_handle_directive/1_$aux4'/0,640,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux4'/0,641,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1729,7 +1729,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux3'/1,628,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux3'/1,629,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1765,7 +1765,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux5'/2,628,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux5'/2,629,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -1796,7 +1796,7 @@ label(7),
     proceed]).
 
 
-predicate('$pp_handle_directive/1_$aux2'/1,618,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux2'/1,619,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1820,7 +1820,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux6'/3,618,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux6'/3,619,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1844,7 +1844,7 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate('$pp_handle_directive/1_$aux1'/2,611,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux1'/2,612,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1876,14 +1876,14 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate(pp_exec_if_goal/3,649,static,private,monofile,global,[
+predicate(pp_exec_if_goal/3,650,static,private,monofile,global,[
     get_variable(x(3),2),
     get_variable(x(2),1),
     put_value(x(3),1),
     execute('$pp_exec_if_goal/3_$aux1'/3)]).
 
 
-predicate('$pp_exec_if_goal/3_$aux1'/3,649,static,private,monofile,local,[
+predicate('$pp_exec_if_goal/3_$aux1'/3,650,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1930,14 +1930,14 @@ label(1),
     proceed]).
 
 
-predicate(pp_start/0,659,static,private,monofile,global,[
+predicate(pp_start/0,660,static,private,monofile,global,[
     put_atom(pp_stack,0),
     put_nil(1),
     call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
     proceed]).
 
 
-predicate(pp_stop/0,665,static,private,monofile,global,[
+predicate(pp_stop/0,666,static,private,monofile,global,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1954,7 +1954,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate(handle_directive/2,679,static,private,monofile,global,[
+predicate(handle_directive/2,680,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1981,7 +1981,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(foreign_get_options/1,856,static,private,monofile,global,[
+predicate(foreign_get_options/1,857,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(1,2,fail,4,fail),
@@ -2009,7 +2009,7 @@ label(4),
     execute(foreign_get_options/1)]).
 
 
-predicate(foreign_get_options1/1,863,static,private,monofile,global,[
+predicate(foreign_get_options1/1,864,static,private,monofile,global,[
     switch_on_term(3,fail,fail,fail,1),
 
 label(1),
@@ -2107,7 +2107,7 @@ label(14),
     proceed]).
 
 
-predicate('$foreign_get_options1/1_$aux1'/1,867,static,private,monofile,local,[
+predicate('$foreign_get_options1/1_$aux1'/1,868,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2135,7 +2135,7 @@ label(7),
     proceed]).
 
 
-predicate(foreign_check_types/4,897,static,private,monofile,global,[
+predicate(foreign_check_types/4,898,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -2177,7 +2177,7 @@ label(1),
     execute(foreign_check_types/4)]).
 
 
-predicate('$foreign_check_types/4_$aux1'/3,900,static,private,monofile,local,[
+predicate('$foreign_check_types/4_$aux1'/3,901,static,private,monofile,local,[
     switch_on_term(2,9,fail,fail,1),
 
 label(1),
@@ -2220,7 +2220,7 @@ label(9),
     proceed]).
 
 
-predicate(foreign_check_arg/1,918,static,private,monofile,global,[
+predicate(foreign_check_arg/1,919,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2339,7 +2339,7 @@ label(33),
     proceed]).
 
 
-predicate(embed_clause/3,938,static,private,monofile,global,[
+predicate(embed_clause/3,939,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2372,7 +2372,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_clause/3_$aux2'/2,938,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux2'/2,939,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2404,7 +2404,7 @@ label(1),
     execute(retractall/1)]).
 
 
-predicate('$embed_clause/3_$aux1'/3,938,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux1'/3,939,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2434,7 +2434,7 @@ label(7),
     proceed]).
 
 
-predicate(handle_init_directive/3,959,static,private,monofile,global,[
+predicate(handle_init_directive/3,960,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2458,7 +2458,7 @@ label(1),
     proceed]).
 
 
-predicate(embed_directive/2,967,static,private,monofile,global,[
+predicate(embed_directive/2,968,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2485,7 +2485,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux2'/0,967,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux2'/0,968,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -2509,7 +2509,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux1'/2,967,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux1'/2,968,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2538,7 +2538,7 @@ label(7),
     proceed]).
 
 
-predicate(exec_directive/1,985,static,private,monofile,global,[
+predicate(exec_directive/1,986,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2569,7 +2569,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(exec_directive_exception/2,993,static,private,monofile,global,[
+predicate(exec_directive_exception/2,994,static,private,monofile,global,[
     get_variable(x(2),1),
     put_list(1),
     unify_local_value(x(0)),
@@ -2580,7 +2580,7 @@ predicate(exec_directive_exception/2,993,static,private,monofile,global,[
     execute(warn/2)]).
 
 
-predicate(record_initialization/3,999,static,private,monofile,global,[
+predicate(record_initialization/3,1000,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2609,7 +2609,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate(add_empty_dyn/2,1008,static,private,monofile,global,[
+predicate(add_empty_dyn/2,1009,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2639,7 +2639,7 @@ label(4),
     execute(add_empty_dyn/2)]).
 
 
-predicate('$add_empty_dyn/2_$aux1'/3,1010,static,private,monofile,local,[
+predicate('$add_empty_dyn/2_$aux1'/3,1011,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2666,7 +2666,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_ensure_linked/1,1020,static,private,monofile,global,[
+predicate(add_ensure_linked/1,1021,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2693,7 +2693,7 @@ label(4),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$add_ensure_linked/1_$aux1'/2,1022,static,private,monofile,local,[
+predicate('$add_ensure_linked/1_$aux1'/2,1023,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2718,7 +2718,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_module_export_info/2,1033,static,private,monofile,global,[
+predicate(add_module_export_info/2,1034,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2748,7 +2748,7 @@ label(4),
     execute(add_module_export_info/2)]).
 
 
-predicate('$add_module_export_info/2_$aux1'/3,1035,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux1'/3,1036,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2791,7 +2791,7 @@ label(1),
     execute('$add_module_export_info/2_$aux2'/2)]).
 
 
-predicate('$add_module_export_info/2_$aux2'/2,1035,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux2'/2,1036,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2814,7 +2814,7 @@ label(1),
     proceed]).
 
 
-predicate(check_pi_specif/3,1051,static,private,monofile,global,[
+predicate(check_pi_specif/3,1052,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2840,7 +2840,7 @@ label(2),
     execute(check_pi_specif1/3)]).
 
 
-predicate(check_pi_specif1/3,1065,static,private,monofile,global,[
+predicate(check_pi_specif1/3,1066,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(10),
@@ -2921,7 +2921,7 @@ label(10),
     execute(error/2)]).
 
 
-predicate(check_callable/2,1090,static,private,monofile,global,[
+predicate(check_callable/2,1091,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2952,7 +2952,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_module_name/2,1104,static,private,monofile,global,[
+predicate(check_module_name/2,1105,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2976,7 +2976,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_head_is_module_free/1,1125,static,private,monofile,global,[
+predicate(check_head_is_module_free/1,1126,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2998,7 +2998,7 @@ label(1),
     proceed]).
 
 
-predicate(check_module_clash/2,1135,static,private,monofile,global,[
+predicate(check_module_clash/2,1136,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3038,7 +3038,7 @@ label(1),
     proceed]).
 
 
-predicate(get_owner_module/3,1147,static,private,monofile,global,[
+predicate(get_owner_module/3,1148,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3065,7 +3065,7 @@ label(1),
     proceed]).
 
 
-predicate(is_exported/2,1155,static,private,monofile,global,[
+predicate(is_exported/2,1156,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3082,7 +3082,7 @@ predicate(is_exported/2,1155,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_module_of_cur_pred/1,1161,static,private,monofile,global,[
+predicate(get_module_of_cur_pred/1,1162,static,private,monofile,global,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -3095,7 +3095,7 @@ predicate(get_module_of_cur_pred/1,1161,static,private,monofile,global,[
     execute('$get_module_of_cur_pred/1_$aux1'/3)]).
 
 
-predicate('$get_module_of_cur_pred/1_$aux1'/3,1161,static,private,monofile,local,[
+predicate('$get_module_of_cur_pred/1_$aux1'/3,1162,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3134,7 +3134,7 @@ label(2),
     proceed]).
 
 
-predicate(directive_set_flag_for_preds/2,1173,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds/2,1174,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(1,2,fail,4,fail),
@@ -3169,7 +3169,7 @@ label(4),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate(directive_set_flag_for_preds1/3,1180,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds1/3,1181,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3225,7 +3225,7 @@ label(3),
     execute('$directive_set_flag_for_preds1/3_$aux1'/3)]).
 
 
-predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1192,static,private,monofile,local,[
+predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1193,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(6),
@@ -3257,7 +3257,7 @@ label(6),
     proceed]).
 
 
-predicate(define_predicate/2,1204,static,private,monofile,global,[
+predicate(define_predicate/2,1205,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3319,7 +3319,7 @@ label(4),
     proceed]).
 
 
-predicate(flag_bit/2,1224,static,private,monofile,global,[
+predicate(flag_bit/2,1225,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3414,7 +3414,7 @@ label(23),
     proceed]).
 
 
-predicate(set_pred_flag/3,1240,static,private,monofile,global,[
+predicate(set_pred_flag/3,1241,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3442,7 +3442,7 @@ predicate(set_pred_flag/3,1240,static,private,monofile,global,[
     execute(assertz/1)]).
 
 
-predicate('$set_pred_flag/3_$aux1'/4,1240,static,private,monofile,local,[
+predicate('$set_pred_flag/3_$aux1'/4,1241,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -3462,7 +3462,7 @@ label(1),
     proceed]).
 
 
-predicate(unset_pred_flag/3,1251,static,private,monofile,global,[
+predicate(unset_pred_flag/3,1252,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3496,7 +3496,7 @@ label(1),
     proceed]).
 
 
-predicate(test_pred_flag/3,1262,static,private,monofile,global,[
+predicate(test_pred_flag/3,1263,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3523,7 +3523,7 @@ predicate(test_pred_flag/3,1262,static,private,monofile,global,[
     proceed]).
 
 
-predicate(test_not_pred_flag/3,1270,static,private,monofile,global,[
+predicate(test_not_pred_flag/3,1271,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3555,7 +3555,7 @@ label(1),
     proceed]).
 
 
-predicate(check_predicate/2,1325,static,private,monofile,global,[
+predicate(check_predicate/2,1326,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3670,7 +3670,7 @@ label(5),
     proceed]).
 
 
-predicate(reserved_predicate/2,1354,static,private,monofile,global,[
+predicate(reserved_predicate/2,1355,static,private,monofile,global,[
     switch_on_term(3,1,fail,fail,fail),
 
 label(1),
@@ -3705,7 +3705,7 @@ label(8),
     proceed]).
 
 
-predicate(bip/2,1359,static,private,monofile,global,[
+predicate(bip/2,1360,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3717,7 +3717,7 @@ predicate(bip/2,1359,static,private,monofile,global,[
     proceed]).
 
 
-predicate(control_construct/2,1367,static,private,monofile,global,[
+predicate(control_construct/2,1368,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3796,7 +3796,7 @@ label(19),
     proceed]).
 
 
-predicate(suspicious_predicate/2,1384,static,private,monofile,global,[
+predicate(suspicious_predicate/2,1385,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3861,7 +3861,7 @@ label(15),
     proceed]).
 
 
-predicate(warn/2,1395,static,private,monofile,global,[
+predicate(warn/2,1396,static,private,monofile,global,[
     put_value(x(0),2),
     put_value(x(1),3),
     put_atom(warning,0),
@@ -3869,7 +3869,7 @@ predicate(warn/2,1395,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(error/2,1401,static,private,monofile,global,[
+predicate(error/2,1402,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3886,7 +3886,7 @@ predicate(error/2,1401,static,private,monofile,global,[
     execute(abandon_exec/0)]).
 
 
-predicate('$error/2_$aux1'/1,1401,static,private,monofile,local,[
+predicate('$error/2_$aux1'/1,1402,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -3902,11 +3902,11 @@ label(1),
     proceed]).
 
 
-predicate(abandon_exec/0,1413,static,private,monofile,global,[
+predicate(abandon_exec/0,1414,static,private,monofile,global,[
     execute(abort/0)]).
 
 
-predicate(disp_msg/4,1419,static,private,monofile,global,[
+predicate(disp_msg/4,1420,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -3931,7 +3931,7 @@ predicate(disp_msg/4,1419,static,private,monofile,global,[
     execute(nl/0)]).
 
 
-predicate('$disp_msg/4_$aux1'/2,1419,static,private,monofile,local,[
+predicate('$disp_msg/4_$aux1'/2,1420,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3958,7 +3958,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_file_name/3,1436,static,private,monofile,global,[
+predicate(disp_file_name/3,1437,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(1,2,fail,4,fail),
@@ -3994,7 +3994,7 @@ label(4),
     execute('$disp_file_name/3_$aux1'/3)]).
 
 
-predicate('$disp_file_name/3_$aux1'/3,1439,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux1'/3,1440,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -4027,7 +4027,7 @@ label(1),
     execute(format/2)]).
 
 
-predicate('$disp_file_name/3_$aux2'/2,1439,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux2'/2,1440,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4043,7 +4043,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_lines/1,1455,static,private,monofile,global,[
+predicate(disp_lines/1,1456,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,fail,fail,fail,1),
@@ -4085,7 +4085,7 @@ label(6),
     execute(format/2)]).
 
 
-predicate(disp_column/1,1464,static,private,monofile,global,[
+predicate(disp_column/1,1465,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4105,7 +4105,7 @@ label(1),
     execute(write/1)]).
 
 
-predicate(exception/1,1476,static,private,monofile,global,[
+predicate(exception/1,1477,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(11),
@@ -4205,7 +4205,7 @@ label(11),
     execute(error/2)]).
 
 
-predicate(handle_directive/3,689,static,private,monofile,global,[
+predicate(handle_directive/3,690,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(3,1,fail,fail,fail),
@@ -4652,7 +4652,7 @@ label(44),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux9'/2,827,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux9'/2,828,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4680,7 +4680,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux8'/2,806,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux8'/2,807,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4732,7 +4732,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux7'/2,789,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux7'/2,790,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4757,7 +4757,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux6'/1,767,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux6'/1,768,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4770,7 +4770,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux10'/0,767,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux10'/0,768,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4794,7 +4794,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux5'/1,767,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux5'/1,768,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4807,7 +4807,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux11'/0,767,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux11'/0,768,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4831,7 +4831,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux4'/1,736,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux4'/1,737,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4848,7 +4848,7 @@ label(1),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux3'/1,728,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux3'/1,729,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4865,7 +4865,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux2'/1,720,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux2'/1,721,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4882,7 +4882,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux1'/1,712,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux1'/1,713,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),0),
-- 
2.43.0


From e9e9313f736a6f5ab6500de3690e9bca660e4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 84/93] fix: consult/2: buffer overflow with many options

---
 src/BipsPl/consult_c.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/BipsPl/consult_c.c b/src/BipsPl/consult_c.c
index 087f92a..593dca1 100644
--- a/src/BipsPl/consult_c.c
+++ b/src/BipsPl/consult_c.c
@@ -78,19 +78,13 @@ Pl_Consult_1(WamWord pl2wam_args_word)
   unsigned char *p = NULL;
   int c;
   int save_use_le_prompt;
-#if 0
-  /* MSVC does not accept C99 VLA (variable length arrays)
-     could use alloca (#include <alloca.h> on linux)
-     on windows/MSVC: _alloca/_malloca and #include <malloc.h>)
-  */
-  char *arg[2 + Pl_List_Length(pl2wam_args_word)];
- #else
-  char *arg[64];
-#endif
+  char **arg;
   WamWord word, tag_mask;
   WamWord *lst_adr;
   int n = 0;
 
+  arg = (char **) Malloc((2 + Pl_List_Length(pl2wam_args_word)) * sizeof(char *));
+
   arg[n++] = "pl2wam";
 
   for (;;)
@@ -115,6 +109,7 @@ Pl_Consult_1(WamWord pl2wam_args_word)
 
   Pl_Flush_All_Streams();
   pid = Pl_Spawn_Redirect(arg, FALSE, pf_in, &f_out, &f_out);
+  Free(arg);
 
   /* If pl2wam is not found we get ENOENT under Windows. 
    * Under Unix the information is only obtained at Pl_Get_Status(). */
-- 
2.43.0


From 429b650adfb60c1f327a960eef44200125fa72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 85/93] fix: consult/1 failed to read the byte-code when / was
 not an operator

---
 src/Pl2Wam/wam_emit.pl  | 11 ++++++---
 src/Pl2Wam/wam_emit.wam | 54 ++++++++++++++++++++++-------------------
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/Pl2Wam/wam_emit.pl b/src/Pl2Wam/wam_emit.pl
index f30761a..c980f01 100644
--- a/src/Pl2Wam/wam_emit.pl
+++ b/src/Pl2Wam/wam_emit.pl
@@ -205,8 +205,10 @@ emit_pred_start(Pred, N, PlFile, PlLine, Stream, _) :-
 	g_read(module, Module0),
 	export_type(Pred, N, Module0, _Module, ExportBplBfd),
   		% MODULES: then add Module:Pred/N instead of Pred/N in the next line
-	format(Stream, '~n~npredicate(~q,~d,~a,~a,~a,~a,',
-	       [Pred/N, PlLine, StaDyn, PubPriv, MonoMulti, ExportBplBfd]).
+	format(Stream, '~n~npredicate(', []),
+	emit_one_arg(Pred/N, Stream),
+	format(Stream, ',~d,~a,~a,~a,~a,',
+	       [PlLine, StaDyn, PubPriv, MonoMulti, ExportBplBfd]).
 
 
 
@@ -327,13 +329,14 @@ emit_one_arg(A, Stream) :-
   *    p(a edge b).
   *    :- op(0, xfx, edge).
   * will fail if edge is declared in the top-level before consult
+  * (written in functional notation: also works if / is no longer an operator)
   */
 
 emit_one_f_n(M:P/N, Stream) :-
-	format(Stream, '(~q):(~q)/~q', [M, P, N]).
+	format(Stream, ':(~q,/(~q,~q))', [M, P, N]).
 
 emit_one_f_n(F/N, Stream) :-
-	format(Stream, '(~q)/~q', [F, N]).
+	format(Stream, '/(~q,~q)', [F, N]).
 
 
 
diff --git a/src/Pl2Wam/wam_emit.wam b/src/Pl2Wam/wam_emit.wam
index 18c11ae..f5e192f 100644
--- a/src/Pl2Wam/wam_emit.wam
+++ b/src/Pl2Wam/wam_emit.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: wam_emit.pl
-% hash: 8a0d5b66b5fd299e58f0b5e69dae3b4f71ae25ac  wam_emit.pl
+% hash: 8ef02d4b54c68ccece6aad6bacc6c5cd155adc59  wam_emit.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/wam_emit.pl').
@@ -291,13 +291,17 @@ label(1),
     put_variable(y(7),4),
     call(export_type/5),
     put_value(y(3),0),
-    put_atom('~n~npredicate(~q,~d,~a,~a,~a,~a,',1),
-    put_structure((/)/2,3),
+    put_atom('~n~npredicate(',1),
+    put_nil(2),
+    call(format/3),
+    put_structure((/)/2,0),
     unify_local_value(y(0)),
     unify_local_value(y(1)),
+    put_value(y(3),1),
+    call(emit_one_arg/2),
+    put_value(y(3),0),
+    put_atom(',~d,~a,~a,~a,~a,',1),
     put_list(2),
-    unify_value(x(3)),
-    unify_list,
     unify_local_value(y(2)),
     unify_list,
     unify_local_value(y(4)),
@@ -404,7 +408,7 @@ label(5),
     proceed]).
 
 
-predicate(export_type/5,213,static,private,monofile,global,[
+predicate(export_type/5,215,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(1),
@@ -499,7 +503,7 @@ label(7),
     proceed]).
 
 
-predicate(emit_file_name_if_needed/2,239,static,private,monofile,global,[
+predicate(emit_file_name_if_needed/2,241,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -525,7 +529,7 @@ label(1),
     proceed]).
 
 
-predicate(emit_wam_code/3,249,static,private,monofile,global,[
+predicate(emit_wam_code/3,251,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(5),
@@ -604,7 +608,7 @@ label(7),
     execute(emit_one_inst/2)]).
 
 
-predicate('$emit_wam_code/3_$aux2'/2,263,static,private,monofile,local,[
+predicate('$emit_wam_code/3_$aux2'/2,265,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -621,7 +625,7 @@ label(1),
     execute(write/2)]).
 
 
-predicate('$emit_wam_code/3_$aux1'/2,263,static,private,monofile,local,[
+predicate('$emit_wam_code/3_$aux1'/2,265,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -645,7 +649,7 @@ label(1),
     execute(put_char/2)]).
 
 
-predicate(emit_one_inst/2,280,static,private,monofile,global,[
+predicate(emit_one_inst/2,282,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -678,7 +682,7 @@ label(1),
     execute(put_char/2)]).
 
 
-predicate(emit_args/4,291,static,private,monofile,global,[
+predicate(emit_args/4,293,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -712,7 +716,7 @@ label(1),
     execute(emit_args/4)]).
 
 
-predicate('$emit_args/4_$aux1'/2,294,static,private,monofile,local,[
+predicate('$emit_args/4_$aux1'/2,296,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -729,7 +733,7 @@ label(1),
     execute(put_char/2)]).
 
 
-predicate(emit_one_arg/2,305,static,private,monofile,global,[
+predicate(emit_one_arg/2,307,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -791,7 +795,7 @@ label(2),
     execute(writeq/2)]).
 
 
-predicate(emit_one_f_n/2,332,static,private,monofile,global,[
+predicate(emit_one_f_n/2,335,static,private,monofile,global,[
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
@@ -814,7 +818,7 @@ label(3),
     unify_value(x(0)),
     unify_nil,
     put_value(x(1),0),
-    put_atom('(~q):(~q)/~q',1),
+    put_atom(':(~q,/(~q,~q))',1),
     execute(format/3),
 
 label(4),
@@ -830,11 +834,11 @@ label(5),
     unify_value(x(0)),
     unify_nil,
     put_value(x(1),0),
-    put_atom('(~q)/~q',1),
+    put_atom('/(~q,~q)',1),
     execute(format/3)]).
 
 
-predicate(emit_list/4,341,static,private,monofile,global,[
+predicate(emit_list/4,344,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -889,7 +893,7 @@ label(4),
     execute(emit_list/4)]).
 
 
-predicate(emit_ensure_linked/0,352,static,private,monofile,global,[
+predicate(emit_ensure_linked/0,355,static,private,monofile,global,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -926,7 +930,7 @@ label(1),
     proceed]).
 
 
-predicate('$emit_ensure_linked/0_$aux1'/1,352,static,private,monofile,local,[
+predicate('$emit_ensure_linked/0_$aux1'/1,355,static,private,monofile,local,[
     try_me_else(1),
     allocate(3),
     get_variable(y(0),0),
@@ -951,7 +955,7 @@ label(1),
     proceed]).
 
 
-predicate(bc_emit_code/5,369,static,private,monofile,global,[
+predicate(bc_emit_code/5,372,static,private,monofile,global,[
     allocate(3),
     get_variable(y(0),4),
     put_atom(streamwamfile,4),
@@ -967,7 +971,7 @@ predicate(bc_emit_code/5,369,static,private,monofile,global,[
     execute('$bc_emit_code/5_$aux1'/3)]).
 
 
-predicate('$bc_emit_code/5_$aux1'/3,369,static,private,monofile,local,[
+predicate('$bc_emit_code/5_$aux1'/3,372,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1017,7 +1021,7 @@ label(1),
     execute(bc_emit_lst_clause/2)]).
 
 
-predicate('$bc_emit_code/5_$aux2'/4,369,static,private,monofile,local,[
+predicate('$bc_emit_code/5_$aux2'/4,372,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1041,7 +1045,7 @@ label(1),
     proceed]).
 
 
-predicate(bc_emit_lst_clause/2,390,static,private,monofile,global,[
+predicate(bc_emit_lst_clause/2,393,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1087,7 +1091,7 @@ label(4),
     execute(bc_emit_lst_clause/2)]).
 
 
-predicate(bc_emit_prolog_term/2,403,static,private,monofile,global,[
+predicate(bc_emit_prolog_term/2,406,static,private,monofile,global,[
     try_me_else(1),
     allocate(3),
     get_variable(y(0),0),
-- 
2.43.0


From 686fbee3b721ac07563591775bfd49bb5ed64834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 86/93] fix: consult/1: the current char conversions altered
 the byte-code and the default include file

---
 src/BipsPl/consult.pl  |  40 ++++++--
 src/BipsPl/consult.wam | 213 +++++++++++++++++++++++++++--------------
 2 files changed, 172 insertions(+), 81 deletions(-)

diff --git a/src/BipsPl/consult.pl b/src/BipsPl/consult.pl
index 5a7c42c..9da6cc6 100644
--- a/src/BipsPl/consult.pl
+++ b/src/BipsPl/consult.pl
@@ -222,12 +222,6 @@ write_default_include_file(IncludeFile) :-
 	),
 	'$sys_var_read'(20, SysVar), % SYS_VAR_SAY_GETC
 	'$write_include_goal'(S, '$sys_var_write'(20, SysVar)),
-	(   current_char_conversion(Ch1, Ch2),
-	    '$write_include_goal'(S, char_conversion(Ch1, Ch2)),
-	    fail
-	;
-	    true
-	),
 		%%% any drawback in adding term_expansion/2 clauses ? %%%
 	format(S, ':- discontiguous(term_expansion/2).~n', []),
 	(   TermHead = term_expansion(_, _),
@@ -236,13 +230,27 @@ write_default_include_file(IncludeFile) :-
 	    true
 	),
 		%%% end of term_expansion/2 inclusion %%%
-	format(S, ':- compiler_mode(default).~n', []),
+		% must be the last (the conversions apply to what follows: hence only one goal and a quoted directive)
+	(   findall(char_conversion(Ch1, Ch2), current_char_conversion(Ch1, Ch2), [Conv|LConv]) ->
+	    '$list_to_conj'(LConv, Conv, Conj),
+	    '$write_include_goal'(S, Conj)
+	;
+	    true
+	),
+	format(S, ':- \'compiler_mode\'(\'default\').~n', []),
 	close(S),
 	fail.			% GC
 
 write_default_include_file(_).
 
 
+'$list_to_conj'([], G, G).
+
+'$list_to_conj'([G1|L], G, (G, Conj)) :-
+	'$list_to_conj'(L, G1, Conj).
+
+
+
 '$write_include_goal'(S, Goal) :-
 	format(S, ':- initialization(~q).~n', [Goal]).
 
@@ -371,7 +379,7 @@ write_default_include_file(_).
 	g_read('$pl_file', PlFile), % save reentrancy (a directive invoking consult modifies '$pl_file')
 	open(BCFile, read, Stream),
 	repeat,
-	read(Stream, P),
+	'$load_read'(Stream, P),
 	(   P = end_of_file ->
 	    !
 	;   '$load_pred'(P, Stream),
@@ -382,6 +390,20 @@ write_default_include_file(_).
 
 
 
+	% the byte-code is not subject to char conversion
+
+'$load_read'(Stream, T) :-
+	current_prolog_flag(char_conversion, on), !,
+	set_prolog_flag(char_conversion, off),
+	read(Stream, T1),
+	set_prolog_flag(char_conversion, on),
+	T = T1.
+
+'$load_read'(Stream, T) :-
+	read(Stream, T).
+
+
+
 
 '$load_pred'(file_name(PlFile), _) :-
 	g_assign('$pl_file', PlFile).
@@ -413,7 +435,7 @@ write_default_include_file(_).
 	g_assign('$ctr', Ctr1),
 	(   Ctr = NbCl ->
 	    true
-	;   read(Stream, clause(Cl, WamCl)),
+	;   '$load_read'(Stream, clause(Cl, WamCl)),
 	    '$add_clause_term_and_bc'(Cl, PlFile, WamCl),
 	    fail
 	), !.
diff --git a/src/BipsPl/consult.wam b/src/BipsPl/consult.wam
index c161d94..9f52ac5 100644
--- a/src/BipsPl/consult.wam
+++ b/src/BipsPl/consult.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: consult.pl
-% hash: 60672638177dc2f83e4449ffa409fe8cd03d948d  consult.pl
+% hash: f52df5d5d9a97f8d5c661299e6924dafa4416bd4  consult.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/consult.pl').
@@ -507,15 +507,15 @@ predicate(write_default_include_file/1,202,static,private,monofile,built_in,[
     unify_local_value(y(2)),
     call('$write_include_goal'/2),
     put_value(y(1),0),
-    call('$write_default_include_file/1_$aux3'/1),
-    put_value(y(1),0),
     put_atom(':- discontiguous(term_expansion/2).~n',1),
     put_nil(2),
     call(format/3),
     put_value(y(1),0),
+    call('$write_default_include_file/1_$aux3'/1),
+    put_value(y(1),0),
     call('$write_default_include_file/1_$aux4'/1),
     put_value(y(1),0),
-    put_atom(':- compiler_mode(default).~n',1),
+    put_atom(':- ''compiler_mode''(''default'').~n',1),
     put_nil(2),
     call(format/3),
     put_value(y(1),0),
@@ -528,6 +528,38 @@ label(1),
 
 
 predicate('$write_default_include_file/1_$aux4'/1,202,static,private,monofile,local,[
+    pragma_arity(2),
+    get_current_choice(x(1)),
+    try_me_else(1),
+    allocate(5),
+    get_variable(y(0),0),
+    get_variable(y(1),1),
+    put_structure(char_conversion/2,0),
+    unify_variable(x(3)),
+    unify_variable(x(2)),
+    put_structure(current_char_conversion/2,1),
+    unify_value(x(3)),
+    unify_value(x(2)),
+    put_list(2),
+    unify_variable(y(2)),
+    unify_variable(y(3)),
+    call(findall/3),
+    cut(y(1)),
+    put_value(y(3),0),
+    put_value(y(2),1),
+    put_variable(y(4),2),
+    call('$list_to_conj'/3),
+    put_value(y(0),0),
+    put_unsafe_value(y(4),1),
+    deallocate,
+    execute('$write_include_goal'/2),
+
+label(1),
+    trust_me_else_fail,
+    proceed]).
+
+
+predicate('$write_default_include_file/1_$aux3'/1,202,static,private,monofile,local,[
     try_me_else(1),
     put_structure(term_expansion/2,4),
     unify_void(2),
@@ -557,25 +589,6 @@ label(1),
     proceed]).
 
 
-predicate('$write_default_include_file/1_$aux3'/1,202,static,private,monofile,local,[
-    try_me_else(1),
-    allocate(3),
-    get_variable(y(0),0),
-    put_variable(y(1),0),
-    put_variable(y(2),1),
-    call(current_char_conversion/2),
-    put_value(y(0),0),
-    put_structure(char_conversion/2,1),
-    unify_local_value(y(1)),
-    unify_local_value(y(2)),
-    call('$write_include_goal'/2),
-    fail,
-
-label(1),
-    trust_me_else_fail,
-    proceed]).
-
-
 predicate('$write_default_include_file/1_$aux2'/2,202,static,private,monofile,local,[
     try_me_else(1),
     allocate(3),
@@ -626,7 +639,32 @@ label(1),
     proceed]).
 
 
-predicate('$write_include_goal'/2,246,static,private,monofile,built_in,[
+predicate('$list_to_conj'/3,247,static,private,monofile,built_in,[
+    switch_on_term(1,2,fail,4,fail),
+
+label(1),
+    try_me_else(3),
+
+label(2),
+    get_nil(0),
+    get_value(x(2),1),
+    proceed,
+
+label(3),
+    trust_me_else_fail,
+
+label(4),
+    get_variable(x(3),1),
+    get_list(0),
+    unify_variable(x(1)),
+    unify_variable(x(0)),
+    get_structure((',')/2,2),
+    unify_local_value(x(3)),
+    unify_variable(x(2)),
+    execute('$list_to_conj'/3)]).
+
+
+predicate('$write_include_goal'/2,254,static,private,monofile,built_in,[
     put_list(2),
     unify_local_value(x(1)),
     unify_nil,
@@ -634,7 +672,7 @@ predicate('$write_include_goal'/2,246,static,private,monofile,built_in,[
     execute(format/3)]).
 
 
-predicate('$consult2'/2,252,static,private,monofile,built_in,[
+predicate('$consult2'/2,260,static,private,monofile,built_in,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -680,7 +718,7 @@ label(7),
     proceed]).
 
 
-predicate('$list_to_atom'/2,264,static,private,monofile,built_in,[
+predicate('$list_to_atom'/2,272,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -693,7 +731,7 @@ predicate('$list_to_atom'/2,264,static,private,monofile,built_in,[
     execute('$$list_to_atom/2_$aux1'/3)]).
 
 
-predicate('$$list_to_atom/2_$aux1'/3,264,static,private,monofile,local,[
+predicate('$$list_to_atom/2_$aux1'/3,272,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -715,7 +753,7 @@ label(1),
     execute(close_output_atom_stream/2)]).
 
 
-predicate('$consult_assert'/1,280,static,private,monofile,built_in,[
+predicate('$consult_assert'/1,288,static,private,monofile,built_in,[
     allocate(1),
     get_variable(y(0),0),
     put_structure('$consult_assert'/2,0),
@@ -727,7 +765,7 @@ predicate('$consult_assert'/1,280,static,private,monofile,built_in,[
     execute('$consult_assert1'/2)]).
 
 
-predicate('$consult_assert1'/2,285,static,private,monofile,built_in,[
+predicate('$consult_assert1'/2,293,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(7),
@@ -761,7 +799,7 @@ predicate('$consult_assert1'/2,285,static,private,monofile,built_in,[
     execute(close/1)]).
 
 
-predicate('$open_pl_file'/4,298,static,private,monofile,built_in,[
+predicate('$open_pl_file'/4,306,static,private,monofile,built_in,[
     try_me_else(1),
     get_atom(user,0),
     get_atom(user,2),
@@ -819,7 +857,7 @@ label(3),
     execute('$throw'/4)]).
 
 
-predicate('$try_parent_dir'/4,318,static,private,monofile,built_in,[
+predicate('$try_parent_dir'/4,326,static,private,monofile,built_in,[
     switch_on_term(2,fail,fail,1,fail),
 
 label(1),
@@ -870,7 +908,7 @@ label(5),
     execute('$try_parent_dir'/4)]).
 
 
-predicate('$treat_term'/2,331,static,private,monofile,built_in,[
+predicate('$treat_term'/2,339,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(5),
@@ -917,7 +955,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate('$$treat_term/2_$aux2'/2,337,static,private,monofile,local,[
+predicate('$$treat_term/2_$aux2'/2,345,static,private,monofile,local,[
     try_me_else(1),
     get_variable(x(2),0),
     put_structure('$consult_assert'/2,0),
@@ -943,7 +981,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate('$$treat_term/2_$aux1'/2,337,static,private,monofile,local,[
+predicate('$$treat_term/2_$aux1'/2,345,static,private,monofile,local,[
     try_me_else(1),
     get_structure((:-)/2,0),
     unify_local_value(x(1)),
@@ -956,7 +994,7 @@ label(1),
     proceed]).
 
 
-predicate('$treat_directive'/2,350,static,private,monofile,built_in,[
+predicate('$treat_directive'/2,358,static,private,monofile,built_in,[
     try_me_else(12),
     switch_on_term(2,fail,fail,fail,1),
 
@@ -1018,7 +1056,7 @@ label(12),
     execute(format/2)]).
 
 
-predicate('$load_file'/1,370,static,private,monofile,built_in,[
+predicate('$load_file'/1,378,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     allocate(4),
@@ -1032,7 +1070,7 @@ predicate('$load_file'/1,370,static,private,monofile,built_in,[
     call(repeat/0),
     put_value(y(2),0),
     put_variable(y(3),1),
-    call(read/2),
+    call('$load_read'/2),
     put_value(y(3),0),
     put_value(y(0),1),
     put_value(y(2),2),
@@ -1045,7 +1083,7 @@ predicate('$load_file'/1,370,static,private,monofile,built_in,[
     execute(close/1)]).
 
 
-predicate('$$load_file/1_$aux1'/3,370,static,private,monofile,local,[
+predicate('$$load_file/1_$aux1'/3,378,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1062,7 +1100,38 @@ label(1),
     fail]).
 
 
-predicate('$load_pred'/2,386,static,private,monofile,built_in,[
+predicate('$load_read'/2,395,static,private,monofile,built_in,[
+    pragma_arity(3),
+    get_current_choice(x(2)),
+    try_me_else(1),
+    allocate(4),
+    get_variable(y(0),0),
+    get_variable(y(1),1),
+    get_variable(y(2),2),
+    put_atom(char_conversion,0),
+    put_atom(on,1),
+    call(current_prolog_flag/2),
+    cut(y(2)),
+    put_atom(char_conversion,0),
+    put_atom(off,1),
+    call(set_prolog_flag/2),
+    put_value(y(0),0),
+    put_variable(y(3),1),
+    call(read/2),
+    put_atom(char_conversion,0),
+    put_atom(on,1),
+    call(set_prolog_flag/2),
+    put_value(y(1),0),
+    get_value(y(3),0),
+    deallocate,
+    proceed,
+
+label(1),
+    trust_me_else_fail,
+    execute(read/2)]).
+
+
+predicate('$load_pred'/2,408,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(2,fail,fail,fail,1),
@@ -1157,7 +1226,7 @@ label(7),
     proceed]).
 
 
-predicate('$$load_pred/2_$aux3'/4,399,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux3'/4,421,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1173,7 +1242,7 @@ label(1),
     put_structure(clause/2,1),
     unify_variable(y(1)),
     unify_variable(y(2)),
-    call(read/2),
+    call('$load_read'/2),
     put_value(y(1),0),
     put_value(y(0),1),
     put_value(y(2),2),
@@ -1181,7 +1250,7 @@ label(1),
     fail]).
 
 
-predicate('$$load_pred/2_$aux2'/6,399,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux2'/6,421,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1204,7 +1273,7 @@ label(1),
     execute('$check_owner_files'/3)]).
 
 
-predicate('$$load_pred/2_$aux1'/4,389,static,private,monofile,local,[
+predicate('$$load_pred/2_$aux1'/4,411,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1241,7 +1310,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$load_directive_exception'/3,425,static,private,monofile,built_in,[
+predicate('$load_directive_exception'/3,447,static,private,monofile,built_in,[
     get_variable(x(3),2),
     put_atom('$pl_file',2),
     put_variable(x(4),5),
@@ -1260,7 +1329,7 @@ predicate('$load_directive_exception'/3,425,static,private,monofile,built_in,[
     execute(format/3)]).
 
 
-predicate('$check_pred_type'/4,432,static,private,monofile,built_in,[
+predicate('$check_pred_type'/4,454,static,private,monofile,built_in,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1287,7 +1356,7 @@ label(1),
     proceed]).
 
 
-predicate('$$check_pred_type/4_$aux1'/4,432,static,private,monofile,local,[
+predicate('$$check_pred_type/4_$aux1'/4,454,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1316,7 +1385,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$check_owner_files'/3,445,static,private,monofile,built_in,[
+predicate('$check_owner_files'/3,467,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1350,7 +1419,7 @@ label(1),
     proceed]).
 
 
-predicate('$$check_owner_files/3_$aux1'/6,445,static,private,monofile,local,[
+predicate('$$check_owner_files/3_$aux1'/6,467,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1388,7 +1457,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate(load/1,460,static,private,monofile,built_in,[
+predicate(load/1,482,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     allocate(2),
@@ -1403,7 +1472,7 @@ predicate(load/1,460,static,private,monofile,built_in,[
     execute('$load/1_$aux1'/1)]).
 
 
-predicate('$load/1_$aux1'/1,460,static,private,monofile,local,[
+predicate('$load/1_$aux1'/1,482,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1418,7 +1487,7 @@ label(1),
     execute('$load1'/1)]).
 
 
-predicate('$load1'/1,470,static,private,monofile,built_in,[
+predicate('$load1'/1,492,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1442,7 +1511,7 @@ label(4),
     execute('$load1'/1)]).
 
 
-predicate('$load2'/1,477,static,private,monofile,built_in,[
+predicate('$load2'/1,499,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     put_value(y(0),0),
@@ -1465,7 +1534,7 @@ predicate('$load2'/1,477,static,private,monofile,built_in,[
     execute('$load_file'/1)]).
 
 
-predicate('$$load2/1_$aux2'/2,477,static,private,monofile,local,[
+predicate('$$load2/1_$aux2'/2,499,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1483,7 +1552,7 @@ label(1),
     execute('$pl_err_existence'/2)]).
 
 
-predicate('$$load2/1_$aux1'/3,477,static,private,monofile,local,[
+predicate('$$load2/1_$aux1'/3,499,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1499,22 +1568,22 @@ label(1),
     proceed]).
 
 
-predicate('$bc_start_pred'/8,495,static,private,monofile,built_in,[
+predicate('$bc_start_pred'/8,517,static,private,monofile,built_in,[
     call_c('Pl_BC_Start_Pred_8',[],[x(0),x(1),x(2),x(3),x(4),x(5),x(6),x(7)]),
     proceed]).
 
 
-predicate('$bc_start_emit'/0,499,static,private,monofile,built_in,[
+predicate('$bc_start_emit'/0,521,static,private,monofile,built_in,[
     call_c('Pl_BC_Start_Emit_0',[],[]),
     proceed]).
 
 
-predicate('$bc_stop_emit'/0,502,static,private,monofile,built_in,[
+predicate('$bc_stop_emit'/0,524,static,private,monofile,built_in,[
     call_c('Pl_BC_Stop_Emit_0',[],[]),
     proceed]).
 
 
-predicate('$bc_emit'/1,505,static,private,monofile,built_in,[
+predicate('$bc_emit'/1,527,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1538,24 +1607,24 @@ label(4),
     execute('$bc_emit'/1)]).
 
 
-predicate('$bc_emit_inst'/1,511,static,private,monofile,built_in,[
+predicate('$bc_emit_inst'/1,533,static,private,monofile,built_in,[
     call_c('Pl_BC_Emit_Inst_1',[],[x(0)]),
     proceed]).
 
 
-predicate('$bc_emulate_cont'/0,517,static,private,monofile,built_in,[
+predicate('$bc_emulate_cont'/0,539,static,private,monofile,built_in,[
     call_c('Pl_BC_Emulate_Cont_0',[jump],[]),
     proceed]).
 
 
-predicate('$add_clause_term'/2,523,static,private,monofile,built_in,[
+predicate('$add_clause_term'/2,545,static,private,monofile,built_in,[
     put_value(x(1),3),
     put_integer(0,1),
     put_integer(0,2),
     execute('$assert'/4)]).
 
 
-predicate('$add_clause_term_and_bc'/3,529,static,private,monofile,built_in,[
+predicate('$add_clause_term_and_bc'/3,551,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1570,7 +1639,7 @@ predicate('$add_clause_term_and_bc'/3,529,static,private,monofile,built_in,[
     execute('$add_clause_term'/2)]).
 
 
-predicate(listing/0,540,static,private,monofile,built_in,[
+predicate(listing/0,562,static,private,monofile,built_in,[
     allocate(0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[listing,0]),
     put_integer(5,0),
@@ -1581,7 +1650,7 @@ predicate(listing/0,540,static,private,monofile,built_in,[
     execute('$listing_all'/1)]).
 
 
-predicate(listing/1,549,static,private,monofile,built_in,[
+predicate(listing/1,571,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1613,7 +1682,7 @@ label(2),
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/0,566,static,private,monofile,built_in,[
+predicate('$listing_any'/0,588,static,private,monofile,built_in,[
     allocate(0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],['$listing_any',0]),
     put_integer(5,0),
@@ -1624,7 +1693,7 @@ predicate('$listing_any'/0,566,static,private,monofile,built_in,[
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/1,573,static,private,monofile,built_in,[
+predicate('$listing_any'/1,595,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1656,7 +1725,7 @@ label(2),
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_all'/1,593,static,private,monofile,built_in,[
+predicate('$listing_all'/1,615,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(3),
     get_variable(x(2),0),
@@ -1688,7 +1757,7 @@ label(1),
     proceed]).
 
 
-predicate('$listing_one_pi'/3,603,static,private,monofile,built_in,[
+predicate('$listing_one_pi'/3,625,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1710,7 +1779,7 @@ predicate('$listing_one_pi'/3,603,static,private,monofile,built_in,[
     execute('$predicate_property_pi_any'/2)]).
 
 
-predicate('$$listing_one_pi/3_$aux1'/1,603,static,private,monofile,local,[
+predicate('$$listing_one_pi/3_$aux1'/1,625,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1739,7 +1808,7 @@ label(1),
     execute('$not_aux_name'/1)]).
 
 
-predicate('$listing_one'/1,629,static,private,monofile,built_in,[
+predicate('$listing_one'/1,651,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1804,7 +1873,7 @@ predicate('$$prop_meta_pred/3_$aux3'/3,53,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux4'/3,547,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux4'/3,569,static,private,monofile,local,[
     get_atom(listing,0),
     get_integer(1,1),
     get_structure(listing/1,2),
@@ -1859,7 +1928,7 @@ directive(53,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(547,system,[
+directive(569,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux4'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(listing),
-- 
2.43.0


From 7984618adcc4622ccfbaae8c74847fd66a96820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:04 +0000
Subject: [PATCH 87/93] fix: gplc --no-call-c refused programs with arithmetic,
 term_hash/2 or dynamic clauses (the compiler's own '$call_c' goals)

---
 src/Pl2Wam/read_file.pl  |  2 +-
 src/Pl2Wam/read_file.wam |  4 +--
 src/Pl2Wam/syn_sugar.pl  | 11 +++++---
 src/Pl2Wam/syn_sugar.wam | 56 +++++++++++++++++++++++++---------------
 4 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index ea36836..47b79e6 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -399,7 +399,7 @@ create_exe_clauses_for_dyn_pred([SrcCl|LSrcCl], Pred, N) :-
 	SrcCl = Where + Cl,
 	get_file_name(Where, PlFile),
 	add_wrapper_to_dyn_clause(Pred, N, Where + Cl, AuxName),
-	record_initialization(system, ('$call_c'('Pl_Emit_BC_Execute_Wrapper'(Pred, N, &(AuxName/N)), [by_value]), '$add_clause_term'(Cl, PlFile)), Where),
+	record_initialization(system, ('$call_c_internal'('Pl_Emit_BC_Execute_Wrapper'(Pred, N, &(AuxName/N)), [by_value]), '$add_clause_term'(Cl, PlFile)), Where),
 	create_exe_clauses_for_dyn_pred(LSrcCl, Pred, N).
 
 
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index 4a78777..a61ec2e 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: 6af4e4c78c6a9a3aefc018cfd15c7d38576e3c99  read_file.pl
+% hash: a9f86ee37702f2ba4a47808cc24f2fd34475ceef  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -895,7 +895,7 @@ label(4),
     unify_structure((/)/2),
     unify_local_value(y(6)),
     unify_local_value(y(2)),
-    put_structure('$call_c'/2,2),
+    put_structure('$call_c_internal'/2,2),
     unify_value(x(1)),
     unify_list,
     unify_atom(by_value),
diff --git a/src/Pl2Wam/syn_sugar.pl b/src/Pl2Wam/syn_sugar.pl
index f8c3ead..df17e3e 100644
--- a/src/Pl2Wam/syn_sugar.pl
+++ b/src/Pl2Wam/syn_sugar.pl
@@ -388,9 +388,9 @@ pred_rewriting(fd_tell(X), T) :-                          % FD transformation
 pred_rewriting(set_bip_name(Name, Arity), Pred1) :-
 	g_read(inline, t),      % also if byte code since implies --no-inline
 	(   atom(Name), integer(Arity) ->
-	    CallC = '$call_c'('Pl_Set_Bip_Name_Untagged_2'(Name, Arity), [by_value])
+	    CallC = '$call_c_internal'('Pl_Set_Bip_Name_Untagged_2'(Name, Arity), [by_value])
 	;
-	    CallC = '$call_c'('Pl_Set_Bip_Name_2'(Name, Arity))
+	    CallC = '$call_c_internal'('Pl_Set_Bip_Name_2'(Name, Arity), [])
 	),
 	pred_rewriting(CallC, Pred1).
 
@@ -409,7 +409,7 @@ pred_rewriting(term_hash(Term, Hash), Pred1) :-
 	catch(term_hash(Term, Hash1), _, fail), % if there is an error, do not inline !
 	integer(Hash1), !,
 	pred_rewriting(set_bip_name(term_hash, 2), T),
-	pred_rewriting('$call_c'('Pl_Un_Integer_Check'(Hash1, Hash), [boolean]), T2),
+	pred_rewriting('$call_c_internal'('Pl_Un_Integer_Check'(Hash1, Hash), [boolean]), T2),
 	Pred1 = (T, T2).
 
 pred_rewriting(term_hash(Term, Depth, Range, Hash), Pred1) :-
@@ -417,7 +417,7 @@ pred_rewriting(term_hash(Term, Depth, Range, Hash), Pred1) :-
 	catch(term_hash(Term, Depth, Range, Hash1), _, fail), % if there is an error, do not inline !
 	integer(Hash1), !,
 	pred_rewriting(set_bip_name(term_hash, 4), T),
-	pred_rewriting('$call_c'('Pl_Un_Integer_Check'(Hash1, Hash), [boolean, by_value]), T2),
+	pred_rewriting('$call_c_internal'('Pl_Un_Integer_Check'(Hash1, Hash), [boolean, by_value]), T2),
 	Pred1 = (T, T2).
 
 	/* The user should use: '$call_c'(F) or '$call_c'(F, LCOpt)
@@ -434,6 +434,9 @@ pred_rewriting(term_hash(Term, Depth, Range, Hash), Pred1) :-
 	 * kept for the moment...
 	 */
 
+pred_rewriting('$call_c_internal'(F, LCOpt), '$call_c'(F, LCOpt1)) :- % generated by the compiler
+	mk_no_internal_transf(LCOpt, LCOpt1).   % (not affected by --no-call-c)
+
 pred_rewriting('$call_c'(F, LCOpt), '$call_c'(F, LCOpt1)) :-
 	test_c_call_allowed('$call_c'/2),
 	check_callable(F, 'C function name'),
diff --git a/src/Pl2Wam/syn_sugar.wam b/src/Pl2Wam/syn_sugar.wam
index b452cfc..87a000c 100644
--- a/src/Pl2Wam/syn_sugar.wam
+++ b/src/Pl2Wam/syn_sugar.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: syn_sugar.pl
-% hash: b772e34609c1ef24fe6b025a4d576298d39645c9  syn_sugar.pl
+% hash: 58d649b7e6fb8f2b17ce21cd6ca2a466804d7daa  syn_sugar.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/syn_sugar.pl').
@@ -1123,11 +1123,11 @@ label(6),
     proceed,
 
 label(7),
-    retry_me_else(21),
+    retry_me_else(23),
     switch_on_term(9,fail,fail,fail,8),
 
 label(8),
-    switch_on_structure([(term_hash/2,10),(term_hash/4,12),('$call_c'/2,14),('$call_c'/1,16),('$call_c_test'/1,18),('$call_c_jump'/1,20)]),
+    switch_on_structure([(term_hash/2,10),(term_hash/4,12),('$call_c_internal'/2,14),('$call_c'/2,16),('$call_c'/1,18),('$call_c_test'/1,20),('$call_c_jump'/1,22)]),
 
 label(9),
     try_me_else(11),
@@ -1162,7 +1162,7 @@ label(10),
     put_structure('Pl_Un_Integer_Check'/2,1),
     unify_value(y(3)),
     unify_value(y(0)),
-    put_structure('$call_c'/2,0),
+    put_structure('$call_c_internal'/2,0),
     unify_value(x(1)),
     unify_list,
     unify_atom(boolean),
@@ -1213,7 +1213,7 @@ label(12),
     put_structure('Pl_Un_Integer_Check'/2,1),
     unify_value(y(3)),
     unify_value(y(0)),
-    put_structure('$call_c'/2,0),
+    put_structure('$call_c_internal'/2,0),
     unify_value(x(1)),
     unify_list,
     unify_atom(boolean),
@@ -1233,6 +1233,18 @@ label(13),
     retry_me_else(15),
 
 label(14),
+    get_structure('$call_c_internal'/2,0),
+    unify_variable(x(2)),
+    unify_variable(x(0)),
+    get_structure('$call_c'/2,1),
+    unify_value(x(2)),
+    unify_variable(x(1)),
+    execute(mk_no_internal_transf/2),
+
+label(15),
+    retry_me_else(17),
+
+label(16),
     allocate(3),
     get_structure('$call_c'/2,0),
     unify_variable(y(0)),
@@ -1252,10 +1264,10 @@ label(14),
     deallocate,
     execute(mk_no_internal_transf/2),
 
-label(15),
-    retry_me_else(17),
+label(17),
+    retry_me_else(19),
 
-label(16),
+label(18),
     allocate(2),
     get_structure('$call_c'/1,0),
     unify_variable(y(0)),
@@ -1271,10 +1283,10 @@ label(16),
     deallocate,
     execute(pred_rewriting/2),
 
-label(17),
-    retry_me_else(19),
+label(19),
+    retry_me_else(21),
 
-label(18),
+label(20),
     allocate(2),
     get_structure('$call_c_test'/1,0),
     unify_variable(y(0)),
@@ -1292,10 +1304,10 @@ label(18),
     deallocate,
     execute(pred_rewriting/2),
 
-label(19),
+label(21),
     trust_me_else_fail,
 
-label(20),
+label(22),
     allocate(2),
     get_structure('$call_c_jump'/1,0),
     unify_variable(y(0)),
@@ -1313,7 +1325,7 @@ label(20),
     deallocate,
     execute(pred_rewriting/2),
 
-label(21),
+label(23),
     trust_me_else_fail,
     get_value(x(1),0),
     proceed]).
@@ -1337,7 +1349,7 @@ predicate('$pred_rewriting/2_$aux1'/3,388,static,private,monofile,local,[
     call_c('Pl_Blt_Atom',[fast_call,boolean],[x(0)]),
     call_c('Pl_Blt_Integer',[fast_call,boolean],[x(1)]),
     cut(x(3)),
-    get_structure('$call_c'/2,2),
+    get_structure('$call_c_internal'/2,2),
     unify_variable(x(2)),
     unify_list,
     unify_atom(by_value),
@@ -1349,14 +1361,16 @@ predicate('$pred_rewriting/2_$aux1'/3,388,static,private,monofile,local,[
 
 label(1),
     trust_me_else_fail,
-    get_structure('$call_c'/1,2),
-    unify_structure('Pl_Set_Bip_Name_2'/2),
+    get_structure('$call_c_internal'/2,2),
+    unify_variable(x(2)),
+    unify_nil,
+    get_structure('Pl_Set_Bip_Name_2'/2,2),
     unify_local_value(x(0)),
     unify_local_value(x(1)),
     proceed]).
 
 
-predicate(test_c_call_allowed/1,458,static,private,monofile,global,[
+predicate(test_c_call_allowed/1,461,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1375,12 +1389,12 @@ label(1),
     execute(error/2)]).
 
 
-predicate(meta_pred_rewriting/2,477,static,private,monofile,global,[
+predicate(meta_pred_rewriting/2,480,static,private,monofile,global,[
     get_value(x(1),0),
     proceed]).
 
 
-predicate(meta_pred_rewrite_args/5,482,static,private,monofile,global,[
+predicate(meta_pred_rewrite_args/5,485,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(1),
@@ -1421,7 +1435,7 @@ label(1),
     proceed]).
 
 
-predicate(meta_pred_rewrite_arg/3,496,static,private,monofile,global,[
+predicate(meta_pred_rewrite_arg/3,499,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
-- 
2.43.0


From cf1dd68eebd28bb81d6aa24438352e70151939dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:33 +0000
Subject: [PATCH 88/93] fix: after an abort caught by the handler of a catch/3,
 the next stop or exception could run with a stale ball (crash of the top
 level)

---
 src/BipsPl/catch.pl  |  3 ++-
 src/BipsPl/catch.wam | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/BipsPl/catch.pl b/src/BipsPl/catch.pl
index aa5b70a..69ebd94 100644
--- a/src/BipsPl/catch.pl
+++ b/src/BipsPl/catch.pl
@@ -95,7 +95,8 @@
 	Ball = '$catch_sync'(B), !,
 	(   Handler > B ->
 	    '$unwind'('$catch_sync'(B))
-	;   '$catch_fail_now'(B)
+	;   '$sys_var_put'(8, '$no_ball$'),           % the ball has reached its target
+	    '$catch_fail_now'(B)
 	).
 
 '$catch_a_throw'(Ball, Ball1, Recovery, CallInfo, _) :-
diff --git a/src/BipsPl/catch.wam b/src/BipsPl/catch.wam
index e9e45f5..a086af3 100644
--- a/src/BipsPl/catch.wam
+++ b/src/BipsPl/catch.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: catch.pl
-% hash: 15cfff66ca76255ed6dda62048520a1655aa5201  catch.pl
+% hash: 1a2c73e5b5255ddf79d7a393f5de855152898006  catch.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/catch.pl').
@@ -160,11 +160,17 @@ predicate('$$catch_a_throw/5_$aux1'/2,91,static,private,monofile,local,[
 
 label(1),
     trust_me_else_fail,
-    put_value(x(1),0),
+    allocate(1),
+    get_variable(y(0),1),
+    put_integer(8,0),
+    put_atom('$no_ball$',1),
+    call('$sys_var_put'/2),
+    put_value(y(0),0),
+    deallocate,
     execute('$catch_fail_now'/1)]).
 
 
-predicate('$trail_handler'/1,117,static,private,monofile,built_in,[
+predicate('$trail_handler'/1,118,static,private,monofile,built_in,[
     try_me_else(1),
     proceed,
 
@@ -177,7 +183,7 @@ label(1),
     fail]).
 
 
-predicate('$catch_sync_for_fail_at'/1,126,static,private,monofile,built_in,[
+predicate('$catch_sync_for_fail_at'/1,127,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     put_integer(7,0),
@@ -189,7 +195,7 @@ predicate('$catch_sync_for_fail_at'/1,126,static,private,monofile,built_in,[
     execute('$$catch_sync_for_fail_at/1_$aux1'/2)]).
 
 
-predicate('$$catch_sync_for_fail_at/1_$aux1'/2,126,static,private,monofile,local,[
+predicate('$$catch_sync_for_fail_at/1_$aux1'/2,127,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -210,7 +216,7 @@ label(1),
     execute('$catch_fail_now'/1)]).
 
 
-predicate('$catch_fail_now'/1,138,static,private,monofile,built_in,[
+predicate('$catch_fail_now'/1,139,static,private,monofile,built_in,[
     allocate(0),
     call('$set_current_B'/1),
     fail]).
-- 
2.43.0


From 566d26243aed5721ffbd83ba3e3ed6dcc0b304e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:20 +0000
Subject: [PATCH 89/93] fix: a nested top-level (break) consulted the files and
 ran the goals of the command line again

---
 src/BipsPl/top_level.pl  |  3 +-
 src/BipsPl/top_level.wam | 89 +++++++++++++++++++++-------------------
 2 files changed, 48 insertions(+), 44 deletions(-)

diff --git a/src/BipsPl/top_level.pl b/src/BipsPl/top_level.pl
index 4834dd0..023fdf1 100644
--- a/src/BipsPl/top_level.pl
+++ b/src/BipsPl/top_level.pl
@@ -77,10 +77,11 @@ break :-
 	),
 	'$sys_var_inc'(10),
 	g_read('$cmd_line_consult_file', LFile),
+	g_assign('$cmd_line_consult_file', []),	% not again in a nested top-level
 	'$exec_cmd_line_consult_files'(LFile),
 	g_read('$cmd_line_entry_goal', LGoal),
-	'$exec_cmd_line_entry_goals'(LGoal),
 	g_assign('$cmd_line_entry_goal', []),
+	'$exec_cmd_line_entry_goals'(LGoal),
 	'$top_level1',
 	'$sys_var_dec'(10),
 	'$sys_var_write'(11, B),
diff --git a/src/BipsPl/top_level.wam b/src/BipsPl/top_level.wam
index 621a397..c6b6f8b 100644
--- a/src/BipsPl/top_level.wam
+++ b/src/BipsPl/top_level.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: top_level.pl
-% hash: 64ce34cba1e927297465d7479f4aa2e802557db5  top_level.pl
+% hash: db5484bfb84f2b8bc6be858d75b6e8f1c6427802  top_level.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/top_level.pl').
@@ -101,14 +101,17 @@ predicate(break/0,69,static,private,monofile,built_in,[
     put_atom('$cmd_line_consult_file',1),
     put_variable(x(0),2),
     call_c('Pl_Blt_G_Read',[fast_call,boolean],[x(1),x(2)]),
+    put_atom('$cmd_line_consult_file',1),
+    put_nil(2),
+    call_c('Pl_Blt_G_Assign',[fast_call],[x(1),x(2)]),
     call('$exec_cmd_line_consult_files'/1),
     put_atom('$cmd_line_entry_goal',1),
     put_variable(x(0),2),
     call_c('Pl_Blt_G_Read',[fast_call,boolean],[x(1),x(2)]),
+    put_atom('$cmd_line_entry_goal',1),
+    put_nil(2),
+    call_c('Pl_Blt_G_Assign',[fast_call],[x(1),x(2)]),
     call('$exec_cmd_line_entry_goals'/1),
-    put_atom('$cmd_line_entry_goal',0),
-    put_nil(1),
-    call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
     call('$top_level1'/0),
     put_integer(10,0),
     call('$sys_var_dec'/1),
@@ -163,7 +166,7 @@ label(1),
     proceed]).
 
 
-predicate('$top_level1'/0,96,static,private,monofile,built_in,[
+predicate('$top_level1'/0,97,static,private,monofile,built_in,[
     pragma_arity(1),
     get_current_choice(x(0)),
     allocate(1),
@@ -179,7 +182,7 @@ predicate('$top_level1'/0,96,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate('$top_level_abort'/0,103,static,private,monofile,built_in,[
+predicate('$top_level_abort'/0,104,static,private,monofile,built_in,[
     allocate(1),
     call('$reinit_after_exception'/0),
     put_integer(11,0),
@@ -193,7 +196,7 @@ predicate('$top_level_abort'/0,103,static,private,monofile,built_in,[
     execute('$catch_sync_for_fail_at'/1)]).
 
 
-predicate('$top_level_stop'/0,112,static,private,monofile,built_in,[
+predicate('$top_level_stop'/0,113,static,private,monofile,built_in,[
     allocate(1),
     call('$reinit_after_exception'/0),
     put_integer(11,0),
@@ -204,7 +207,7 @@ predicate('$top_level_stop'/0,112,static,private,monofile,built_in,[
     execute('$catch_sync_for_fail_at'/1)]).
 
 
-predicate('$top_level_exception'/1,120,static,private,monofile,built_in,[
+predicate('$top_level_exception'/1,121,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -268,7 +271,7 @@ label(1),
     fail]).
 
 
-predicate('$reinit_after_exception'/0,138,static,private,monofile,built_in,[
+predicate('$reinit_after_exception'/0,139,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(0),
     put_integer(12,0),
@@ -286,7 +289,7 @@ label(1),
     proceed]).
 
 
-predicate('$top_level2'/0,152,static,private,monofile,built_in,[
+predicate('$top_level2'/0,153,static,private,monofile,built_in,[
     pragma_arity(1),
     get_current_choice(x(0)),
     allocate(6),
@@ -319,7 +322,7 @@ predicate('$top_level2'/0,152,static,private,monofile,built_in,[
     execute('$$top_level2/0_$aux3'/3)]).
 
 
-predicate('$$top_level2/0_$aux3'/3,152,static,private,monofile,local,[
+predicate('$$top_level2/0_$aux3'/3,153,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -367,7 +370,7 @@ label(1),
     fail]).
 
 
-predicate('$$top_level2/0_$aux5'/1,152,static,private,monofile,local,[
+predicate('$$top_level2/0_$aux5'/1,153,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -385,7 +388,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$$top_level2/0_$aux4'/3,152,static,private,monofile,local,[
+predicate('$$top_level2/0_$aux4'/3,153,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -405,7 +408,7 @@ label(1),
     proceed]).
 
 
-predicate('$$top_level2/0_$aux2'/1,152,static,private,monofile,local,[
+predicate('$$top_level2/0_$aux2'/1,153,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -425,7 +428,7 @@ label(1),
     proceed]).
 
 
-predicate('$$top_level2/0_$aux1'/2,152,static,private,monofile,local,[
+predicate('$$top_level2/0_$aux1'/2,153,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -452,7 +455,7 @@ label(1),
     execute(write/2)]).
 
 
-predicate('$write_indicator'/0,200,static,private,monofile,built_in,[
+predicate('$write_indicator'/0,201,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(2),
     put_atom('$debug_mode',1),
@@ -473,7 +476,7 @@ label(1),
     proceed]).
 
 
-predicate('$$write_indicator/0_$aux1'/2,200,static,private,monofile,local,[
+predicate('$$write_indicator/0_$aux1'/2,201,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -505,7 +508,7 @@ label(2),
     execute(format/3)]).
 
 
-predicate('$$write_indicator/0_$aux2'/2,200,static,private,monofile,local,[
+predicate('$$write_indicator/0_$aux2'/2,201,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -530,7 +533,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$dbg_indicator'/2,221,static,private,monofile,built_in,[
+predicate('$dbg_indicator'/2,222,static,private,monofile,built_in,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -561,7 +564,7 @@ label(7),
     proceed]).
 
 
-predicate('$read_query'/2,230,static,private,monofile,built_in,[
+predicate('$read_query'/2,231,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -627,7 +630,7 @@ label(2),
     execute('$PB_empty_buffer'/1)]).
 
 
-predicate('$$read_query/2_$aux1'/1,230,static,private,monofile,local,[
+predicate('$$read_query/2_$aux1'/1,231,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -648,7 +651,7 @@ label(1),
     proceed]).
 
 
-predicate('$exec_query'/2,253,static,private,monofile,built_in,[
+predicate('$exec_query'/2,254,static,private,monofile,built_in,[
     allocate(5),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -690,7 +693,7 @@ predicate('$exec_query'/2,253,static,private,monofile,built_in,[
     execute('$$exec_query/2_$aux1'/3)]).
 
 
-predicate('$$exec_query/2_$aux1'/3,253,static,private,monofile,local,[
+predicate('$$exec_query/2_$aux1'/3,254,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -713,7 +716,7 @@ label(1),
     execute('$$exec_query/2_$aux2'/2)]).
 
 
-predicate('$$exec_query/2_$aux2'/2,253,static,private,monofile,local,[
+predicate('$$exec_query/2_$aux2'/2,254,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -737,7 +740,7 @@ label(1),
     proceed]).
 
 
-predicate('$set_query_vars_names'/2,280,static,private,monofile,built_in,[
+predicate('$set_query_vars_names'/2,281,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -761,7 +764,7 @@ predicate('$set_query_vars_names'/2,280,static,private,monofile,built_in,[
     execute(bind_variables/2)]).
 
 
-predicate('$remove_underscore_vars'/2,289,static,private,monofile,built_in,[
+predicate('$remove_underscore_vars'/2,290,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(2,3,fail,1,fail),
@@ -811,7 +814,7 @@ label(7),
     execute('$remove_underscore_vars'/2)]).
 
 
-predicate('$$remove_underscore_vars/2_$aux1'/2,291,static,private,monofile,local,[
+predicate('$$remove_underscore_vars/2_$aux1'/2,292,static,private,monofile,local,[
     try_me_else(1),
     put_integer(0,1),
     put_integer(1,2),
@@ -830,7 +833,7 @@ label(1),
     execute(sub_atom/5)]).
 
 
-predicate('$write_solution'/3,304,static,private,monofile,built_in,[
+predicate('$write_solution'/3,305,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -856,7 +859,7 @@ label(1),
     execute('$write_solution1'/2)]).
 
 
-predicate('$$write_solution/3_$aux2'/1,311,static,private,monofile,local,[
+predicate('$$write_solution/3_$aux2'/1,312,static,private,monofile,local,[
     try_me_else(1),
     put_atom(xfx,1),
     put_atom(=,2),
@@ -868,7 +871,7 @@ label(1),
     proceed]).
 
 
-predicate('$$write_solution/3_$aux1'/2,304,static,private,monofile,local,[
+predicate('$$write_solution/3_$aux1'/2,305,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -887,7 +890,7 @@ label(1),
     proceed]).
 
 
-predicate('$write_solution1'/2,317,static,private,monofile,built_in,[
+predicate('$write_solution1'/2,318,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -917,7 +920,7 @@ label(4),
     execute('$write_solution1'/2)]).
 
 
-predicate('$$write_solution1/2_$aux1'/3,319,static,private,monofile,local,[
+predicate('$$write_solution1/2_$aux1'/3,320,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -973,7 +976,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$read_return'/0,333,static,private,monofile,built_in,[
+predicate('$read_return'/0,334,static,private,monofile,built_in,[
     pragma_arity(1),
     get_current_choice(x(0)),
     allocate(2),
@@ -990,7 +993,7 @@ predicate('$read_return'/0,333,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate('$read_return'/1,341,static,private,monofile,built_in,[
+predicate('$read_return'/1,342,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(12),
@@ -1064,7 +1067,7 @@ label(12),
     execute('$read_return'/0)]).
 
 
-predicate('$exec_cmd_line_consult_files'/1,366,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_consult_files'/1,367,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(6),
@@ -1100,7 +1103,7 @@ label(6),
     proceed]).
 
 
-predicate('$exec_cmd_consult_file'/1,380,static,private,monofile,built_in,[
+predicate('$exec_cmd_consult_file'/1,381,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -1129,11 +1132,11 @@ predicate('$exec_cmd_consult_file'/1,380,static,private,monofile,built_in,[
     fail]).
 
 
-predicate('$exec_cmd_line_consult_file'/1,390,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_consult_file'/1,391,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate('$exec_cmd_line_entry_goals'/1,395,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_entry_goals'/1,396,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(1),
     get_list(0),
@@ -1149,7 +1152,7 @@ label(1),
     proceed]).
 
 
-predicate('$exec_cmd_line_entry_goal'/1,406,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_entry_goal'/1,407,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1172,11 +1175,11 @@ label(1),
     proceed]).
 
 
-predicate('$exec_cmd_line_goal'/1,418,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_goal'/1,419,static,private,monofile,built_in,[
     execute('$$exec_cmd_line_goal/1_$aux1'/1)]).
 
 
-predicate('$$exec_cmd_line_goal/1_$aux1'/1,418,static,private,monofile,local,[
+predicate('$$exec_cmd_line_goal/1_$aux1'/1,419,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1206,7 +1209,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$exec_cmd1'/1,427,static,private,monofile,built_in,[
+predicate('$exec_cmd1'/1,428,static,private,monofile,built_in,[
     allocate(1),
     put_variable(y(0),1),
     put_structure(end_of_term/1,3),
@@ -1224,7 +1227,7 @@ predicate('$exec_cmd1'/1,427,static,private,monofile,built_in,[
     execute('$call'/4)]).
 
 
-predicate('$exec_cmd_err'/2,435,static,private,monofile,built_in,[
+predicate('$exec_cmd_err'/2,436,static,private,monofile,built_in,[
     put_list(2),
     unify_local_value(x(0)),
     unify_list,
-- 
2.43.0


From 8394f4ed2cf52dbb906cb1128797d238fb8346d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:20 +0000
Subject: [PATCH 90/93] fix: the debugger looped displaying the alternatives of
 a goal after a soft-cut

---
 src/BipsPl/debugger.pl  | 4 ++--
 src/BipsPl/debugger.wam | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/debugger.pl b/src/BipsPl/debugger.pl
index 7690e8b..8d062fb 100644
--- a/src/BipsPl/debugger.pl
+++ b/src/BipsPl/debugger.pl
@@ -955,8 +955,8 @@ nospyall.
 	'$debug_disp_alt'(B2, B1).
 
 
-'$debug_disp_alt'(B, B) :-
-	!.
+'$debug_disp_alt'(B, BTo) :-
+	B =< BTo, !.                      % < if BTo removed by a soft-cut
 
 '$debug_disp_alt'(BFrom, BTo) :-
 	'$choice_point_info'(BFrom, N, A, B1),
diff --git a/src/BipsPl/debugger.wam b/src/BipsPl/debugger.wam
index daeb642..1333915 100644
--- a/src/BipsPl/debugger.wam
+++ b/src/BipsPl/debugger.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: debugger.pl
-% hash: 86b9f5f9a7ebd8709069422706ae460c56d46ca6  debugger.pl
+% hash: 4a2fc3a57f80bd124420f6d17b64e3ffe841ff27  debugger.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/debugger.pl').
@@ -2836,7 +2836,10 @@ predicate('$debug_disp_alt'/2,958,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
-    get_value(x(1),0),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[=<,2]),
+    math_load_value(x(0),0),
+    math_load_value(x(1),1),
+    call_c('Pl_Blt_Lte',[fast_call,boolean],[x(0),x(1)]),
     cut(x(2)),
     proceed,
 
-- 
2.43.0


From 5f144109d393bb09d80eb2c3057e4d56e4b471d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 91/93] fix: fd2c: the mod operator of the FD language was not
 recognized (syntax error)

---
 src/Fd2C/read_file.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Fd2C/read_file.pl b/src/Fd2C/read_file.pl
index 2069081..3210f4d 100644
--- a/src/Fd2C/read_file.pl
+++ b/src/Fd2C/read_file.pl
@@ -199,3 +199,4 @@ keyword(foreach).
 keyword(do).
 keyword(in).
 keyword(max_integer).
+keyword(mod).
-- 
2.43.0


From f0d09bc80a40c2279d1740636c03ac179ef30beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:41 +0000
Subject: [PATCH 92/93] fix: fd2c: (A || B) && C was compiled as A || (B && C)

---
 src/Fd2C/compile.pl |  3 ++-
 src/Fd2C/parse.pl   | 30 +++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/Fd2C/compile.pl b/src/Fd2C/compile.pl
index 9db8a67..77e4c48 100644
--- a/src/Fd2C/compile.pl
+++ b/src/Fd2C/compile.pl
@@ -38,7 +38,8 @@
 
         % to correctly write C expressions
 
-:- op(750, yfx, [&&, '||']).
+:- op(750, yfx, ['||']).
+:- op(740, yfx, [&&]).
 :- op(700, xfx, [==, '!=', <=]).
 :- op(400, yfx, [/<, />, '%']).
 :- op(300, fy, [&]).
diff --git a/src/Fd2C/parse.pl b/src/Fd2C/parse.pl
index 9833c4f..3b42c2e 100644
--- a/src/Fd2C/parse.pl
+++ b/src/Fd2C/parse.pl
@@ -576,18 +576,34 @@ compile_term_lst1([Term|LTerm], R, LWNext, [fd_range_set_value(R, Term)|LWInst])
 
 
 
+          % as in C && binds tighter than || (see also the op/3 in compile.pl)
+
 term(LVar, LUse, Term1, LWNext, LWInst) -->
+	t_and(LVar, LUse, Term, LWInst1, LWInst),
+	t_rest_or(LVar, LUse, Term, Term1, LWNext, LWInst1).
+
+t_rest_or(LVar, LUse, Term1, Term4, LWNext, LWInst) -->
+	terminal('||'), !,
+	t_and(LVar, LUse, Term2, LWInst1, LWInst),
+	{ make_term(Term1, '||', Term2, Term3) },
+	t_rest_or(LVar, LUse, Term3, Term4, LWNext, LWInst1).
+
+t_rest_or(_, _, Term, Term, LWNext, LWNext) -->
+	[].
+
+
+
+t_and(LVar, LUse, Term1, LWNext, LWInst) -->
 	t_log(LVar, LUse, Term, LWInst1, LWInst),
-	t_rest_log(LVar, LUse, Term, Term1, LWNext, LWInst1).
+	t_rest_and(LVar, LUse, Term, Term1, LWNext, LWInst1).
 
-t_rest_log(LVar, LUse, Term1, Term4, LWNext, LWInst) -->
-	terminal(Op),
-	{ memberchk(Op, [&&, '||']) }, !,
+t_rest_and(LVar, LUse, Term1, Term4, LWNext, LWInst) -->
+	terminal(&&), !,
 	t_log(LVar, LUse, Term2, LWInst1, LWInst),
-	{ make_term(Term1, Op, Term2, Term3) },
-	t_rest_log(LVar, LUse, Term3, Term4, LWNext, LWInst1).
+	{ make_term(Term1, &&, Term2, Term3) },
+	t_rest_and(LVar, LUse, Term3, Term4, LWNext, LWInst1).
 
-t_rest_log(_, _, Term, Term, LWNext, LWNext) -->
+t_rest_and(_, _, Term, Term, LWNext, LWNext) -->
 	[].
 
 
-- 
2.43.0


From 0462e637ed4075bd3e15773d767a9646494a54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:41 +0000
Subject: [PATCH 93/93] fix: fd2c: fail if Cond failed when Cond was false (and
 succeeded when it was true)

---
 src/EngineFD/fd_to_c.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EngineFD/fd_to_c.h b/src/EngineFD/fd_to_c.h
index 58cda40..723d25c 100644
--- a/src/EngineFD/fd_to_c.h
+++ b/src/EngineFD/fd_to_c.h
@@ -346,7 +346,7 @@
 
 
 #define fd_test_fail_condition(t)		\
-  if (!t)					\
+  if (t)					\
     {						\
       ret_val = FALSE;				\
       goto lab_exit;				\
-- 
2.43.0

