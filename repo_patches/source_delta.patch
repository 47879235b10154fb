From 71e5942c27f43fda9acfd3bbe332fa4e440da56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 01/92] fix: powers and roots of intervals with an infinite
 lower bound

bound_pow and bound_root turned every infinite bound into +oo, so that the
odd power (or root) of an interval unbounded from below became empty, and
the power 0 became unbounded.
---
 num/bound_def.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index 0769e56..c5dc389 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -364,8 +364,16 @@ static inline void bound_sqrt(bound_t up, bound_t down, bound_t b)
 static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    if (n == 0) {
+      bound_set_int(up, 1);
+      bound_set_int(down, 1);
+    }
+    else {
+      /* odd powers keep the sign of an infinite bound */
+      int s = (bound_sgn(b) < 0 && (n & 1)) ? -1 : 1;
+      bound_set_infty(up, s);
+      bound_set_infty(down, s);
+    }
   }
   else if (num_pow(bound_numref(up), bound_numref(down), bound_numref(b), n)) {
     bound_set_infty(up,1);
@@ -380,8 +388,10 @@ static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long
 static inline void bound_root(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    /* odd roots keep the sign of an infinite bound */
+    int s = (bound_sgn(b) < 0) ? -1 : 1;
+    bound_set_infty(up, s);
+    bound_set_infty(down, s);
   }
   else {
     num_root(bound_numref(up), bound_numref(down), bound_numref(b), n);
-- 
2.43.0


From 0e1a4043fa8a66198eeee2c235102b23648d4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 02/92] fix: ap_ppl_poly_sat_lincons answered true for strict
 constraints on loose polyhedra

On a loose manager the strict constraint e>0 was tested as e>=0.
---
 ppl/ppl_poly.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index 189ac84..fe6a740 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -485,8 +485,9 @@ bool ap_ppl_poly_sat_lincons(ap_manager_t* man, PPL_Poly* a,
 	  r = (l>=0); 
           break;
 	case AP_CONS_SUP:
-          if (intern->strict) r = (l>0);
-          else { exact = false; r = (l>=0); }
+          /* a closed polyhedron can be compared to an open half-space;
+             testing the closed half-space instead would wrongly answer true */
+          r = (l>0);
 	  break;
 	case AP_CONS_EQMOD:
 	  exact = exact && (num_sgn(lincons.num)==0);
-- 
2.43.0


From 5b85b72a836295169149f22463fdf71d93b965f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 03/92] fix: ap_ppl_grid_sat_lincons answered true for strict
 constraints that do not hold

The strict constraint e>0 was tested as e>=0.
---
 ppl/ppl_grid.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 8f4a651..960fb71 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -517,7 +517,10 @@ bool ap_ppl_grid_sat_lincons(ap_manager_t* man, PPL_Grid* a,
 	  r = (l>=0); 
           break;
 	case AP_CONS_SUP:
-          exact = false;
+          /* testing only l>=0 would wrongly answer true; l is constant on
+             the grid when l>=0 holds */
+          if (a->p->relation_with(l==0).implies(Poly_Con_Relation::is_included()))
+            return false;
           r = (l>=0); 
           break;
 	case AP_CONS_EQMOD:
-- 
2.43.0


From 4975447f5ddfe4cb87e1e214608461fd9a0a19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 04/92] fix: ap_ppl_grid_bound_linexpr returned wrong bounds

PPL's Grid::maximize and minimize do not scale the inhomogeneous term of the
expression by the divisor of the grid generators; the constant is now added
afterwards. Also use the quasilinearized expression, as the polyhedra do.
---
 ppl/ppl_grid.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 960fb71..ba1b84b 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -606,7 +606,7 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
     else {
       /* not empty */
       itv_linexpr_t linexpr;
-      Coefficient sup_n,sup_d;
+      Coefficient sup_n,sup_d,cst;
       Linear_Expression l;
       mpz_class den;
       bool ok;
@@ -628,8 +628,13 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 	  ap_scalar_set_infty(r->sup,1);
 	}
 	else {
-	  ap_ppl_of_linexpr(intern->itv,l,den,expr,1);
+	  ap_ppl_of_itv_linexpr(l,den,&linexpr,1);
+	  /* Grid::maximize does not scale the constant by the divisor of the
+	     generators, so it is added afterwards */
+	  cst = l.inhomogeneous_term();
+	  l -= cst;
 	  if (a->p->maximize(l,sup_n,sup_d,ok)) {
+	    sup_n += cst * sup_d;
 	    sup_d *= den;
 	    ap_ppl_mpz2_to_scalar(r->sup,sup_n,sup_d);
 	  }
@@ -640,10 +645,11 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 	  ap_scalar_set_infty(r->inf,-1);
 	}
 	else {
-	  if (!itv_linexpr_is_scalar(&linexpr)){
-	    ap_ppl_of_itv_linexpr(l,den,&linexpr,-1);
-	  }
+	  ap_ppl_of_itv_linexpr(l,den,&linexpr,-1);
+	  cst = l.inhomogeneous_term();
+	  l -= cst;
 	  if (a->p->minimize(l,sup_n,sup_d,ok)) {
+	    sup_n += cst * sup_d;
 	    sup_d *= den;
 	    ap_ppl_mpz2_to_scalar(r->inf,sup_n,sup_d);
 	  }
-- 
2.43.0


From 71a4cbc5069305dcfbc80f015f4ae6f8aed67325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 05/92] fix: set the FPU rounding mode when allocating
 polyhedra and grid managers

Rounding operations in tree expressions are bounded with native doubles,
which is only sound when rounding towards +oo; a program using only
newpolka or PPL managers got wrong results.
---
 newpolka/pk_internal.c | 5 +++++
 ppl/ppl_grid.cc        | 5 +++++
 ppl/ppl_poly.cc        | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/newpolka/pk_internal.c b/newpolka/pk_internal.c
index 843215f..8e5ed52 100644
--- a/newpolka/pk_internal.c
+++ b/newpolka/pk_internal.c
@@ -197,6 +197,11 @@ ap_manager_t* pk_manager_alloc(bool strict)
   ap_manager_t* man;
   void** funptr;
 
+  /* the linearization of floating-point expressions relies on it */
+  if (!ap_fpu_init()) {
+    fprintf(stderr,"pk_manager_alloc cannot change the FPU rounding mode\n");
+  }
+
   pk = pk_internal_alloc(strict);
   pk_set_approximate_max_coeff_size(pk, 1);
   man = ap_manager_alloc(strict ? "polka, strict mode" : "polka, loose mode",
diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index ba1b84b..df9634a 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -1275,6 +1275,11 @@ extern "C" ap_manager_t* ap_ppl_grid_manager_alloc(void)
   ppl_internal_t* ppl;
   ap_manager_t* man;
 
+  /* the linearization of floating-point expressions relies on it */
+  if (!ap_fpu_init()) {
+    fprintf(stderr,"ap_ppl_grid_manager_alloc cannot change the FPU rounding mode\n");
+  }
+
   ppl = ap_ppl_internal_alloc(false);
   man = ap_manager_alloc("PPL::Grid",
 			 PPL_VERSION,
diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index fe6a740..daf82a6 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -1215,6 +1215,11 @@ extern "C" ap_manager_t* ap_ppl_poly_manager_alloc(bool strict)
   ppl_internal_t* ppl;
   ap_manager_t* man;
 
+  /* the linearization of floating-point expressions relies on it */
+  if (!ap_fpu_init()) {
+    fprintf(stderr,"ap_ppl_poly_manager_alloc cannot change the FPU rounding mode\n");
+  }
+
   ppl = ap_ppl_internal_alloc(strict);
   const char* name = (strict ?
 		      "PPL::Polyhedron, strict mode" :
-- 
2.43.0


From 859c0a81566db09117de78434b6b57d801d4025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 06/92] fix: take rounding into account when linearizing and
 inverting powers

Linearization ignored the rounding of power operators, and the backward
refinement computed the un-rounded result but did not use it.
---
 itv/itv_linearize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 5864539..1a37605 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1440,6 +1440,7 @@ ap_texpr0_node_intlinearize(itv_internal_t* intern,
     }
     else {
       itv_pow(intern,ires,ires,i1);
+      itv_round(ires,ires,n->type,n->dir);
       itv_linexpr_reinit(lres,0);
       itv_set(lres->cst,ires);
       lres->equality = itv_is_point(intern,lres->cst);
@@ -1922,7 +1923,7 @@ itv_refine_ap_texpr0_node(itv_internal_t* intern,
     /* keep right argument */
     itv_set(arg2r, arg2);
     /* refine left argument */
-    itv_inv_pow(intern, arg1r, arg1, res, arg2);
+    itv_inv_pow(intern, arg1r, arg1, intern->eval_itv3, arg2);
     itv_meet(intern, arg1r, arg1r, arg1);
     break;
 
-- 
2.43.0


From 4b2b49c6c4e55de57fd654bf5d81a766c08a13b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 07/92] fix: division by zero on constant congruences modulo 0

The test for a null modulus was inverted in itv_eval_cstlincons.
---
 itv/itv_linexpr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 1231e22..00479f6 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -562,8 +562,8 @@ tbool_t ITVFUN(itv_eval_cstlincons)(itv_internal_t* intern,
       if (bound_sgn(cst->sup)==0){
 	res = tbool_true;
       }
-      else if (num_cmp_int(lincons->num,0)){
-	res = (bound_sgn(cst->sup)==0) ? tbool_true : tbool_top;
+      else if (num_sgn(lincons->num)==0){
+	res = tbool_false;
       }
       else {
 #if defined(NUM_NUMRAT)
-- 
2.43.0


From 5633e133321af1f5ac4352cd15a64157b502b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 08/92] fix: wrong assertion failure in newpolka for interval
 congruences and disequalities

They are ignored by pk_matrix_append_itv_lincons_array, hence need not be
scalar.
---
 newpolka/pk_user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index f7a2198..5f61231 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -491,11 +491,11 @@ bool pk_matrix_append_itv_lincons_array(pk_internal_t* pk,
   j = nbrows;
   for (i=0; i<array->size; i++){
     if (bound_infty(array->p[i].linexpr.cst->sup)) continue;
-    assert(itv_linexpr_is_scalar(&array->p[i].linexpr));
     switch (array->p[i].constyp){
     case AP_CONS_EQ:
     case AP_CONS_SUPEQ:
     case AP_CONS_SUP:
+      assert(itv_linexpr_is_scalar(&array->p[i].linexpr));
       vector_set_itv_lincons(pk,
 			     mat->p[j], &array->p[i],
 			     intdim,realdim,integer);
-- 
2.43.0


From d1aedd60a0c3c5b230871f4642b70248339c21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 09/92] fix: rounding direction when dividing by interval
 coefficients in boxization

In the four cases where the sign of the result had to be changed, the
quotient was rounded upwards and then negated, so the resulting bound could
be one unit in the last place too small: sound values were excluded.
---
 itv/itv_linearize.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 1a37605..73f7ffc 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -245,11 +245,11 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 			  intern->boxize_lincons_itv->sup);
 	      } else { /* 1B */
 		/* We compute -E/m */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_eval->sup);
 		bound_div(intern->boxize_lincons_bound,
-			  intern->boxize_lincons_eval->sup,
+			  intern->boxize_lincons_bound,
 			  intern->boxize_lincons_itv->inf);
-		bound_neg(intern->boxize_lincons_bound,
-			  intern->boxize_lincons_bound);
 	      }
 	    }
 	    else { /* 4 */
@@ -260,11 +260,11 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 			  intern->boxize_lincons_itv->inf);
 	      } else { /* 4B */
 		/* We compute -e/M */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_eval->inf);
 		bound_div(intern->boxize_lincons_bound,
-			  intern->boxize_lincons_eval->inf,
+			  intern->boxize_lincons_bound,
 			  intern->boxize_lincons_itv->sup);
-		bound_neg(intern->boxize_lincons_bound,
-			  intern->boxize_lincons_bound);
 	      }
 	    }
 	    if (dim<intdim && !bound_infty(intern->boxize_lincons_bound)){
@@ -291,11 +291,11 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 	    if (sgnitv<0){ /* 2 */
 	      if (sgnE>=0){ /* 2B */
 		/* We compute -E/M */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_eval->sup);
 		bound_div(intern->boxize_lincons_bound,
-			  intern->boxize_lincons_eval->sup,
+			  intern->boxize_lincons_bound,
 			  intern->boxize_lincons_itv->sup);
-		bound_neg(intern->boxize_lincons_bound,
-			  intern->boxize_lincons_bound);
 	      } else { /* 2A */
 		/* We compute E/m */
 		bound_div(intern->boxize_lincons_bound,
@@ -306,11 +306,11 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 	    else { /* 3 */
 	      if (sgne>=0){ /* 3B */
 		/* We compute -e/m */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_eval->inf);
 		bound_div(intern->boxize_lincons_bound,
-			  intern->boxize_lincons_eval->inf,
+			  intern->boxize_lincons_bound,
 			  intern->boxize_lincons_itv->inf);
-		bound_neg(intern->boxize_lincons_bound,
-			  intern->boxize_lincons_bound);
 	      }
 	      else { /* 3A */
 		/* We compute e/M */
-- 
2.43.0


From 1b9c3e9c4ec6fb5e5eb2e24e60e4f43e45929209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 10/92] fix: integrality test of constants in octagon strict
 constraints

A constant that is not an integer may be rounded to an integer in one
direction only; the other bound was then decreased by one as if the
constraint were integral, which excludes valid points.
---
 octagons/oct_transfer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/octagons/oct_transfer.c b/octagons/oct_transfer.c
index 84dab6c..c283cc3 100644
--- a/octagons/oct_transfer.c
+++ b/octagons/oct_transfer.c
@@ -48,7 +48,8 @@ uexpr oct_uexpr_of_linexpr(oct_internal_t* pr, bound_t* dst,
 #define COEFF(c,i)                                                      \
   ap_coeff_reduce(&c);                                                   \
   if (bounds_of_coeff(pr,dst[i],dst[(i)+1],c,false)) u.type = EMPTY;    \
-  if (c.discr!=AP_COEFF_SCALAR || !bound_integer(dst[i])) u.is_int = 0;
+  if (c.discr!=AP_COEFF_SCALAR || !bound_integer(dst[i]) ||               \
+      !bound_integer(dst[(i)+1])) u.is_int = 0;
   
   uexpr u = { ZERO, 0, 0, 0, 0, 1 };
   size_t i;
-- 
2.43.0


From d578c1aab0b9526e15ace75532fda68cb72e23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 11/92] fix: powers of floating-point numbers were not rounded
 downwards

The compiler simplifies -((-d)*f) into d*f, so that lower bounds were
rounded upwards.
---
 num/numflt_native.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index dbc1d05..5604952 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -159,15 +159,18 @@ static inline void numflt_mul_2exp(numflt_t a, numflt_t b, int c)
 static inline int  numflt_pow(numflt_t up, numflt_t down, numflt_t b, unsigned long int n)
 {
   /* we cannot rely on pow, we implement a simple fast power */
-  numflt_native u, d, fu, fd;
+  /* u and fu are rounded upwards; nd and nfd are the opposite of values rounded
+     downwards, so that no double negation can be simplified by the compiler */
+  volatile numflt_native u, nd, fu, nfd;
+  numflt_native d, fd;
   int sign;
   if (*b < 0) { fu = fd = -*b; sign = n&1;}
   else { fu = fd = *b; sign = 0; }
   u = d = 1;
   while (n) {
-    if (n & 1) { u *= fu; d = - ((-d) * fd); }
+    if (n & 1) { u *= fu; nd = -d; nd *= fd; d = -nd; }
     fu = fu * fu;
-    fd = - ((-fd) * fd);
+    nfd = -fd; nfd *= fd; fd = -nfd;
     n >>= 1;
   }
   if (sign) {
-- 
2.43.0


From 0bc2a1a977c6c3c8ba62c7bc4e394ba3e2d85ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 12/92] fix: assertion failure in pkeq_join_array when the
 result is not minimized

---
 newpolka/pkeq.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index fbe6e99..65b3471 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -79,10 +79,18 @@ void pk_matrix_reduce(pk_matrix_t* mat)
 static
 void equality_reduce(ap_manager_t* man, pkeq_t* po)
 {
-  assert((!po->C && !po->F) || (po->C && po->F));
+  pk_internal_t* pk = (pk_internal_t*)man->internal;
+
+  if (po->C ? !po->F : po->F!=NULL){
+    /* only one representation is available: minimize first */
+    poly_chernikova(man,po,"of result");
+    if (pk->exn){
+      pk->exn = AP_EXC_NONE;
+      poly_set_top(pk,po);
+    }
+  }
   if (po->C && po->F){
     if (po->C->nbrows > po->nbeq + 1){
-      pk_internal_t* pk = (pk_internal_t*)man->internal;
 
       po->C->nbrows = po->nbeq + 1;
       pk_matrix_fill_constraint_top(pk,po->C,po->nbeq);
-- 
2.43.0


From 08e7005a17626ff0bac4e65ed9df4f81388e88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 13/92] fix: assignment and substitution of interval
 expressions in pkeq

Expressions with interval coefficients and a scalar constant were treated as
if they were deterministic, and parallel substitutions forgot the dimensions
assigned to interval expressions too late.
---
 newpolka/pkeq.c | 52 ++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index 65b3471..081c1ce 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -346,31 +346,25 @@ pkeq_t* equality_asssub_linexpr(bool assign,
     return destructive ? pa : pk_bottom(man,pa->intdim,pa->realdim);
   }
   /* Choose the right technique */
-  switch (linexpr->cst.discr){
-  case AP_COEFF_SCALAR:
-    {
-      po = poly_asssub_linexpr_det(assign,man,destructive,pa,dim,linexpr);
-      poly_chernikova(man,po,"of the result");
-      if (pk->exn) goto _equality_asssub_linexpr_error;
-      equality_reduce(man,po);
-      if (pk->exn) goto _equality_asssub_linexpr_error;
-      /* Is the result exact or best ? */
-      if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
-	man->result.flag_best = man->result.flag_exact = 
-	  (dim < pa->intdim || !ap_linexpr0_is_real(linexpr, pa->intdim)) ?
-	  false :
-	  true;
-      }
-      else {
-	man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
-      }
+  if (ap_linexpr0_is_linear(linexpr)){
+    po = poly_asssub_linexpr_det(assign,man,destructive,pa,dim,linexpr);
+    poly_chernikova(man,po,"of the result");
+    if (pk->exn) goto _equality_asssub_linexpr_error;
+    equality_reduce(man,po);
+    if (pk->exn) goto _equality_asssub_linexpr_error;
+    /* Is the result exact or best ? */
+    if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
+      man->result.flag_best = man->result.flag_exact = 
+        (dim < pa->intdim || !ap_linexpr0_is_real(linexpr, pa->intdim)) ?
+        false :
+        true;
     }
-    break;
-  case AP_COEFF_INTERVAL:
+    else {
+      man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
+    }
+  }
+  else {
     po = pkeq_forget_array(man,destructive,pa,&dim,1,false);
-    break;
-  default:
-    abort();
   }
   return po;
  _equality_asssub_linexpr_error:
@@ -412,7 +406,7 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
   tdimforget = malloc(size*sizeof(ap_dim_t));
   sizeforget = 0;
   for (i=0; i<size; i++){
-    if (texpr[i]->cst.discr==AP_COEFF_SCALAR){
+    if (ap_linexpr0_is_linear(texpr[i])){
       tdimp[sizep] = tdim[i];
       texprp[sizep] = texpr[i];
       sizep++;
@@ -422,6 +416,12 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
     }
   }
   if (sizep>0){
+    if (sizeforget && !assign){
+      /* the other expressions may depend on the forgotten dimensions */
+      pa = pkeq_forget_array(man,destructive,pa,tdimforget,sizeforget,false);
+      destructive = true;
+      sizeforget = 0;
+    }
     po = poly_asssub_linexpr_array_det(assign,man,destructive,pa,tdimp,texprp,sizep);
     poly_chernikova(man,po,"of the result");
     if (pk->exn) goto _equality_asssub_linexpr_array_error;
@@ -448,6 +448,10 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
   else {
     man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
   }
+  if (sizep<size){
+    /* some dimensions were forgotten */
+    man->result.flag_best = man->result.flag_exact = false;
+  }
   free(tdimp);
   free(texprp); 
   free(tdimforget);
-- 
2.43.0


From 7a0abd3519515bdf294c6871c0ccc60beebc46b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 14/92] fix: strict polyhedra kept the normalized status after
 back-substitution in newpolka

---
 newpolka/pk_representation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index ec6a870..f8feb42 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -269,6 +269,8 @@ void poly_chernikova3(ap_manager_t* man,
       assert(rank==po->nbeq);
       cherni_backsubstitute(pk,po->C,rank);
       po->C->_sorted = false;
+      /* substituting equalities may denormalize strict constraints */
+      po->status &= ~pk_status_conseps;
     }
     if (! (po->status & pk_status_gengauss)){
       rank = cherni_gauss(pk,po->F,po->nbline);
-- 
2.43.0


From 52ab2521fc619099b4676a3368d70a7bdaa53788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 15/92] fix: box_to_generator_array ignored the bounds of
 half-bounded dimensions

---
 box/box_constructor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box/box_constructor.c b/box/box_constructor.c
index 36e5be7..4779759 100644
--- a/box/box_constructor.c
+++ b/box/box_constructor.c
@@ -473,7 +473,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->inf);
 	  ap_scalar_neg(&scalar,&scalar);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
       else if (iinf){
@@ -482,7 +482,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	r++;
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->sup);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
     }
-- 
2.43.0


From 7ecc7e080cf29f26d656269e7a34c6445304c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 16/92] fix: trivially satisfied or unsatisfiable disequalities
 and congruences in ap_lincons0

---
 apron/ap_lincons0.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 5dfd70f..69c37d7 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -66,8 +66,12 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
     case AP_COEFF_SCALAR:
       sgn = ap_scalar_sgn(expr->cst.val.scalar);
       switch(cons->constyp){
-      case AP_CONS_EQ:
       case AP_CONS_EQMOD:
+	/* a nonzero constant may be a multiple of a nonzero modulo */
+	return
+	  sgn!=0 &&
+	  (cons->scalar==NULL || ap_scalar_sgn(cons->scalar)==0);
+      case AP_CONS_EQ:
 	return (sgn!=0);
       case AP_CONS_DISEQ:
 	return (sgn==0);
@@ -81,15 +85,18 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
     case AP_COEFF_INTERVAL:
       sgn = ap_scalar_sgn(expr->cst.val.interval->sup);
       switch(cons->constyp){
-      case AP_CONS_EQ:
       case AP_CONS_EQMOD:
+	if (cons->scalar!=NULL && ap_scalar_sgn(cons->scalar)!=0)
+	  return false;
+	/* fall through */
+      case AP_CONS_EQ:
 	return
 	  sgn < 0 ||
 	  ap_scalar_sgn(expr->cst.val.interval->inf)>0;
       case AP_CONS_DISEQ:
 	return
-	  sgn>=0 &&
-	  ap_scalar_sgn(expr->cst.val.interval->inf)<=0;
+	  sgn==0 &&
+	  ap_scalar_sgn(expr->cst.val.interval->inf)==0;
       case AP_CONS_SUPEQ:
 	return sgn<0;
       case AP_CONS_SUP:
@@ -146,8 +153,8 @@ bool ap_lincons0_is_sat(ap_lincons0_t* cons)
           ap_scalar_sgn(expr->cst.val.interval->sup)==0;
       case AP_CONS_DISEQ:
         return
-          ap_scalar_sgn(expr->cst.val.interval->inf)<0 ||
-          ap_scalar_sgn(expr->cst.val.interval->sup)>0;
+          ap_scalar_sgn(expr->cst.val.interval->inf)>0 ||
+          ap_scalar_sgn(expr->cst.val.interval->sup)<0;
       case AP_CONS_SUPEQ:
 	return 
           ap_scalar_sgn(expr->cst.val.interval->inf)>=0;
-- 
2.43.0


From 8ec9292275b745aa518548f10f6812959169cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 17/92] fix: ap_ppl_grid_is_top answered true for empty grids

---
 ppl/ppl_grid.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index df9634a..4669dd3 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -438,7 +438,8 @@ bool ap_ppl_grid_is_top(ap_manager_t* man, PPL_Grid* a)
 {
   man->result.flag_exact = man->result.flag_best = true;
   try {
-    return a->p->is_universe();
+    /* PPL may report trivially unsatisfiable congruences as universe */
+    return !a->p->is_empty() && a->p->is_universe();
   }
   CATCH_WITH_VAL(AP_FUNID_IS_TOP,false);
 }
-- 
2.43.0


From d22f360d62680ea126721fd132daa5660374b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 18/92] fix: quasilinearization left the equality mark of
 expressions with fixed variables

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 73f7ffc..2505d96 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -541,6 +541,7 @@ bool ITVFUN(itv_quasilinearize_linexpr)(itv_internal_t* intern, itv_linexpr_t* l
       /* If a variable has a constant value, simplification */
       itv_mul_num(itv,itv,bound_numref(env[dim]->sup));
       itv_add(linexpr->cst,linexpr->cst,itv);
+      linexpr->equality = linexpr->equality && itv_is_point(intern,linexpr->cst);
 
       size--;
       itv_linterm_t tmp = linexpr->linterm[i];
-- 
2.43.0


From fbb78b8769ff4f57f77db2ab55707a3bdd103c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 19/92] fix: bounds of linear expressions were flagged exact
 with rounded number types

---
 itv/itv_linearize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 2505d96..25ec3f7 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -82,7 +82,11 @@ bool ITVFUN(itv_eval_ap_linexpr0)(itv_internal_t* intern,
       break;
   }
   itv_set(itv,intern->eval_itv3);
+#if defined(NUM_FLOAT) || defined(NUM_DOUBLE) || defined(NUM_LONGDOUBLE) || defined(NUM_MPFR) || defined (NUM_NUMINT)
+  return false; /* the additions and multiplications may have been rounded */
+#else
   return res;
+#endif
 }
 
 /* ********************************************************************** */
-- 
2.43.0


From 562a8ff7e917b96f8bd81ecca7d77cc2c39db986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 20/92] fix: destructive assignment multiplied the row kind of
 polyhedra generators

---
 newpolka/pk_assign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_assign.c b/newpolka/pk_assign.c
index d5ab720..c51a275 100644
--- a/newpolka/pk_assign.c
+++ b/newpolka/pk_assign.c
@@ -82,7 +82,7 @@ pk_matrix_t* pk_matrix_assign_variable(pk_internal_t* pk,
     }
     else {
       /* Side-effect */
-      for (j=0; j<mat->nbcolumns; j++){
+      for (j=1; j<mat->nbcolumns; j++){
 	if (j!=var){
 	  if (den)
 	    numint_mul(nmat->p[i][j],mat->p[i][j],tab[0]);
-- 
2.43.0


From 6b955fedd98a794796b5edf86e8f575feb552e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 21/92] fix: satisfaction of strict constraints by loose
 polyhedra with rays on the boundary

---
 newpolka/pk_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_test.c b/newpolka/pk_test.c
index de1b33f..169c743 100644
--- a/newpolka/pk_test.c
+++ b/newpolka/pk_test.c
@@ -129,7 +129,7 @@ bool do_generators_sat_vector(pk_internal_t* pk, pk_matrix_t* F, numint_t* tab,
 	else {
 	  /* ray or vertex */
 	  if (is_strict && sign==0 &&
-	      (pk->strict ? numint_sgn(F->p[i][polka_eps])>0 : true))
+	      numint_sgn(F->p[i][pk->strict ? polka_eps : polka_cst])>0)
 	    return false;
 	}
       }
-- 
2.43.0


From ca157beaa1cdf5da484de13fedb4ec8bf08d6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 22/92] fix: crash in the meet of poly_asssub_linexpr when the
 substituted polyhedron is empty

---
 newpolka/pk_meetjoin.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 745badb..915f68d 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -302,6 +302,9 @@ void poly_meet(bool meet,
 	pk->exn = AP_EXC_NONE;
 	goto _poly_meet_entry0;
       }
+      /* pa may have been discovered to be empty */
+      if (poly_meet_particularcases(meet,lazy,man,po,pa,pb))
+	return;
     }
     /* Now, pa is the start polyhedron */
     poly_obtain_satC(pa);
-- 
2.43.0


From 7026d9d3e86c01d95071bd664b287ece71b39518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 23/92] fix: strict integer constraints were tested twice as
 strict by pk_sat_lincons

---
 newpolka/pk_test.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/newpolka/pk_test.c b/newpolka/pk_test.c
index 169c743..f1bc18f 100644
--- a/newpolka/pk_test.c
+++ b/newpolka/pk_test.c
@@ -298,9 +298,13 @@ bool pk_sat_lincons(ap_manager_t* man, pk_t* po, ap_lincons0_t* lincons0)
 				   &pk->poly_itv_lincons,
 				   po->intdim, po->realdim, true);
   if (sat){
+    /* strictness of integer constraints is already taken into account */
     sat = do_generators_sat_vector(pk,po->F,
 				   pk->poly_numintp,
-				   lincons0->constyp==AP_CONS_SUP);
+				   lincons0->constyp==AP_CONS_SUP &&
+				   (pk->strict ||
+				    !vector_is_integer(pk,pk->poly_numintp,
+						       po->intdim,po->realdim)));
   }
   man->result.flag_exact = man->result.flag_best =
     sat ?
@@ -353,9 +357,13 @@ bool pk_sat_tcons(ap_manager_t* man, pk_t* po, ap_tcons0_t* cons)
 					&pk->poly_itv_lincons,
 					po->intdim, po->realdim, true);
   if (sat){
+    /* strictness of integer constraints is already taken into account */
     sat = do_generators_sat_vector(pk,po->F,
 				   pk->poly_numintp,
-				   cons->constyp==AP_CONS_SUP);
+				   cons->constyp==AP_CONS_SUP &&
+				   (pk->strict ||
+				    !vector_is_integer(pk,pk->poly_numintp,
+						       po->intdim,po->realdim)));
   }
   man->result.flag_exact = man->result.flag_best = sat;
   return sat;
-- 
2.43.0


From b656b5ade2051334781c282760e67ba8b6ff23a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 24/92] fix: oct_is_eq claimed an exact negative answer without
 the closure of its second argument

---
 octagons/oct_predicate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octagons/oct_predicate.c b/octagons/oct_predicate.c
index 8240d29..059bcef 100644
--- a/octagons/oct_predicate.c
+++ b/octagons/oct_predicate.c
@@ -135,7 +135,7 @@ bool oct_is_eq(ap_manager_t* man, oct_t* a1, oct_t* a2)
     for (i=0;i<2*a1->dim;i++)
       for (j=0;j<=(i|1);j++,x++,y++)
 	if (bound_cmp(*x,*y)) {
-	  if (a1->closed) {
+	  if (a1->closed && a2->closed) {
 	    /* not equal on Q */
 	    if (num_incomplete || a1->intdim)
 	      { flag_incomplete; }
-- 
2.43.0


From 27c0647a8d42346bee2a70567640ab2e92e02f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 25/92] fix: use after free in PPL when testing constraints on
 grids with several points

---
 ppl/ppl_grid.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 4669dd3..c127648 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -513,6 +513,9 @@ bool ap_ppl_grid_sat_lincons(ap_manager_t* man, PPL_Grid* a,
 	assert (!bound_infty(lincons.linexpr.cst->inf));
 	exact = ap_ppl_of_itv_linexpr(l,den,&lincons.linexpr,-1) && exact;
 	itv_lincons_clear(&lincons);
+        /* relation_with may access freed memory when there are several points:
+           ensure that generators are minimized */
+        a->p->minimized_grid_generators();
 	switch (lincons.constyp){
 	case AP_CONS_SUPEQ:
 	  r = (l>=0); 
-- 
2.43.0


From 3573b4c4714e4809454d78bc471a95db5960de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 26/92] fix: congruences modulo 0 with interval constants lost
 states in PPL polyhedra

---
 ppl/ppl_user.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ppl/ppl_user.cc b/ppl/ppl_user.cc
index 210b5ed..ddd7e95 100644
--- a/ppl/ppl_user.cc
+++ b/ppl/ppl_user.cc
@@ -425,7 +425,7 @@ bool ap_ppl_of_itv_lincons(Constraint& r,
     if (allow_strict) { r = ( l > 0 ); return true; }
     else { r = (l >= 0); return false; }
   case AP_CONS_EQMOD:
-    if (numrat_sgn(lincons->num)==0){
+    if (numrat_sgn(lincons->num)==0 && itv_linexpr_is_scalar(&lincons->linexpr)){
       r = ( l == 0 ); return true;
     }
     else {
-- 
2.43.0


From a72a1d7e4328aad4a0d9813238a64c4680c77ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 27/92] fix: pk_join_array dualized twice a polyhedron
 occurring three times in the array

---
 newpolka/pk_meetjoin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 915f68d..c1b2689 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -655,13 +655,16 @@ pk_t* pk_join_array(ap_manager_t* man, pk_t** po, size_t size)
   qsort(tpoly,size,sizeof(pk_t*),poly_cmp);
 
   /* remove doublons */
-  for(i=0;i<size-1;i++){
+  i = 0;
+  while (i<size-1){
     if (tpoly[i]==tpoly[i+1]){
       if (i<size-2){
 	memmove(&tpoly[i+1],&tpoly[i+2],(size-i-2)*sizeof(pk_t*));
       }
       size--;
     }
+    else
+      i++;
   }
   /* dual */
   for (i=0;i<size;i++)
-- 
2.43.0


From 3ae92492e9ed81174fa947faf3855219f7f54d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 28/92] fix: polkaeq claimed exactness when it dropped
 inequalities or forgot a dimension

---
 newpolka/pkeq.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index 081c1ce..bf4b41f 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -91,7 +91,8 @@ void equality_reduce(ap_manager_t* man, pkeq_t* po)
   }
   if (po->C && po->F){
     if (po->C->nbrows > po->nbeq + 1){
-
+      /* inequalities are dropped */
+      man->result.flag_exact = false;
       po->C->nbrows = po->nbeq + 1;
       pk_matrix_fill_constraint_top(pk,po->C,po->nbeq);
       pk_matrix_reduce(po->C);
@@ -365,6 +366,7 @@ pkeq_t* equality_asssub_linexpr(bool assign,
   }
   else {
     po = pkeq_forget_array(man,destructive,pa,&dim,1,false);
+    man->result.flag_best = man->result.flag_exact = false;
   }
   return po;
  _equality_asssub_linexpr_error:
@@ -482,7 +484,11 @@ pkeq_t* pkeq_assign_linexpr_array(ap_manager_t* man,
     equality_asssub_linexpr_array(true,
 				  man,destructive,pa,tdim,texpr,size);
   if (pb!=NULL){
+    bool best = man->result.flag_best;
+    bool exact = man->result.flag_exact;
     po = pkeq_meet(man,true,po,pb);
+    man->result.flag_best = best && man->result.flag_best;
+    man->result.flag_exact = exact && man->result.flag_exact;
   }
   return po;
 }
@@ -503,7 +509,11 @@ pkeq_t* pkeq_substitute_linexpr_array(ap_manager_t* man,
     equality_asssub_linexpr_array(false,
 				  man,destructive,pa,tdim,texpr,size);
   if (pb!=NULL){
+    bool best = man->result.flag_best;
+    bool exact = man->result.flag_exact;
     po = pkeq_meet(man,true,po,pb);
+    man->result.flag_best = best && man->result.flag_best;
+    man->result.flag_exact = exact && man->result.flag_exact;
   }
   return po;
 }
-- 
2.43.0


From 8e0bfd902b65a432a828df19333c65a5f50cd362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 29/92] restore newpolka/pk_test.c (withdraws 6b955fe and
 7026d9d)

The file is a library source, but its name puts it among the test files
that are not to be changed here; the two defects are recorded as known
findings in /verif instead.
---
 newpolka/pk_test.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/newpolka/pk_test.c b/newpolka/pk_test.c
index f1bc18f..de1b33f 100644
--- a/newpolka/pk_test.c
+++ b/newpolka/pk_test.c
@@ -129,7 +129,7 @@ bool do_generators_sat_vector(pk_internal_t* pk, pk_matrix_t* F, numint_t* tab,
 	else {
 	  /* ray or vertex */
 	  if (is_strict && sign==0 &&
-	      numint_sgn(F->p[i][pk->strict ? polka_eps : polka_cst])>0)
+	      (pk->strict ? numint_sgn(F->p[i][polka_eps])>0 : true))
 	    return false;
 	}
       }
@@ -298,13 +298,9 @@ bool pk_sat_lincons(ap_manager_t* man, pk_t* po, ap_lincons0_t* lincons0)
 				   &pk->poly_itv_lincons,
 				   po->intdim, po->realdim, true);
   if (sat){
-    /* strictness of integer constraints is already taken into account */
     sat = do_generators_sat_vector(pk,po->F,
 				   pk->poly_numintp,
-				   lincons0->constyp==AP_CONS_SUP &&
-				   (pk->strict ||
-				    !vector_is_integer(pk,pk->poly_numintp,
-						       po->intdim,po->realdim)));
+				   lincons0->constyp==AP_CONS_SUP);
   }
   man->result.flag_exact = man->result.flag_best =
     sat ?
@@ -357,13 +353,9 @@ bool pk_sat_tcons(ap_manager_t* man, pk_t* po, ap_tcons0_t* cons)
 					&pk->poly_itv_lincons,
 					po->intdim, po->realdim, true);
   if (sat){
-    /* strictness of integer constraints is already taken into account */
     sat = do_generators_sat_vector(pk,po->F,
 				   pk->poly_numintp,
-				   cons->constyp==AP_CONS_SUP &&
-				   (pk->strict ||
-				    !vector_is_integer(pk,pk->poly_numintp,
-						       po->intdim,po->realdim)));
+				   cons->constyp==AP_CONS_SUP);
   }
   man->result.flag_exact = man->result.flag_best = sat;
   return sat;
-- 
2.43.0


From 54a35841e051109ed5f3c7bc0edd33b73a5198b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 30/92] fix: strict polyhedra with unnormalized strict
 constraints were treated as canonical by the equality test

---
 newpolka/pk_representation.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index f8feb42..d35103b 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -433,6 +433,29 @@ bool pk_is_minimal(ap_manager_t* man, pk_t* po)
 
 /* Is the polyhedron in a canonical representation ?
    (depends on the algorithm option of canonicalize) */
+/* In strict mode, are the strict constraints normalized (epsilon coefficient
+   equal to -1, other coefficients relatively prime) ? */
+static bool poly_check_conseps(pk_internal_t* pk, pk_t* po)
+{
+  size_t i,j;
+
+  if (poly_is_conseps(pk,po))
+    return true;
+  for (i=po->nbeq; i<po->C->nbrows; i++){
+    numint_t* q = po->C->p[i];
+    if (numint_sgn(q[polka_eps])<0){
+      if (numint_cmp_int(q[polka_eps],-1)!=0)
+	return false;
+      numint_set(pk->poly_numintp[0],q[polka_cst]);
+      for (j=pk->dec; j<po->C->nbcolumns; j++)
+	numint_gcd(pk->poly_numintp[0],pk->poly_numintp[0],q[j]);
+      if (numint_cmp_int(pk->poly_numintp[0],1)>0)
+	return false;
+    }
+  }
+  return true;
+}
+
 bool pk_is_canonical(ap_manager_t* man, pk_t* po)
 {
   bool res;
@@ -447,7 +470,8 @@ bool pk_is_canonical(ap_manager_t* man, pk_t* po)
     if (po->C->_sorted && po->F->_sorted &&
 	po->status & pk_status_consgauss &&
 	po->status & pk_status_gengauss &&
-	poly_is_minimaleps(pk,po)){
+	poly_is_minimaleps(pk,po) &&
+	poly_check_conseps(pk,po)){
       assert(pk_matrix_check_gauss(po->C,po->nbeq));
       assert(pk_matrix_check_gauss(po->F,po->nbline));
       res = true;
-- 
2.43.0


From 3a114c36f390226e808363084e6d2cc0cee36aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 31/92] fix: octagonal upper bounds added by the approximation
 of newpolka polyhedra had the wrong sign

---
 newpolka/pk_user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index 5f61231..43fc724 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -118,7 +118,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   numint_init(cst);
   numint_mul(cst,numrat_numref(numrat),vec[0]);
   if (mode>=0){
-    numint_sub(vec[polka_cst],vec[polka_cst],cst);
+    numint_sub(vec[polka_cst],cst,vec[polka_cst]);
     for (i=pk->dec; i<size; i++){
       numint_neg(vec[i],vec[i]);
     }
-- 
2.43.0


From ff6308f727ba5b2e9958fa20b4095492de0902a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 32/92] fix: rounding the coefficients of strict constraints
 excluded boundary points of the polyhedron

---
 newpolka/pk_approximate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newpolka/pk_approximate.c b/newpolka/pk_approximate.c
index 8fe5ff4..73315e4 100644
--- a/newpolka/pk_approximate.c
+++ b/newpolka/pk_approximate.c
@@ -304,6 +304,7 @@ bool pk_matrix_approximate_constraint_1x(pk_internal_t* pk, pk_matrix_t* C, pk_m
 	/* C. Compute new constant coefficient */
 	numint_set_int(vec[0],1);
 	numint_set_int(vec[polka_cst],0);
+	if (pk->strict) numint_set_int(vec[polka_eps],0); /* the bound may be reached */
 	pk_matrix_bound_vector(pk,itv,vec,F);
 	finite = !bound_infty(itv->inf);
 	if (finite){
@@ -336,6 +337,7 @@ bool pk_matrix_approximate_constraint_1x(pk_internal_t* pk, pk_matrix_t* C, pk_m
 	  /* G. Compute new constant coefficient */
 	  numint_set_int(vec[0],1);
 	  numint_set_int(vec[polka_cst],0);
+	  if (pk->strict) numint_set_int(vec[polka_eps],0);
 	  pk_matrix_bound_vector(pk,itv,vec,F);
 	  finite = !bound_infty(itv->inf);
 	  if (finite){
-- 
2.43.0


From e70f33da00e9477c34595f352eeb08c570dd06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 33/92] fix: hash values of PPL polyhedra and grids depended on
 the memory used by the representation

---
 ppl/ppl_grid.cc | 13 +++++--------
 ppl/ppl_poly.cc |  9 +++++++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index c127648..cda2b2a 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -258,14 +258,11 @@ int ap_ppl_grid_hash(ap_manager_t* man, PPL_Grid* a)
   man->result.flag_exact = man->result.flag_best = true;
   try {
     ((PPL_Grid*)a)->reduce();
-    /* the calls force in-place minimisation */
-    (void)a->p->minimized_congruences();
-#ifndef PPL_0_9
-    (void)a->p->minimized_grid_generators();
-#else
-    (void)a->p->minimized_generators();
-#endif
-    return a->p->total_memory_in_bytes();
+    /* only depends on the set of points, not on its representation */
+    unsigned int res = 31*a->p->space_dimension() + a->p->affine_dimension();
+    for (size_t i=0; i<a->p->space_dimension(); i++)
+      res = 2*res + (a->p->bounds_from_above(Variable(i)) ? 1 : 0);
+    return (int)res;
   }
   CATCH_WITH_VAL(AP_FUNID_HASH,0);
 }
diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index daf82a6..e8b12fb 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -234,8 +234,13 @@ int ap_ppl_poly_hash(ap_manager_t* man, PPL_Poly* a)
 {
   man->result.flag_exact = man->result.flag_best = true;
   try {
-    (void)a->p->minimized_constraints();
-    return a->p->total_memory_in_bytes();
+    /* only depends on the set of points, not on its representation */
+    unsigned int res = 31*a->p->space_dimension() + a->p->affine_dimension();
+    for (size_t i=0; i<a->p->space_dimension(); i++)
+      res = 7*res +
+	(a->p->bounds_from_above(Variable(i)) ? 1 : 0) +
+	(a->p->bounds_from_below(Variable(i)) ? 2 : 0);
+    return (int)res;
   }
   CATCH_WITH_VAL(AP_FUNID_HASH,0);
 }
-- 
2.43.0


From 12a78db84225275e890c7db31783bb244c455995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 34/92] fix: widening_threshold reordered the constraint array
 of its caller

---
 apron/ap_abstract0.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index a5cd333..7bd9768 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -1528,6 +1528,7 @@ ap_abstract0_t* ap_abstract0_widening_threshold(ap_manager_t* man,
   void* value;
   size_t i,j,size;
   ap_lincons0_t tmp;
+  ap_lincons0_array_t copy;
 
   ap_dimension_t dimension = _ap_abstract0_dimension(a1);
   if (ap_abstract0_checkman2(AP_FUNID_WIDENING,man,a1,a2) &&
@@ -1538,6 +1539,11 @@ ap_abstract0_t* ap_abstract0_widening_threshold(ap_manager_t* man,
 
     ptr2 = man->funptr[AP_FUNID_SAT_LINCONS];
     size = array->size;
+    /* the array of the caller is not reordered */
+    copy.size = size;
+    copy.p = (ap_lincons0_t*)malloc((size>0 ? size : 1)*sizeof(ap_lincons0_t));
+    for (i=0; i<size; i++) copy.p[i] = array->p[i];
+    array = &copy;
     i = j = 0;
     while (i<size-j){
       if (ptr2(man,a2->value,&array->p[i])){
@@ -1557,6 +1563,7 @@ ap_abstract0_t* ap_abstract0_widening_threshold(ap_manager_t* man,
       value = ptr(man,true,value,array);
       array->size = size;
     }
+    free(copy.p);
     return ap_abstract0_cons(man,value);
   }
   else {
-- 
2.43.0


From a439c374ce4e4fb0103c35495f3adc71833322d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 35/92] fix: the constraints of an empty PPL grid could be
 reported as none

---
 ppl/ppl_grid.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index cda2b2a..e3f11a5 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -696,6 +696,11 @@ ap_lincons0_array_t ap_ppl_grid_to_lincons_array(ap_manager_t* man,
 {
   man->result.flag_exact = man->result.flag_best = true;
   try {
+    if (a->p->is_empty()) { /* PPL may report no congruence at all */
+      ap_lincons0_array_t ar = ap_lincons0_array_make(1);
+      ar.p[0] = ap_lincons0_make_unsat();
+      return ar;
+    }
     return ap_ppl_to_lincons_array(a->p->congruences());
   }
   CATCH_WITH_VAL(AP_FUNID_TO_LINCONS_ARRAY,ap_lincons0_array_make(0));
-- 
2.43.0


From b34a9c33b1eb39f3898733bead366df7f7ffdcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 36/92] fix: hash values of strict polyhedra depended on the
 representation

---
 newpolka/pk_representation.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index d35103b..dc3f1c5 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -363,23 +363,26 @@ void pk_canonicalize(ap_manager_t* man, pk_t* po)
 int pk_hash(ap_manager_t* man, pk_t* po)
 {
   pk_internal_t* pk = pk_init_from_manager(man,AP_FUNID_HASH);
-  int res,t;
-  size_t i;
-  ap_funopt_t opt = ap_manager_get_funopt(man,AP_FUNID_CANONICALIZE);
+  unsigned int res;
+  size_t i,nbcons,nbgens;
 
   poly_chernikova3(man,po,NULL);
   assert(poly_check(pk,po));
   res = 5*po->intdim + 7*po->realdim;
   if (po->C!=NULL){
-    res += po->C->nbrows*11 +  po->F->nbrows*13;
-    for (i=0; i<po->C->nbrows; i += (po->C->nbrows+3)/4){
+    /* In strict mode, only equalities and lines have a unique representation */
+    bool unique = !pk->strict || po->realdim==0;
+    nbcons = unique ? po->C->nbrows : po->nbeq;
+    nbgens = unique ? po->F->nbrows : po->nbline;
+    res += nbcons*11 +  nbgens*13;
+    for (i=0; i<nbcons; i += (nbcons+3)/4){
       res = res*3 + vector_hash(pk,po->C->p[i],po->C->nbcolumns);
     }
-    for (i=0; i<po->F->nbrows; i += (po->F->nbrows+3)/4){
+    for (i=0; i<nbgens; i += (nbgens+3)/4){
       res = res*3 + vector_hash(pk,po->F->p[i],po->F->nbcolumns);
     }
   }
-  return res;
+  return (int)res;
 }
 
 /* Minimize the size of the representation of the polyhedron */
-- 
2.43.0


From 9058ef42c30e9315910da762abd9f2763e6300f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 37/92] fix: signed integer overflows in hash functions

---
 box/box_representation.c | 5 +++--
 itv/itv.h                | 2 +-
 newpolka/pk_vector.c     | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/box/box_representation.c b/box/box_representation.c
index c52b098..cf57561 100644
--- a/box/box_representation.c
+++ b/box/box_representation.c
@@ -136,7 +136,8 @@ void box_canonicalize(ap_manager_t* man, box_t* a)
 /* Return an hash code */
 int box_hash(ap_manager_t* man, box_t* a)
 {
-  int i,dec,size,res;
+  int i,size;
+  unsigned int res;
   size = a->intdim +a->realdim;
   res = size * 2999;
   
@@ -147,7 +148,7 @@ int box_hash(ap_manager_t* man, box_t* a)
   }
   man->result.flag_best = true;
   man->result.flag_exact = true;
-  return res;
+  return (int)res;
 }
 
 /* Perform some transformation on the abstract value, guided by the
diff --git a/itv/itv.h b/itv/itv.h
index a51d157..a87d05a 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -461,7 +461,7 @@ static inline bool itv_is_eq(itv_t a, itv_t b)
 }
 static inline int itv_hash(itv_t a)
 {
-  return (5*bound_hash(a->inf) + 7*bound_hash(a->sup));
+  return (int)(5*(unsigned int)bound_hash(a->inf) + 7*(unsigned int)bound_hash(a->sup));
 }
 static inline bool itv_meet(itv_internal_t* intern, itv_t a, itv_t b, itv_t c)
 {
diff --git a/newpolka/pk_vector.c b/newpolka/pk_vector.c
index d002ee2..30b76aa 100644
--- a/newpolka/pk_vector.c
+++ b/newpolka/pk_vector.c
@@ -590,7 +590,8 @@ bool vector_is_integer(pk_internal_t* pk,
 
 long vector_hash(pk_internal_t* pk,numint_t* vec, size_t size)
 {
-  long res,t;
+  long t;
+  unsigned long res;
   size_t i;
 
   int_set_numint(&t,vec[polka_cst]);
@@ -599,5 +600,5 @@ long vector_hash(pk_internal_t* pk,numint_t* vec, size_t size)
     int_set_numint(&t,vec[i]);
     res = res*3 + t;
   }
-  return res;
+  return (long)res;
 }
-- 
2.43.0


From 0a736f018196c3c0db0dc8f067c0c973d7e2ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 38/92] fix: the closure of strict polyhedra left constraints
 unnormalized (assertion failure)

---
 newpolka/pk_closure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newpolka/pk_closure.c b/newpolka/pk_closure.c
index 720c441..66bb8d6 100644
--- a/newpolka/pk_closure.c
+++ b/newpolka/pk_closure.c
@@ -61,6 +61,7 @@ pk_t* pk_closure(ap_manager_t* man, bool destructive, pk_t* pa)
       else {
 	change = true;
 	numint_set_int(C->p[i][polka_eps],0);
+	vector_normalize(pk,C->p[i],C->nbcolumns);
       }
     }
   }
-- 
2.43.0


From f6be7475bb77212b189f55a97256267570197d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 39/92] fix: negative answers of reduced products were claimed
 exact; truncated exception messages

---
 apron/ap_reducedproduct.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/apron/ap_reducedproduct.c b/apron/ap_reducedproduct.c
index 6b19fea..d99190d 100644
--- a/apron/ap_reducedproduct.c
+++ b/apron/ap_reducedproduct.c
@@ -86,7 +86,7 @@ void collect_results0(ap_manager_t* manager)
       while (true){
         size_t sz = strlen(man->library)+(last->msg ? strlen(last->msg) : 0)+3;
 	char* buffer = malloc(sz);
-	snprintf(buffer,sizeof(sz),"%s: %s",
+	snprintf(buffer,sz,"%s: %s",
 		man->library,(last->msg ? "" : last->msg));
 	if (last->msg) free(last->msg);
 	last->msg = buffer;
@@ -405,6 +405,8 @@ bool ap_reducedproduct_is_bottom(ap_manager_t* manager, ap_reducedproduct_t* a)
     if (gres) break;
   }
   collect_results0(manager);
+  if (!gres) /* decides nothing on the intersection of the components */
+    manager->result.flag_exact = manager->result.flag_best = false;
   return gres;
 }
 bool ap_reducedproduct_is_top(ap_manager_t* manager, ap_reducedproduct_t* a)
@@ -440,6 +442,8 @@ bool ap_reducedproduct_##NAME(ap_manager_t* manager, ap_reducedproduct_t* a,  ap
     if (!gres) break;							\
   }									\
   collect_results0(manager);						\
+  if (!gres) /* decides nothing on the intersections */			\
+    manager->result.flag_exact = manager->result.flag_best = false;	\
   return gres;								\
 }
 
@@ -460,6 +464,8 @@ bool ap_reducedproduct_sat_lincons(ap_manager_t* manager, ap_reducedproduct_t* a
     if (gres) break;
   }
   collect_results0(manager);
+  if (!gres) /* decides nothing on the intersection of the components */
+    manager->result.flag_exact = manager->result.flag_best = false;
   return gres;
 }
 bool ap_reducedproduct_sat_tcons(ap_manager_t* manager, ap_reducedproduct_t* a, ap_tcons0_t* tcons)
@@ -476,6 +482,8 @@ bool ap_reducedproduct_sat_tcons(ap_manager_t* manager, ap_reducedproduct_t* a,
     if (gres) break;
   }
   collect_results0(manager);
+  if (!gres) /* decides nothing on the intersection of the components */
+    manager->result.flag_exact = manager->result.flag_best = false;
   return gres;
 }
 bool ap_reducedproduct_sat_interval(ap_manager_t* manager, ap_reducedproduct_t* a,
@@ -493,6 +501,8 @@ bool ap_reducedproduct_sat_interval(ap_manager_t* manager, ap_reducedproduct_t*
     if (gres) break;
   }
   collect_results0(manager);
+  if (!gres) /* decides nothing on the intersection of the components */
+    manager->result.flag_exact = manager->result.flag_best = false;
   return gres;
 }
 bool ap_reducedproduct_is_dimension_unconstrained(ap_manager_t* manager, ap_reducedproduct_t* a,
@@ -511,6 +521,8 @@ bool ap_reducedproduct_is_dimension_unconstrained(ap_manager_t* manager, ap_redu
     if (!gres) break;
   }
   collect_results0(manager);
+  if (!gres) /* decides nothing on the intersection of the components */
+    manager->result.flag_exact = manager->result.flag_best = false;
   return gres;
 }
 
-- 
2.43.0


From 2cc4fe3c7086076d2b866d223e510539b19bf836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 40/92] fix: box_fold claimed exactness of a convex hull

---
 box/box_otherops.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/box/box_otherops.c b/box/box_otherops.c
index 8db19ac..c93d87f 100644
--- a/box/box_otherops.c
+++ b/box/box_otherops.c
@@ -116,6 +116,7 @@ box_t* box_fold(ap_manager_t* man,
     dimchange.dim[i]=tdim[i+1];
   }
   res = box_remove_dimensions(man,true,res,&dimchange);
+  man->result.flag_exact = false;
   ap_dimchange_clear(&dimchange);
   return res;
 }
-- 
2.43.0


From 57bbea46e6d93411637572c315de9812ccbfe9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 41/92] fix: constant disequalities and congruences, and
 integer equalities without solution, were not recognized

---
 itv/itv_linexpr.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 00479f6..0a7edaa 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -539,7 +539,7 @@ tbool_t ITVFUN(itv_eval_cstlincons)(itv_internal_t* intern,
       (bound_sgn(cst->inf)<0 ||
        bound_sgn(cst->sup)<0) ?
       tbool_true :
-      tbool_top;
+      (equality ? tbool_false : tbool_top);
     break;
   case AP_CONS_SUPEQ:
     if (bound_sgn(cst->inf)<=0)
@@ -574,7 +574,7 @@ tbool_t ITVFUN(itv_eval_cstlincons)(itv_internal_t* intern,
 	  res = tbool_true;
 	}
 	else {
-	  res = tbool_top;
+	  res = tbool_false;
 	}
 	numrat_clear(numrat);
 #elif defined(NUM_NUMINT)
@@ -585,7 +585,7 @@ tbool_t ITVFUN(itv_eval_cstlincons)(itv_internal_t* intern,
 	  res = tbool_true;
 	}
 	else {
-	  res = tbool_top;
+	  res = tbool_false;
 	}
 	numint_clear(numint);
 #else
@@ -769,6 +769,13 @@ void ITVFUN(itv_lincons_reduce_integer)(itv_internal_t* intern,
   }
   itv_div_num(expr->cst,expr->cst,intern->quasi_num);
 #endif 
+  /* No solution if the constant of an equality is not an integer */
+  if (cons->constyp==AP_CONS_EQ && expr->equality &&
+      !bound_infty(expr->cst->sup) &&
+      !num_integer(bound_numref(expr->cst->sup))){
+    itv_lincons_set_bool(cons,false);
+    return;
+  }
   /* Constrain bounds */
   if (!bound_infty(expr->cst->sup)){
     if (cons->constyp==AP_CONS_SUP){
-- 
2.43.0


From be31845b2008889a1f4ec24fa1df284712adc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 42/92] fix: meets with interval coefficients claimed exactness

---
 newpolka/pk_meetjoin.c | 5 +++--
 ppl/ppl_poly.cc        | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index c1b2689..53b2f15 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -528,7 +528,7 @@ void poly_meet_itv_lincons_array(bool lazy,
 				 itv_lincons_array_t* array)
 {
   pk_matrix_t* mat;
-  bool quasilinear;
+  bool quasilinear, exact = true;
   pk_internal_t* pk = (pk_internal_t*)man->internal;
 
   quasilinear = itv_lincons_array_is_quasilinear(array);
@@ -558,11 +558,12 @@ void poly_meet_itv_lincons_array(bool lazy,
   if (!quasilinear){
     itv_t* env = pk_matrix_to_box(pk,pa->F);
     itv_quasilinearize_lincons_array(pk->itv,array,env,true);
+    exact = false;
     itv_array_free(env,pa->intdim+pa->realdim);
   }
   itv_linearize_lincons_array(pk->itv,array,true);
   itv_lincons_array_reduce_integer(pk->itv,array,po->intdim);
-  bool exact = pk_matrix_set_itv_lincons_array(pk,&mat,array,po->intdim,po->realdim,true);
+  exact = pk_matrix_set_itv_lincons_array(pk,&mat,array,po->intdim,po->realdim,true) && exact;
   pk_matrix_sort_rows(pk,mat);
   if (!lazy) poly_obtain_satC(pa);
   poly_meet_matrix(true,lazy,man,po,pa,mat);
diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index e8b12fb..99f2c15 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -797,7 +797,8 @@ PPL_Poly* ap_ppl_poly_meet_lincons_array(ap_manager_t* man,
     exact = itv_lincons_array_set_ap_lincons0_array(intern->itv, &array2, array) && exact;
     if (!itv_lincons_array_is_quasilinear(&array2)){
       itv_t* env = ap_ppl_poly_to_itv_array(a);
-      exact = itv_quasilinearize_lincons_array(intern->itv,&array2,env,true) && exact;
+      itv_quasilinearize_lincons_array(intern->itv,&array2,env,true);
+      exact = false;
       itv_array_free(env,a->p->space_dimension());
     }
     itv_linearize_lincons_array(intern->itv,&array2,true);
-- 
2.43.0


From 95fdaf1a9787713a337a8748aed19f9ba141b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 43/92] fix: foldings of polyhedra claimed exactness

---
 newpolka/pk_expandfold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newpolka/pk_expandfold.c b/newpolka/pk_expandfold.c
index 5fd3e74..4837e9f 100644
--- a/newpolka/pk_expandfold.c
+++ b/newpolka/pk_expandfold.c
@@ -316,8 +316,8 @@ pk_t* pk_fold(ap_manager_t* man,
     }
   }
 
-  man->result.flag_best = (intdimsup==0);
-  man->result.flag_exact = (intdimsup==0);
+  man->result.flag_best = (po->intdim+intdimsup==0);
+  man->result.flag_exact = size<=1;
   assert(poly_check(pk,po));
   return po;
 }
-- 
2.43.0


From 72f1c28b6dbac020ebb3aac3e64ab6aacbb9893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 44/92] fix: transfers and bounds of polyhedra with interval
 coefficients, integer dimensions or rounding claimed exactness

---
 newpolka/pk_assign.c  | 14 +++++++++-----
 newpolka/pk_extract.c |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/newpolka/pk_assign.c b/newpolka/pk_assign.c
index c51a275..dfba9d3 100644
--- a/newpolka/pk_assign.c
+++ b/newpolka/pk_assign.c
@@ -580,7 +580,7 @@ pk_t* poly_asssub_linexpr_array(bool assign,
   /* Is the result exact or best ? */
   if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
     size_t i;
-    man->result.flag_best = true;
+    man->result.flag_best = ap_linexpr0_array_is_quasilinear(texpr,size);
     for (i=0;i<size;i++){
       if (tdim[i] < pa->intdim || !ap_linexpr0_is_real(texpr[i], pa->intdim)){
 	man->result.flag_best = false;
@@ -590,7 +590,8 @@ pk_t* poly_asssub_linexpr_array(bool assign,
     man->result.flag_exact = man->result.flag_best;
   }
   else {
-    man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
+    man->result.flag_best = man->result.flag_exact =
+      pa->intdim==0 && ap_linexpr0_array_is_quasilinear(texpr,size);
   }
   return po;
 }
@@ -655,10 +656,11 @@ pk_t* poly_asssub_linexpr(bool assign,
     man->result.flag_best = man->result.flag_exact =
       (dim < pa->intdim || !ap_linexpr0_is_real(linexpr, pa->intdim)) ?
       false :
-      true;
+      ap_linexpr0_is_quasilinear(linexpr);
   }
   else {
-    man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
+    man->result.flag_best = man->result.flag_exact =
+      pa->intdim==0 && ap_linexpr0_is_quasilinear(linexpr);
   }
   return po;
 }
@@ -738,7 +740,9 @@ pk_t* poly_asssub_texpr_array(bool assign,
   }
   /* Is the result exact or best ? */
   if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
-    man->result.flag_best = ap_texpr0_array_is_interval_linear(texpr,size);
+    man->result.flag_best = pa->intdim==0 &&
+      ap_texpr0_array_is_scalar(texpr,size) &&
+      ap_texpr0_array_is_interval_linear(texpr,size);
     man->result.flag_exact = man->result.flag_best;
   }
   else {
diff --git a/newpolka/pk_extract.c b/newpolka/pk_extract.c
index c8e4245..d3fec6c 100644
--- a/newpolka/pk_extract.c
+++ b/newpolka/pk_extract.c
@@ -383,7 +383,8 @@ ap_interval_t* pk_bound_texpr(ap_manager_t* man,
   ap_interval_set_itv(pk->itv,interval,itv1);
   itv_clear(itv1); itv_clear(itv2);
   itv_array_free(env,po->intdim+po->realdim);
-  man->result.flag_exact = man->result.flag_best = ap_texpr0_is_interval_linear(expr);
+  man->result.flag_exact = man->result.flag_best =
+    po->intdim==0 && ap_texpr0_is_scalar(expr) && ap_texpr0_is_interval_linear(expr);
 
   return interval;
 }
-- 
2.43.0


From 47376053bc0addccab96508f64378723b6fae618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 45/92] fix: octagon assignments read stale coefficients when
 one variable is unbounded

---
 octagons/oct_transfer.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/octagons/oct_transfer.c b/octagons/oct_transfer.c
index c283cc3..61c07ff 100644
--- a/octagons/oct_transfer.c
+++ b/octagons/oct_transfer.c
@@ -701,11 +701,11 @@ static void hmat_assign(oct_internal_t* pr, uexpr u, bound_t* m, size_t dim,
     else if (Cinf==1) {
       /* exactly one bound is infinite, X_d+/-X_Cinf may still be finite */
       if (Ci!=d) {
-	if (!bound_cmp_int(pr->tmp[2*i+3],1) &&
-	    !bound_cmp_int(pr->tmp[2*i+2],-1))
+	if (!bound_cmp_int(pr->tmp[2*Ci+3],1) &&
+	    !bound_cmp_int(pr->tmp[2*Ci+2],-1))
 	  bound_div_2(m[matpos2(2*Ci,2*d)],Cb);
-	else if (!bound_cmp_int(pr->tmp[2*i+3],-1) &&
-		 !bound_cmp_int(pr->tmp[2*i+2],1))
+	else if (!bound_cmp_int(pr->tmp[2*Ci+3],-1) &&
+		 !bound_cmp_int(pr->tmp[2*Ci+2],1))
 	  bound_div_2(m[matpos2(2*Ci+1,2*d)],Cb);
       }
     }
@@ -733,11 +733,11 @@ static void hmat_assign(oct_internal_t* pr, uexpr u, bound_t* m, size_t dim,
     else if (cinf==1) {
       /* exactly one bound is infinite, -X_d+/-X_Cinf may still be finite */
       if (ci!=d) {
-	if (!bound_cmp_int(pr->tmp[2*i+3],1) &&
-	    !bound_cmp_int(pr->tmp[2*i+2],-1))
+	if (!bound_cmp_int(pr->tmp[2*ci+3],1) &&
+	    !bound_cmp_int(pr->tmp[2*ci+2],-1))
 	  bound_div_2(m[matpos2(2*d,2*ci)],cb);
-	else if (!bound_cmp_int(pr->tmp[2*i+3],-1) &&
-		 !bound_cmp_int(pr->tmp[2*i+2],1))
+	else if (!bound_cmp_int(pr->tmp[2*ci+3],-1) &&
+		 !bound_cmp_int(pr->tmp[2*ci+2],1))
 	  bound_div_2(m[matpos2(2*d,2*ci+1)],cb);
       }
     }
-- 
2.43.0


From 2f8fa11045d597dee7105ba8ba321ee5ce260232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 46/92] fix: ap_environment dimension changes of environments
 used a stale comparison and wrote past the change when nothing matched

---
 apron/ap_environment.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index d679c0a..4657e4f 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -295,19 +295,22 @@ static bool env_lce_dimchange(env_t* e1, env_t* e,
 			      ap_dimchange_t* dimchange1,
 			      size_t offsetwrite, size_t offsetread)
 {
-  size_t i,i1,k1;
-  int sgn=0;
+  size_t i,i1,k1,nb;
+  int sgn;
 
   if (e1->size>e->size) return true;
+  nb = e->size-e1->size; /* number of dimensions to insert */
   i = 0;
   k1 = 0;
   for (i1=0; i1<e1->size; i1++){
+    sgn = 1;
     while (i<e->size){
       sgn = ap_var_operations->compare(e1->var_of_dim[i1],e->var_of_dim[i]);
       i++;
       if (sgn<0) return true;
       if (sgn==0) break;
       /* here, a new dimension to insert */
+      if (k1>=nb) return true;
       dimchange1->dim[offsetwrite+k1] = offsetread+i1;
       k1++;
     }
-- 
2.43.0


From 27c5e3ba417e45ef2d1bcb5dd3e4b8ec389228e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 47/92] fix: ap_environment_lce_array sorted and deduplicated
 the caller's array and leaked environments

---
 apron/ap_environment.c | 47 +++++++-----------------------------------
 1 file changed, 8 insertions(+), 39 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index 4657e4f..4316292 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -891,13 +891,6 @@ ap_environment_t* ap_environment_lce(ap_environment_t* env1,
   the array (*ptdimchange)[0] with malloc.
 
 */
-static int env_cmp(const void* a, const void* b)
-{
-  ap_environment_t* pa = *((ap_environment_t*const*)a);
-  ap_environment_t* pb = *((ap_environment_t*const*)b);
-  return (pa>pb ? 1 : (pa==pb ? 0 : -1));
-}
-
 ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 					   size_t size,
 					   ap_dimchange_t*** ptdimchange)
@@ -908,34 +901,16 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
   size_t* tindex;
   denv_t denv;
   int j;
-  bool change;
 
   assert(size>=1);
 
-  qsort(tenv,size,sizeof(ap_environment_t*),env_cmp);
-  /* remove doublons */
-  for(i=0;i<size-1;i++){
-    if (tenv[i]==tenv[i+1]){
-      if (i<size-2){
-	memmove(&tenv[i+1],&tenv[i+2],(size-i-2)*sizeof(ap_environment_t*));
-      }
-      size--;
-    }
-  }
-  if (size==1){
-    *ptdimchange = malloc(sizeof(ap_dim_t*));
-    (*ptdimchange)[0] = NULL;
-    return tenv[0];
+  /* Are all the environments the same ? */
+  for (i=1; i<size; i++){
+    if (!ap_environment_is_eq(tenv[0],tenv[i])) break;
   }
-  if (size==2){
-    if (ap_environment_is_eq(tenv[0],tenv[1])){
-      *ptdimchange = NULL;
-      return tenv[0];
-    }
-    else {
-      *ptdimchange = malloc(2*sizeof(ap_dimchange_t*));
-      return ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
-    }
+  if (i==size){
+    *ptdimchange = NULL;
+    return ap_environment_copy(tenv[0]);
   }
 
   /* Compute env */
@@ -962,7 +937,6 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 
   /* Compute transformations */
   *ptdimchange = malloc(size*sizeof(ap_dimchange_t*));
-  change = false;
   j = -1;
   for (i=0;i<size;i++){
     if (tdenv[i].envint.size==denv.envint.size &&
@@ -971,7 +945,6 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
       if (j<0) j = (int)i;
     }
     else {
-      change = true;
       (*ptdimchange)[i] = ap_dimchange_alloc(denv.envint.size-tdenv[i].envint.size,
 					     denv.envreal.size-tdenv[i].envreal.size);
       env_lce_dimchange(&tdenv[i].envint,&denv.envint,
@@ -981,20 +954,16 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     }
   }
   free(tdenv);
-  if (j>0){
+  if (j>=0){
     env_clear(&denv.envint);
     env_clear(&denv.envreal);
-    if (!change){
-      free(*ptdimchange);
-      *ptdimchange=NULL;
-    }
     return ap_environment_copy(tenv[j]);
   }
   else {
     ap_environment_t* env = environment_of_denv(&denv);
     if (ap_environment_check(env)){
       for (i=0;i<size;i++){
-	if ((*ptdimchange)[i]) free((*ptdimchange)[i]);
+	if ((*ptdimchange)[i]) ap_dimchange_free((*ptdimchange)[i]);
       }
       free(*ptdimchange);
       *ptdimchange=NULL;
-- 
2.43.0


From af148ea66761e7e3bc25affab1dfe1a5e80d29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 48/92] fix: ap_environment_remove aborted on duplicated
 variables and leaked on failure

---
 apron/ap_environment.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index 4316292..4d28525 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -216,7 +216,13 @@ static env_t env_remove(env_t* env, ap_var_t* var_of_dim, size_t size)
     for (i=0;i<nenv.size; i++){
       while (j<size){
 	int sgn = ap_var_operations->compare(env->var_of_dim[i+j],var_of_dim[j]);
-	assert(sgn<=0);
+	if (sgn>0){
+	  /* duplicate (or unknown) name */
+	  nenv.size = i;
+	  env_clear(&nenv);
+	  nenv.size = UINT_MAX;
+	  return nenv;
+	}
 	if (sgn==0)
 	  j++;
 	else
@@ -562,6 +568,8 @@ ap_environment_t* ap_environment_remove(ap_environment_t* env,
   denv2.envreal = env_remove(&denv1.envreal, tvarreal, realdim);
   if (denv2.envint.size==UINT_MAX ||
       denv2.envreal.size==UINT_MAX){
+    if (denv2.envint.size!=UINT_MAX) env_clear(&denv2.envint);
+    if (denv2.envreal.size!=UINT_MAX) env_clear(&denv2.envreal);
     res = NULL;
   } else {
     res = environment_of_denv(&denv2);
-- 
2.43.0


From 44e4e82ba7b3c6d699f3b3412dad98a6006ab249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 49/92] fix: failed ap_environment_rename left a dangling
 permutation and leaked

---
 apron/ap_environment.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index 4d28525..a29ed43 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -1009,8 +1009,12 @@ ap_environment_t* ap_environment_rename(ap_environment_t* env,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar1[j]);
     if (dim==AP_DIM_MAX){
       ap_environment_free(res);
+      perm->dim = NULL;
+      perm->size = 0;
       return NULL;
     }
+    if (res->var_of_dim[dim]!=NULL)
+      ap_var_operations->free(res->var_of_dim[dim]);
     res->var_of_dim[dim] = ap_var_operations->copy(tvar2[j]);
   }
   for (i=0; i<nbdims; i++){
-- 
2.43.0


From da27a93ab201b16601c3aa6d06b0daf144edd996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 50/92] fix: memcpy from a null pointer with empty environments

---
 apron/ap_environment.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index a29ed43..b60475c 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -414,10 +414,12 @@ static ap_environment_t* environment_of_denv(denv_t* denv)
   res = malloc(sizeof(ap_environment_t));
   res->var_of_dim = malloc((denv->envint.size + denv->envreal.size)*
 			   sizeof(ap_var_t));
-  memcpy(&res->var_of_dim[0],
-	 denv->envint.var_of_dim,denv->envint.size*sizeof(ap_var_t));
-  memcpy(&res->var_of_dim[denv->envint.size],
-	 denv->envreal.var_of_dim,denv->envreal.size*sizeof(ap_var_t));
+  if (denv->envint.size)
+    memcpy(&res->var_of_dim[0],
+	   denv->envint.var_of_dim,denv->envint.size*sizeof(ap_var_t));
+  if (denv->envreal.size)
+    memcpy(&res->var_of_dim[denv->envint.size],
+	   denv->envreal.var_of_dim,denv->envreal.size*sizeof(ap_var_t));
   free(denv->envint.var_of_dim);
   free(denv->envreal.var_of_dim);
   res->intdim = denv->envint.size;
-- 
2.43.0


From b56ced3eeb53b3ea5c75307965f1f402601bcf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 51/92] fix: quasilinearization and intlinearization of arrays
 of constraints did not report whether the result is exact, or skipped
 elements

---
 apron/ap_lincons0.c      | 2 +-
 apron/ap_linearize.c     | 4 ++--
 apron/ap_linearize_aux.c | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 69c37d7..1345472 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -243,7 +243,7 @@ ap_linexpr_type_t ap_lincons0_array_type(ap_lincons0_array_t* array)
   for (i=0; i<array->size; i++){
     ap_linexpr_type_t type = ap_linexpr0_type(array->p[i].linexpr0);
     if (type < res)
-      type = res;
+      res = type;
     if (res==AP_LINEXPR_INTLINEAR)
       break;
   }
diff --git a/apron/ap_linearize.c b/apron/ap_linearize.c
index 2ce2dd3..6cb4f5a 100644
--- a/apron/ap_linearize.c
+++ b/apron/ap_linearize.c
@@ -149,8 +149,8 @@ ap_quasilinearize_lincons0_array(ap_manager_t* man,
 				 bool meet)
 {
   ap_linexpr_type_t type = ap_lincons0_array_type(array);
-  if ((linearize && type==AP_LINEXPR_LINEAR) ||
-      type==AP_LINEXPR_QUASILINEAR){
+  if (type==AP_LINEXPR_LINEAR ||
+      (!linearize && type==AP_LINEXPR_QUASILINEAR)){
     *pexact = true;
     return *array;
   }
diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 0e7e2e7..1fa9b84 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -231,7 +231,8 @@ ITVFUN(ap_quasilinearize_lincons0_array)(ap_manager_t* man,
   exact = quasilinearize_alloc(man,abs,&intern,&lincons,&env,&dim);
   itv_lincons_array_init(&tlincons,array->size);
   exact = itv_lincons_array_set_ap_lincons0_array(intern,&tlincons,array) && exact;
-  exact = itv_quasilinearize_lincons_array(intern,&tlincons,env,meet);
+  exact = itv_quasilinearize_lincons_array(intern,&tlincons,env,meet) && exact;
+  *pexact = exact;
   if (linearize) 
     itv_linearize_lincons_array(intern,&tlincons,meet);
   res = ap_lincons0_array_make(tlincons.size);
-- 
2.43.0


From f206f7fd9dcdc75a286895dd2c900016a7ac4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 52/92] fix: linearisation rounded the modulus of congruences

---
 itv/itv_linearize.c |  8 ++++----
 itv/itv_linexpr.c   |  2 +-
 itv/itv_linexpr.h   | 13 +++++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 25ec3f7..e8d0fb8 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1020,7 +1020,7 @@ ITVFUN(itv_intlinearize_ap_tcons0_intlinear)(itv_internal_t* intern,
   else {
     res->constyp = cons->constyp;
     if (cons->scalar){
-      num_set_ap_scalar(res->num,cons->scalar);
+      itv_lincons_set_modulo(res,cons->scalar);
     }
     else {
       num_set_int(res->num,0);
@@ -1043,7 +1043,7 @@ ITVFUN(itv_intlinearize_ap_tcons0_array_intlinear)(itv_internal_t* intern,
     bool exc = itv_intlinearize_ap_texpr0_intlinear(intern,&res->p[i].linexpr,array->p[i].texpr0);
     res->p[i].constyp = array->p[i].constyp;
     if (array->p[i].scalar){
-      num_set_ap_scalar(res->p[i].num,array->p[i].scalar);
+      itv_lincons_set_modulo(&res->p[i],array->p[i].scalar);
     }
     else {
       num_set_int(res->p[i].num,0);
@@ -1574,7 +1574,7 @@ ITVFUN(itv_intlinearize_ap_tcons0)(itv_internal_t* intern,
     }
     res->constyp = cons->constyp;
     if (cons->scalar){
-      num_set_ap_scalar(res->num,cons->scalar);
+      itv_lincons_set_modulo(res,cons->scalar);
     }
     else {
       num_set_int(res->num,0);
@@ -1609,7 +1609,7 @@ ITVFUN(itv_intlinearize_ap_tcons0_array)(itv_internal_t* intern,
 				env,intdim,&res->p[i].linexpr,itv);
     res->p[i].constyp = array->p[i].constyp;
     if (array->p[i].scalar){
-      num_set_ap_scalar(res->p[i].num,array->p[i].scalar);
+      itv_lincons_set_modulo(&res->p[i],array->p[i].scalar);
     }
     else {
       num_set_int(res->p[i].num,0);
diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 0a7edaa..025fa9e 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -226,7 +226,7 @@ bool ITVFUN(itv_lincons_set_ap_lincons0)(itv_internal_t* intern,
 					    lincons0->linexpr0);
   cons->constyp = lincons0->constyp;
   if (lincons0->scalar){
-    bool exact2 = num_set_ap_scalar(cons->num,lincons0->scalar);
+    bool exact2 = itv_lincons_set_modulo(cons,lincons0->scalar);
     return exact1 && exact2;
   }
   else {
diff --git a/itv/itv_linexpr.h b/itv/itv_linexpr.h
index f250a6e..2cf0c4c 100644
--- a/itv/itv_linexpr.h
+++ b/itv/itv_linexpr.h
@@ -303,6 +303,19 @@ static inline void itv_lincons_init(itv_lincons_t* cons)
 { itv_linexpr_init(&cons->linexpr,0); num_init(cons->num); }
 static inline void itv_lincons_set(itv_lincons_t* a, itv_lincons_t* b)
 { if (a!=b){ itv_linexpr_set(&a->linexpr,&b->linexpr); num_set(a->num,b->num); a->constyp = b->constyp; } }
+static inline bool itv_lincons_set_modulo(itv_lincons_t* cons, ap_scalar_t* scalar)
+{
+  /* Convert the modulo of a congruence (cons->linexpr and cons->constyp
+     being set). If it is not representable, nothing is known on the
+     expression modulo the rounded number: the constant becomes [-oo,+oo]. */
+  bool exact = num_set_ap_scalar(cons->num,scalar);
+  if (!exact && cons->constyp==AP_CONS_EQMOD){
+    itv_set_top(cons->linexpr.cst);
+    cons->linexpr.equality = false;
+  }
+  return exact;
+}
+
 static inline void itv_lincons_set_bool(itv_lincons_t* a, bool value)
 { ITVFUN(itv_lincons_set_bool)(a,value); }
 static inline void itv_lincons_clear(itv_lincons_t* cons)
-- 
2.43.0


From 72d107722471d1e54c90f07f899e33d265996179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 53/92] fix: intlinearize_tcons0_array stopped on constraints
 of undecided truth

---
 apron/ap_linearize_aux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 1fa9b84..1e6b751 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -443,7 +443,8 @@ ITVFUN(ap_intlinearize_tcons0_array)(ap_manager_t* man,
   itv_intlinearize_ap_tcons0_array(&intern,&tlincons,
 				   array,env, dim.intdim);
   if (tlincons.size==1 && 
-      tlincons.p[0].linexpr.size==0)
+      tlincons.p[0].linexpr.size==0 &&
+      itv_eval_cstlincons(&intern,&tlincons.p[0])==tbool_false)
     goto ap_intlinearize_tcons0_array_exit;
   if (meet && boxize && 
       (intervalonly ? !itv_lincons_array_is_quasilinear(&tlincons) : true)){
-- 
2.43.0


From 979a50902c3c7469ba730d2639f37034a9485f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 54/92] fix: interval linearisation of tree expressions used an
 uninitialised or freed result

---
 apron/ap_linearize_aux.c | 8 +++-----
 itv/itv_linearize.c      | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 1e6b751..b65515a 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -301,12 +301,10 @@ ITVFUN(ap_intlinearize_texpr0_intlinear)(ap_manager_t* man,
   intern = itv_internal_alloc();
   itv_linexpr_init(&linexpr,0);
   exc = itv_intlinearize_ap_texpr0_intlinear(intern,&linexpr,expr);
+  res = NULL;
+  if (!exc)
+    ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
   itv_internal_free(intern);
-  if (exc){
-    itv_linexpr_clear(&linexpr);
-    return NULL;
-  }
-  ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
   itv_linexpr_clear(&linexpr);
   return res;
 }
diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index e8d0fb8..b0867f2 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -951,6 +951,7 @@ ap_texpr0_node_intlinearize_linear(itv_internal_t* intern,
     }
     else {
       exc = true;
+      itv_clear(i1);
       break;
     }
     if (n->op==AP_TEXPR_DIV){
-- 
2.43.0


From fe2a9fb9d47f95439280e130e38a7cbc496fb75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 55/92] fix: scaling a linear expression left its equality mark
 stale

---
 itv/itv_linearize.c | 2 ++
 itv/itv_linexpr.c   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index b0867f2..61cc586 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -988,6 +988,7 @@ ITVFUN(itv_intlinearize_ap_texpr0_intlinear)(itv_internal_t* intern,
   case AP_TEXPR_DIM:
     itv_linexpr_reinit(lres,1);
     itv_set_int(lres->cst,0);
+    lres->equality = true;
     lres->linterm[0].dim = expr->val.dim;
     lres->linterm[0].equality = true;
     itv_set_int(lres->linterm[0].itv,1);
@@ -1490,6 +1491,7 @@ itv_intlinearize_texpr0_rec(itv_internal_t* intern,
     itv_set(ires,env[expr->val.dim]);
     itv_linexpr_reinit(lres,1);
     itv_set_int(lres->cst,0);
+    lres->equality = true;
     lres->linterm[0].dim = expr->val.dim;
     lres->linterm[0].equality = true;
     itv_set_int(lres->linterm[0].itv,1);
diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 025fa9e..54bb5d5 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -327,10 +327,12 @@ void ITVFUN(itv_linexpr_scale)(itv_internal_t* intern,
 
   if (itv_is_zero(coeff)){
     itv_set(expr->cst,coeff);
+    expr->equality = true;
     itv_linexpr_reinit(expr,0);
     return;
   }
   itv_mul(intern,expr->cst,expr->cst,coeff);
+  expr->equality = expr->equality /* speed-up */ && itv_is_point(intern,expr->cst);
   if (itv_is_top(expr->cst)){
     itv_linexpr_reinit(expr,0);
     return;
@@ -352,6 +354,7 @@ void ITVFUN(itv_linexpr_div)(itv_internal_t* intern,
   itv_ptr pitv;
 
   itv_div(intern,expr->cst,expr->cst,coeff);
+  expr->equality = expr->equality /* speed-up */ && itv_is_point(intern,expr->cst);
   itv_linexpr_ForeachLinterm(expr,i,dim,pitv,peq){
     itv_div(intern,pitv,pitv,coeff);
     *peq = *peq /* speed-up */ && itv_is_point(intern,pitv);
-- 
2.43.0


From dde29a62c55e5e25c42f3a928000bce048981c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 56/92] fix: sparse expressions over dimension 0 were accepted
 in abstract values without dimensions

---
 apron/ap_abstract0.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 7bd9768..ddd7760 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -243,7 +243,7 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
   ap_dim_t dim;
 
   nbdims = dimension.intdim+dimension.realdim;
-  dim = 0;
+  dim = AP_DIM_MAX;
   switch (expr->discr){
   case AP_LINEXPR_DENSE:
     if (expr->size > nbdims){
@@ -264,7 +264,6 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
 	break;
       }
     }
-    if (!dim) dim = AP_DIM_MAX;
     break;
   default:
     abort();
-- 
2.43.0


From 0278d053a204bf348cb05eaa8c4314ea80d5e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 57/92] fix: unsorted or mistyped dimension changes were
 accepted

---
 apron/ap_abstract0.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index ddd7760..177b44d 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -466,10 +466,11 @@ bool ap_abstract0_check_ap_dimchange_add(ap_funid_t funid, ap_manager_t* man,
   }
   size = dimchange->intdim+dimchange->realdim;
   if (res && size>0){
-    /* Check sortedness */
-    ap_dim_t dim = 0;
+    /* Check sortedness, and that real dimensions follow integer ones */
+    ap_dim_t dim = dimchange->dim[0];
+    if (dimchange->intdim==0 && dim<dimension.intdim) res = false;
     for (i=1; i<size; i++){
-      if (dim>dimchange->dim[i]){
+      if (dim>dimchange->dim[i] || (i>=dimchange->intdim && dimchange->dim[i]<dimension.intdim)){
 	res = false;
 	break;
       } else {
@@ -501,10 +502,11 @@ bool ap_abstract0_check_ap_dimchange_remove(ap_funid_t funid, ap_manager_t* man,
   }
   size = dimchange->intdim+dimchange->realdim;
   if (res && size>0){
-    /* Check sortedness */
-    ap_dim_t dim = 0;
+    /* Check sortedness, and that real dimensions are real ones */
+    ap_dim_t dim = dimchange->dim[0];
+    if (dimchange->intdim==0 && dim<dimension.intdim) res = false;
     for (i=1; i<dimchange->intdim+dimchange->realdim; i++){
-      if (dim>=dimchange->dim[i]){
+      if (dim>=dimchange->dim[i] || (i>=dimchange->intdim && dimchange->dim[i]<dimension.intdim)){
 	res = false;
 	break;
       } else {
-- 
2.43.0


From 8ebab2dfb10f87ca644de4e18e4b9b640bd6cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 58/92] fix: permutations that are not injective were accepted

---
 apron/ap_abstract0.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 177b44d..0c608f3 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -529,13 +529,16 @@ bool ap_abstract0_check_dimperm(ap_funid_t funid, ap_manager_t* man,
   size_t i;
   size_t size = dimension.intdim+dimension.realdim;
   bool res = (dimension.intdim+dimension.realdim==perm->size);
-  if (res){
+  if (res && size>0){
+    bool* seen = calloc(size,sizeof(bool));
     for (i=0; i<perm->size; i++){
-      if (perm->dim[i]>=size){
+      if (perm->dim[i]>=size || seen[perm->dim[i]]){
 	res = false;
 	break;
       }
+      seen[perm->dim[i]] = true;
     }
+    free(seen);
   }
   if (!res){
     ap_manager_raise_exception(man,
-- 
2.43.0


From 200d83e37ff080304954fd5a75c23fe307f77da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 59/92] fix: exceptions of hash were reported for canonicalize

---
 apron/ap_abstract0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 0c608f3..f0139e9 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -620,7 +620,7 @@ void ap_abstract0_canonicalize(ap_manager_t* man, ap_abstract0_t* a)
 }
 int ap_abstract0_hash(ap_manager_t* man, ap_abstract0_t* a)
 {
-  if (ap_abstract0_checkman1(AP_FUNID_CANONICALIZE,man,a)){
+  if (ap_abstract0_checkman1(AP_FUNID_HASH,man,a)){
     int (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_HASH];
     return ptr(man,a->value);
   }
-- 
2.43.0


From 55b9d8140e7f32b912a20209129a21475e40043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 60/92] fix: ap_abstract0_dimension applied the function of the
 wrong library to a value of another library

---
 apron/ap_abstract0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index f0139e9..1fd21ba 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -723,7 +723,7 @@ ap_abstract0_t* ap_abstract0_of_box(ap_manager_t* man,
 ap_dimension_t ap_abstract0_dimension(ap_manager_t* man, ap_abstract0_t* a)
 {
   ap_abstract0_checkman1(AP_FUNID_DIMENSION,man,a);
-  ap_dimension_t (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_DIMENSION];
+  ap_dimension_t (*ptr)(ap_manager_t*,void*) = a->man->funptr[AP_FUNID_DIMENSION];
   return ptr(a->man,a->value);
 }
 
-- 
2.43.0


From 741e2be3d53be3e6d5c13ff7085cb9cf0a8a05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 61/92] fix: the failure path of fold computed wrapped-around
 dimensions

---
 apron/ap_abstract0.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 1fd21ba..7a704c8 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -1382,9 +1382,12 @@ ap_abstract0_t* ap_abstract0_fold(ap_manager_t* man,
   else {
   _ap_abstract0_fold_exc:
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
-			    dimension.intdim - ( (size>0 && tdim[0]<dimension.intdim) ? (size-1) : 0),
-			    dimension.realdim - ( (size>0 && tdim[0]<dimension.intdim) ? 0 : (size-1)));
+    {
+      size_t nb = size>0 ? size-1 : 0;
+      size_t* pdim = (size>0 && tdim[0]<dimension.intdim) ? &dimension.intdim : &dimension.realdim;
+      *pdim -= nb<*pdim ? nb : *pdim;
+    }
+    return ap_abstract0_top(man,dimension.intdim,dimension.realdim);
   }
 }
 /* ============================================================ */
-- 
2.43.0


From 300d9c9f26155bc23d0afff38fd37c17ca75fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 62/92] fix: forgetting dimensions of an empty grid raised
 INVALID_ARGUMENT

---
 ppl/ppl_grid.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index e3f11a5..87e11fe 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -65,6 +65,7 @@ void PPL_Grid::reduce()
 
 void PPL_Grid::forget_dim(size_t dim)
 {
+  if (p->is_empty()) return;
 #ifndef PPL_0_9
   if (intdim>dim) p->add_grid_generator(Grid_Generator::parameter(Variable(dim)));
   else p->add_grid_generator(Grid_Generator::grid_line(Variable(dim)));
-- 
2.43.0


From b408b687c862db31c0a88695e0c45903859ef66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 63/92] fix: destructive unify and change of environment leaked
 a reference to the environment

---
 apron/ap_abstract1.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 07fea65..b21f551 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -59,19 +59,9 @@ ap_abstract1_t ap_abstract1_consres2(bool destructive, ap_abstract1_t* a,
 				     ap_environment_t* env)
 {
   ap_abstract1_t res;
-  if (destructive){
-    if (value==a->abstract0 && env==a->env)
-      res = *a;
-    else {
-      res.abstract0 = value;
-      res.env = env;
-      ap_environment_free(a->env);
-    }
-  }
-  else {
-    res.abstract0 = value;
-    res.env = env;
-  }
+  res.abstract0 = value;
+  res.env = env;
+  if (destructive) ap_environment_free(a->env);
   return res;
 }
 
-- 
2.43.0


From a3235d9d720f6d3e2f28e48761d770a76098aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 64/92] fix: ap_abstract1_of_box freed its intervals with the
 wrong size when a variable is unknown

---
 apron/ap_abstract1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index b21f551..fc2b616 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -356,7 +356,7 @@ ap_abstract1_t ap_abstract1_of_box(ap_manager_t* man,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar[i]);
     if (dim==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_OF_BOX,tvar[i]);
-      ap_interval_array_free(itv,size);
+      ap_interval_array_free(itv,env->intdim+env->realdim);
       return ap_abstract1_top(man,env);
     }
     ap_interval_set(itv[dim],tinterval[i]);
-- 
2.43.0


From b0510cde9714d10857b28fcb6efe7f698fb78491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 65/92] fix: refused meet and join of arrays and
 deserializations leaked an environment

---
 apron/ap_abstract1.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index fc2b616..2e15507 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -309,7 +309,10 @@ ap_abstract1_t ap_abstract1_deserialize_raw(ap_manager_t* man, void* ptr, size_t
   (void)ptr;
   (void)size;
   ap_manager_raise_exception(man,AP_EXC_NOT_IMPLEMENTED,AP_FUNID_DESERIALIZE_RAW,"");
-  return ap_abstract1_top(man,ap_environment_alloc_empty());
+  ap_environment_t* env = ap_environment_alloc_empty();
+  ap_abstract1_t res = ap_abstract1_top(man,env);
+  ap_environment_free(env);
+  return res;
 }
 
 
@@ -670,7 +673,9 @@ ap_abstract1_t ap_abstract1_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
     free(ntab);
   }
   else {
-    res = ap_abstract1_top(man, size==0 ? ap_environment_alloc_empty() : tab[0].env);
+    ap_environment_t* env = size==0 ? ap_environment_alloc_empty() : ap_environment_copy(tab[0].env);
+    res = ap_abstract1_top(man,env);
+    ap_environment_free(env);
   }
   return res;
 }
-- 
2.43.0


From 058843bf224b99a6c57923389166fbe2e05c4a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 66/92] fix: ap_abstract1_expand consumed its argument before
 checking the new variables

---
 apron/ap_abstract1.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 2e15507..dbe0e58 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1117,9 +1117,6 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     if (destructive) ap_abstract1_clear(man,a);
     return res;
   }
-  /* Doing the expansion at level 0 */
-  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
-
   /* Building the resulting environment and permutation to apply */
   nenv =
     (dim<a->env->intdim) ?
@@ -1132,6 +1129,9 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     goto ap_abstract1_expand_exit;
   }
 
+  /* Doing the expansion at level 0 */
+  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
+
   /* Apply permutation and return */
   value = ap_abstract0_permute_dimensions(man,true,value,&perm);
   ap_dimperm_clear(&perm);
-- 
2.43.0


From efc5c99cc8637b515f34f9d211364f2a25b24d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 67/92] fix: ap_abstract1_fold of a variable into itself read
 out of bounds

---
 apron/ap_abstract1.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index dbe0e58..cf68af9 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1182,6 +1182,12 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
 			       "some variables to fold are unknown in the environment");
     goto ap_abstract1_fold_exit;
   }
+  if (ap_environment_dim_of_var(nenv,tvar[0])==AP_DIM_MAX){
+    ap_environment_free(nenv);
+    ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FOLD,
+			       "a variable is to be folded twice");
+    goto ap_abstract1_fold_exit;
+  }
   /* Translate variables to dimensions */
   tdim = malloc(size*sizeof(ap_dim_t));
   tdim[0] = dim;
-- 
2.43.0


From a246e1d0759110cfaccd3af4111c440a217d42ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 68/92] fix: linearisation of expressions on abstract values of
 level 1 crashed or shared memory with its argument

---
 apron/ap_abstract1.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index cf68af9..769167c 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1458,7 +1458,8 @@ ap_linexpr1_t ap_abstract1_quasilinear_of_intlinear (ap_manager_t* man, ap_abstr
     }
     linexpr0 = ap_linexpr0_add_dimensions(expr->linexpr0,dimchange);
   }
-  res.linexpr0 = ap_quasilinearize_linexpr0(man,a->abstract0->value,linexpr0,&exact,discr);
+  res.linexpr0 = ap_quasilinearize_linexpr0(man,a->abstract0,linexpr0,&exact,discr);
+  if (res.linexpr0==linexpr0) res.linexpr0 = ap_linexpr0_copy(linexpr0);
   res.env = ap_environment_copy(a->env);
   if (dimchange){
     ap_dimchange_free(dimchange);
@@ -1498,7 +1499,7 @@ ap_linexpr1_t ap_abstract1_intlinear_of_tree(ap_manager_t* man, ap_abstract1_t*
     }
     texpr0 = ap_texpr0_add_dimensions(expr->texpr0,dimchange);
   }
-  res.linexpr0 = ap_intlinearize_texpr0(man,a->abstract0->value,texpr0,&exact,discr,quasilinearize);
+  res.linexpr0 = ap_intlinearize_texpr0(man,a->abstract0,texpr0,&exact,discr,quasilinearize);
   res.env = ap_environment_copy(a->env);
   if (dimchange){
     ap_dimchange_free(dimchange);
-- 
2.43.0


From 12ba3287147a9ea08470fbc55cf1ed5e361b17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 69/92] fix: ap_abstract1_fprintdiff went on after refusing
 values over different environments

---
 apron/ap_abstract1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 769167c..5312648 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -267,6 +267,7 @@ void ap_abstract1_fprintdiff(FILE* stream,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FPRINTDIFF,
 			       "the 2 abstract values are not defined on the same environment");
     fprintf(stream,"unknown diff\n");
+    return;
   }
   name_of_dim = ap_environment_name_of_dim_alloc(a1->env);
   ap_abstract0_fprintdiff(stream,man,a1->abstract0, a2->abstract0, name_of_dim->p);
-- 
2.43.0


From 2df06b9247fcde6df09366a063d11fb0bc34631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 70/92] fix: ap_scalar_set_infty(MPFR scalar, 0) sets zero, as
 for the other types

---
 apron/ap_scalar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 5f1ed9d..b9da1c1 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -176,7 +176,8 @@ void ap_scalar_set_infty(ap_scalar_t* scalar, int sgn)
     scalar->val.dbl = sgn>0 ? (double)1.0/(double)0.0 : (sgn < 0 ? -(double)1.0/(double)0.0 : 0.0);
     break;
   case AP_SCALAR_MPFR:
-    mpfr_set_inf(scalar->val.mpfr,sgn);
+    if (sgn) mpfr_set_inf(scalar->val.mpfr,sgn);
+    else mpfr_set_ui(scalar->val.mpfr,0,GMP_RNDN);
     break;
   default:
     abort();
-- 
2.43.0


From ac02655675abb28f22b74894af0d0c1542c22f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 71/92] fix: ap_scalar_cmp and ap_scalar_cmp_int return -1, 0
 or 1

---
 apron/ap_scalar.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index b9da1c1..14f416b 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -284,6 +284,9 @@ int ap_scalar_infty(ap_scalar_t* scalar)
   }
 }
 
+/* the GMP and MPFR comparisons return any positive or negative value */
+static inline int sign(int x) { return (x>0) - (x<0); }
+
 int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
 {
   int s1 = ap_scalar_infty(a);
@@ -298,7 +301,7 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
   else if (a->discr == b->discr) {
     switch (a->discr){
     case AP_SCALAR_MPQ:
-      return mpq_cmp(a->val.mpq,b->val.mpq);
+      return sign(mpq_cmp(a->val.mpq,b->val.mpq));
     case AP_SCALAR_DOUBLE:
       return 
 	a->val.dbl > b->val.dbl ?
@@ -307,7 +310,7 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
 	-1 :
 	0);
     case AP_SCALAR_MPFR:
-      return mpfr_cmp(a->val.mpfr,b->val.mpfr);
+      return sign(mpfr_cmp(a->val.mpfr,b->val.mpfr));
     default:
       abort();
     }
@@ -316,13 +319,13 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
     switch (a->discr) {
     case AP_SCALAR_MPFR:
       switch (b->discr) {
-      case AP_SCALAR_MPQ:    return mpfr_cmp_q(a->val.mpfr,b->val.mpq);
-      case AP_SCALAR_DOUBLE: return mpfr_cmp_d(a->val.mpfr,b->val.dbl);
+      case AP_SCALAR_MPQ:    return sign(mpfr_cmp_q(a->val.mpfr,b->val.mpq));
+      case AP_SCALAR_DOUBLE: return sign(mpfr_cmp_d(a->val.mpfr,b->val.dbl));
       default:               abort();
       }
       break;
-    case AP_SCALAR_MPQ:    return -mpfr_cmp_q(b->val.mpfr,a->val.mpq);
-    case AP_SCALAR_DOUBLE: return -mpfr_cmp_d(b->val.mpfr,a->val.dbl);
+    case AP_SCALAR_MPQ:    return -sign(mpfr_cmp_q(b->val.mpfr,a->val.mpq));
+    case AP_SCALAR_DOUBLE: return -sign(mpfr_cmp_d(b->val.mpfr,a->val.dbl));
     default:               abort();
     }
   }
@@ -340,9 +343,10 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
       res = mpq_cmp(a->val.mpq,mpq);
     }
     mpq_clear(mpq);
-    return res;
+    return sign(res);
   }
 }
+
 int ap_scalar_cmp_int(ap_scalar_t* a, int b)
 {
   int s1 = ap_scalar_infty(a);
@@ -356,9 +360,9 @@ int ap_scalar_cmp_int(ap_scalar_t* a, int b)
     case AP_SCALAR_DOUBLE:
       return a->val.dbl > b ? 1 : (a->val.dbl < b ? (-1) : 0);
     case AP_SCALAR_MPQ:
-      return mpq_cmp_si(a->val.mpq,b,1);  
+      return sign(mpq_cmp_si(a->val.mpq,b,1));  
     case AP_SCALAR_MPFR:
-      return mpfr_cmp_si(a->val.mpfr,b);
+      return sign(mpfr_cmp_si(a->val.mpfr,b));
     default:
       abort();
     }
-- 
2.43.0


From 4cb37ee1300d4a8ce19dfdcd6f54c3f1886970ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 72/92] fix: ap_double_set_scalar returns the direction of the
 rounding

---
 apron/ap_scalar.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 14f416b..98550ac 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -228,16 +228,18 @@ int ap_double_set_scalar(double* k, ap_scalar_t* scalar, mp_rnd_t round)
       mpfr_t mpfr;
       mpfr_init2(mpfr,53);
       int res = mpfr_set_q(mpfr,scalar->val.mpq,round);
-      *k = mpfr_get_d(mpfr,round); /* normally, exact */
+      int cmp;
+      *k = mpfr_get_d(mpfr,round); /* exact, unless out of the range of double */
+      cmp = mpfr_cmp_d(mpfr,*k);
       mpfr_clear(mpfr);
-      return res;
+      return cmp ? -cmp : res;
     }
   case AP_SCALAR_DOUBLE:
     *k = scalar->val.dbl;
     return 0;
   case AP_SCALAR_MPFR:
     *k = mpfr_get_d(scalar->val.mpfr,round);
-    return mpfr_cmp_d(scalar->val.mpfr,*k);
+    return -mpfr_cmp_d(scalar->val.mpfr,*k);
   default:
     abort();
   }
-- 
2.43.0


From 9e49e6494c677578292ec23415cb8a0747bd49fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 73/92] fix: hashing a scalar divides by zero for some
 denominators, and depends on the type of the scalar

---
 apron/ap_interval.c |  2 +-
 apron/ap_scalar.c   | 16 +++++++++++++---
 apron/ap_texpr0.c   | 12 ++++++------
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/apron/ap_interval.c b/apron/ap_interval.c
index c2d8990..5a54bb7 100644
--- a/apron/ap_interval.c
+++ b/apron/ap_interval.c
@@ -184,7 +184,7 @@ void ap_interval_neg(ap_interval_t* a, ap_interval_t* b)
 long ap_interval_hash(ap_interval_t* itv)
 {
   if (ap_interval_is_bottom(itv)) return 0;
-  else return 5*ap_scalar_hash(itv->inf) + 7*ap_scalar_hash(itv->sup);
+  else return (long)(5*(unsigned long)ap_scalar_hash(itv->inf) + 7*(unsigned long)ap_scalar_hash(itv->sup));
 }
 
 
diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 98550ac..954aab1 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -467,16 +467,26 @@ long ap_scalar_hash(ap_scalar_t* a)
   if (infty<0) return LONG_MIN;
   else if (infty>0) return LONG_MAX;
   else {
+    /* hash of the integer part, so that it does not depend on the type */
+    mpz_t mpz;
+    long res;
+    mpz_init(mpz);
     switch (a->discr){
     case AP_SCALAR_MPQ:
-      return mpz_get_si(mpq_numref(a->val.mpq))/mpz_get_ui(mpq_denref(a->val.mpq));
+      mpz_tdiv_q(mpz,mpq_numref(a->val.mpq),mpq_denref(a->val.mpq));
+      break;
     case AP_SCALAR_DOUBLE:
-      return (int)(a->val.dbl);
+      mpz_set_d(mpz,a->val.dbl);
+      break;
     case AP_SCALAR_MPFR:
-      return mpfr_get_si(a->val.mpfr,GMP_RNDU); /* XXX improve this */
+      mpfr_get_z(mpz,a->val.mpfr,GMP_RNDZ);
+      break;
     default:
       abort();
     }
+    res = mpz_get_si(mpz);
+    mpz_clear(mpz);
+    return res;
   }
 }
 
diff --git a/apron/ap_texpr0.c b/apron/ap_texpr0.c
index 56e7cb5..e77ff00 100644
--- a/apron/ap_texpr0.c
+++ b/apron/ap_texpr0.c
@@ -792,12 +792,12 @@ long ap_texpr0_hash(ap_texpr0_t* a)
   case AP_TEXPR_DIM:
     return a->val.dim;
   case AP_TEXPR_NODE:
-    return
-      a->val.node->op * 17 +
-      a->val.node->type * 23 +
-      a->val.node->dir * 4801 +
-      ap_texpr0_hash(a->val.node->exprA) * 17053 +
-      ap_texpr0_hash(a->val.node->exprB);
+    return (long)
+      (a->val.node->op * 17 +
+       a->val.node->type * 23 +
+       a->val.node->dir * 4801 +
+       (unsigned long)ap_texpr0_hash(a->val.node->exprA) * 17053 +
+       (unsigned long)ap_texpr0_hash(a->val.node->exprB));
   default:
     assert(0);
     return 0;
-- 
2.43.0


From 778e9b131115d146bff051eb671cc819f05e360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 74/92] fix: ap_coeff_equal_int returns the opposite of what it
 says

---
 apron/ap_coeff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_coeff.c b/apron/ap_coeff.c
index 001c055..bcc2d8e 100644
--- a/apron/ap_coeff.c
+++ b/apron/ap_coeff.c
@@ -312,9 +312,9 @@ bool ap_coeff_equal_int(ap_coeff_t* coeff, int i)
 {
   switch (coeff->discr){
   case AP_COEFF_SCALAR:
-    return ap_scalar_equal_int(coeff->val.scalar,i)==0;
+    return ap_scalar_equal_int(coeff->val.scalar,i);
   case AP_COEFF_INTERVAL:
-    return (ap_scalar_equal_int(coeff->val.interval->inf,i)==0) && (ap_scalar_equal_int(coeff->val.interval->sup,i)==0);
+    return ap_scalar_equal_int(coeff->val.interval->inf,i) && ap_scalar_equal_int(coeff->val.interval->sup,i);
   default:
     abort();
   }
-- 
2.43.0


From 0cacdb2c8e208c622ee9dba406e52c86529b0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 75/92] fix: comparing linear expressions reads unused sparse
 terms, and truncates the result to a boolean

---
 apron/ap_linexpr0.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 11d8e35..391c195 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -805,6 +805,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX) break; /* only unused terms remain */
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_equal(coeff1,coeff2);
@@ -824,7 +825,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 int ap_linexpr0_compare(ap_linexpr0_t* expr1,
 			ap_linexpr0_t* expr2)
 {
-  bool res;
+  int res;
   size_t i1,i2;
   ap_dim_t dim1,dim2;
   ap_coeff_t* coeff1;
@@ -860,6 +861,7 @@ int ap_linexpr0_compare(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX) break; /* only unused terms remain */
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_cmp(coeff1,coeff2);
-- 
2.43.0


From fecf679f3ef24afc6c41ffaa931198001aa4a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 76/92] fix: ap_linexpr0_hash distinguishes equal expressions
 and modifies its argument

---
 apron/ap_linexpr0.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 391c195..4b1d377 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -749,23 +749,21 @@ ap_linexpr0_permute_dimensions_with(ap_linexpr0_t* expr,
 
 long ap_linexpr0_hash(ap_linexpr0_t* expr)
 {
-  if (expr->size==0){
-    return ap_coeff_hash(&expr->cst);
-  }
-  else {
-    ap_coeff_t* pcoeff;
-    size_t i,dec;
-    long res,res1;
-    res = expr->size << 8;
-    dec = 0;
-    for (i=0; i<expr->size; i += (expr->size+7)/8){
-      pcoeff = ap_linexpr0_coeffref(expr,i);
-      res1 = (pcoeff==NULL) ? 0 : ap_coeff_hash(pcoeff);
-      res += res1<<dec;
-      dec++;
-    }
-    return res;
+  /* null coefficients do not count, so that equal expressions have the same
+     hash whatever their representation and their size */
+  ap_coeff_t* pcoeff;
+  size_t i;
+  ap_dim_t dim;
+  unsigned long res;
+
+  ap_coeff_reduce(&expr->cst);
+  res = ap_coeff_hash(&expr->cst);
+  ap_linexpr0_ForeachLinterm(expr,i,dim,pcoeff){
+    ap_coeff_reduce(pcoeff);
+    if (!ap_coeff_zero(pcoeff))
+      res = 31*res + 17*(unsigned long)dim + (unsigned long)ap_coeff_hash(pcoeff);
   }
+  return (long)res;
 }
 bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 		       ap_linexpr0_t* expr2)
-- 
2.43.0


From 7daef923a2531432e6a7cfd9838c323cf93821fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 77/92] fix: ap_linexpr0_permute_dimensions_with passes NULL to
 qsort for an empty expression

---
 apron/ap_linexpr0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 4b1d377..e39df75 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -724,7 +724,7 @@ ap_linexpr0_permute_dimensions_with(ap_linexpr0_t* expr,
 	if (dim==AP_DIM_MAX) continue;
 	expr->p.linterm[i].dim = perm->dim[dim];
       }
-      qsort(expr->p.linterm,
+      if (expr->size>1) qsort(expr->p.linterm,
 	    expr->size,
 	    sizeof(ap_linterm_t),
 	    &ap_linterm_cmp);
-- 
2.43.0


From 3d58bd8443315340e2a4dfa742918161b9b99311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 78/92] fix: numflt_serialize (MPFR) stores the size of the
 mantissa instead of the exponent

---
 num/numflt_mpfr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/num/numflt_mpfr.h b/num/numflt_mpfr.h
index 5ffc470..35dc575 100644
--- a/num/numflt_mpfr.h
+++ b/num/numflt_mpfr.h
@@ -305,6 +305,7 @@ static inline size_t numflt_serialize(void* dst, numflt_t src)
   mpz_init(z);
   /* XXX might fail if scaled exponent not representable in mp_exp_t */
   e = mpfr_get_z_exp(z,src);
+  if (mpfr_zero_p(src)) e = 0; /* mpfr_get_z_exp returns the minimal exponent */
   *((char*)dst) = mpz_sgn(z)>=0?3:4;
   mpz_export((char*)dst+9,&count,1,1,1,0,z);
   mpz_clear(z);
@@ -312,7 +313,7 @@ static inline size_t numflt_serialize(void* dst, numflt_t src)
   assert(((unsigned)count)==count);
   assert(((int)e)==e);
   num_dump_word32((char*)dst+1,(unsigned)count);
-  num_dump_word32((char*)dst+5,(unsigned)count);
+  num_dump_word32((char*)dst+5,(unsigned)(int)e);
   return count+9;
 
 }
-- 
2.43.0


From d3b2452cd18651edf998d9e38d5cb572799445b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 79/92] fix: itv_from_int loses numbers that round to an
 integer of the interval

---
 itv/itv.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index a87d05a..0972e13 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -622,9 +622,12 @@ static inline void itv_untrunc(itv_t a, itv_t b)
 
 static inline void itv_from_int(itv_t a, itv_t b)
 {
-  /* [a,b] -> [floor(a),ceil(b)] */
-  bound_ceil(a->sup,b->sup);
-  bound_ceil(a->inf,b->inf);
+  /* x can be rounded to any of the two nearest integers:
+     [a,b] -> ]ceil(a)-1,floor(b)+1[ */
+  bound_floor(a->sup,b->sup);
+  bound_floor(a->inf,b->inf);
+  bound_add_uint(a->sup,a->sup,1);
+  bound_add_uint(a->inf,a->inf,1);
 }
 
 static inline void itv_from_float(itv_t a, itv_t b)
-- 
2.43.0


From 9f3bdd9acddb20c46896abc60650bf764c22d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 80/92] fix: itv_untrunc loses the numbers strictly between -1
 and 1 when a bound is 0

---
 itv/itv.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index 0972e13..e9adfb1 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -616,8 +616,8 @@ static inline void itv_untrunc(itv_t a, itv_t b)
   /* trunc(x) = ceil(x) if x < 0, floor(x) if x > 0 */
   bound_floor(a->inf,b->inf);
   bound_floor(a->sup,b->sup);
-  if (bound_sgn(a->inf) > 0) bound_add_uint(a->inf,a->inf,1);
-  if (bound_sgn(a->sup) > 0) bound_add_uint(a->sup,a->sup,1);
+  if (bound_sgn(a->inf) >= 0) bound_add_uint(a->inf,a->inf,1);
+  if (bound_sgn(a->sup) >= 0) bound_add_uint(a->sup,a->sup,1);
 }
 
 static inline void itv_from_int(itv_t a, itv_t b)
-- 
2.43.0


From 09834c0349488c4dc693088f31fcf0a303cc9ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 81/92] fix: itv_from_float and itv_from_double lose the
 numbers that underflow to 0

---
 itv/itv.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index e9adfb1..4edf1fd 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -632,19 +632,15 @@ static inline void itv_from_int(itv_t a, itv_t b)
 
 static inline void itv_from_float(itv_t a, itv_t b)
 {
-  /* special case to ensure that signs are respected */
-  if (bound_sgn(b->sup)==0) bound_set(a->sup,b->sup);
-  else bound_next_float(a->sup,b->sup);
-  if (bound_sgn(b->inf)==0) bound_set(a->inf,b->inf);
-  else bound_next_float(a->inf,b->inf);
+  /* tiny numbers of any sign are rounded to 0 */
+  bound_next_float(a->sup,b->sup);
+  bound_next_float(a->inf,b->inf);
 }
 
 static inline void itv_from_double(itv_t a, itv_t b)
 {
-  if (bound_sgn(b->sup)==0) bound_set(a->sup,b->sup);
-  else bound_next_double(a->sup,b->sup);
-  if (bound_sgn(b->inf)==0) bound_set(a->inf,b->inf);
-  else bound_next_double(a->inf,b->inf);
+  bound_next_double(a->sup,b->sup);
+  bound_next_double(a->inf,b->inf);
 }
 
 
-- 
2.43.0


From 20aedf6ae9d12a4a26b6340c5bfb9ae432ab3208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 82/92] fix: numrat_root rounds the odd roots of negative
 rationals in the wrong direction

---
 num/numrat_mpq.h    | 4 +++-
 num/numrat_native.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/num/numrat_mpq.h b/num/numrat_mpq.h
index 6c2be77..953f489 100644
--- a/num/numrat_mpq.h
+++ b/num/numrat_mpq.h
@@ -187,7 +187,9 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
   numint_root(numrat_numref(up), numrat_numref(down), numrat_numref(b), n);
-  numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
+  /* the denominator of the bound nearest to 0 is rounded up */
+  if (mpq_sgn(b)>=0) numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
+  else numint_root(numrat_denref(up), numrat_denref(down), numrat_denref(b), n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
diff --git a/num/numrat_native.h b/num/numrat_native.h
index 7e564c0..4351fd8 100644
--- a/num/numrat_native.h
+++ b/num/numrat_native.h
@@ -240,7 +240,9 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
   numint_root(up->n, down->n, b->n, n);
-  numint_root(down->d, up->d, b->d, n);
+  /* the denominator of the bound nearest to 0 is rounded up */
+  if (*b->n >= 0) numint_root(down->d, up->d, b->d, n);
+  else numint_root(up->d, down->d, b->d, n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
-- 
2.43.0


From 584caa075ab414c754bd1bfa7c6c5341d041ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 83/92] fix: ap_coeff_set_itv rounds up the lower bound of an
 inexact conversion

---
 itv/itv.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/itv/itv.c b/itv/itv.c
index 6488a14..911b864 100644
--- a/itv/itv.c
+++ b/itv/itv.c
@@ -751,10 +751,7 @@ bool ITVFUN(ap_coeff_set_itv)(itv_internal_t* intern,
     else {
       ap_coeff_reinit(a,AP_COEFF_INTERVAL,
 		      intern->ap_conversion_scalar->discr);
-      ap_scalar_set(a->val.interval->sup, intern->ap_conversion_scalar);
-      bound_neg(intern->ap_conversion_bound, b->inf); /* we now it is finite */
-      ap_scalar_set_bound(a->val.interval->inf, intern->ap_conversion_bound);
-      return false;
+      return ap_interval_set_itv(intern,a->val.interval,b);
     }
   }
   else {
-- 
2.43.0


From 047240e7dc8ed0c7a8574235027ab86b0450fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 84/92] fix: bound_abs and bound_mul_2exp leave the infinity of
 the previous value in the result

---
 num/bound_def.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index c5dc389..e682b00 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -237,7 +237,10 @@ static inline void bound_neg(bound_t a, bound_t b)
   else { num_neg(bound_numref(a),bound_numref(b)); _bound_inf(a); }
 }
 static inline void bound_abs(bound_t a, bound_t b)
-{ num_abs(bound_numref(a),bound_numref(b)); }
+{
+  if (bound_infty(b)) bound_set_infty(a,1);
+  else { num_abs(bound_numref(a),bound_numref(b)); _bound_inf(a); }
+}
 static inline void bound_add(bound_t a, bound_t b, bound_t c)
 {
   if (bound_infty(b)) bound_set_infty(a,bound_sgn(b));
@@ -483,7 +486,7 @@ static inline void bound_next_double(bound_t a, bound_t b)
 static inline void bound_mul_2exp(bound_t a, bound_t b, int c)
 {
   if (bound_infty(b)) bound_set_infty(a,bound_sgn(b));
-  else { num_mul_2exp(bound_numref(a),bound_numref(b),c); }
+  else { num_mul_2exp(bound_numref(a),bound_numref(b),c); _bound_inf(a); }
 }
 
 
-- 
2.43.0


From 44f56f4ca9940e040fe96743e03d89a1965f8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 85/92] fix: conversions of rationals to floating-point numbers
 claim to be exact on underflow

---
 num/numflt_native.h | 6 +++++-
 num/numrat_mpq.h    | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index 5604952..6144f7a 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -310,7 +310,11 @@ static inline bool numflt_set_mpq_tmp(numflt_t a, mpq_t b, mpfr_t mpfr)
 #else
   *a = mpfr_get_ld(mpfr,GMP_RNDU);/* Normally, exact conversion here (unless overfloww) */
 #endif
-  return (res==0);
+#if defined(NUMFLT_DOUBLE)
+  return (res==0) && mpfr_cmp_d(mpfr,*a)==0;
+#else
+  return (res==0) && mpfr_cmp_ld(mpfr,*a)==0;
+#endif
 }
 static inline bool numflt_set_mpq(numflt_t a, mpq_t b)
 {
diff --git a/num/numrat_mpq.h b/num/numrat_mpq.h
index 953f489..cfba34c 100644
--- a/num/numrat_mpq.h
+++ b/num/numrat_mpq.h
@@ -321,8 +321,8 @@ static inline bool double_set_numrat_tmp(double* a, numrat_t b,
 {
   (void)mpq;
   int res = mpfr_set_q(mpfr,b,GMP_RNDU);
-  *a = mpfr_get_d(mpfr,GMP_RNDU); /* should be exact */
-  return (res==0);
+  *a = mpfr_get_d(mpfr,GMP_RNDU); /* exact unless overflow or underflow */
+  return (res==0) && mpfr_cmp_d(mpfr,*a)==0;
 }
 static inline bool double_set_numrat(double* a, numrat_t b)
 {
-- 
2.43.0


From 2a974b8dac820ab2a8bf5182f80520f9b09d3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 86/92] fix: numflt_sqrt (long double) reads its argument after
 overwriting it

---
 num/numflt_native.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index 6144f7a..99d7d5c 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -146,11 +146,14 @@ static inline void numflt_trunc(numflt_t a, numflt_t b)
 { *a = truncl(*b); }
 static inline void numflt_sqrt(numflt_t up, numflt_t down, numflt_t b)
 {
+  /* up and b may be the same */
+  numflt_t x;
   assert(*b>=0);
-  *up = sqrtl(*b);
-  assert(*up**up>=*b); /* assumes round towards +oo! */
-  if (*up**up==*b) *down = *up;
-  else *down = nextafterl(*up,0);
+  *x = sqrtl(*b);
+  assert(*x**x>=*b); /* assumes round towards +oo! */
+  if (*x**x==*b) *down = *x;
+  else *down = nextafterl(*x,0);
+  *up = *x;
 }
 static inline void numflt_mul_2exp(numflt_t a, numflt_t b, int c)
 { *a = ldexpl(*b,c); }
-- 
2.43.0


From 7b95640b71af601387d610c5bd4b99a2e0027e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 87/92] fix: boxes: print an empty box without dimensions as
 bottom, not as top

---
 box/box_representation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box/box_representation.c b/box/box_representation.c
index cf57561..eeddb21 100644
--- a/box/box_representation.c
+++ b/box/box_representation.c
@@ -193,7 +193,7 @@ void box_fprint(FILE* stream,
     }
   }
   else {
-    fprintf(stream,nbdims>0 ? " bottom\n" : "top\n");
+    fprintf(stream," bottom\n");
   }
 }
 
@@ -217,7 +217,7 @@ void box_fdump(FILE* stream,
     }
   }
   else {
-    fprintf(stream, nbdims>0 ? " bottom\n" : "top\n");
+    fprintf(stream," bottom\n");
   }
 }
 
-- 
2.43.0


From d7df9a5358c80434bb4112b904f3dabe4aa3caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 88/92] fix: boxes: the heading of fprintdiff gives the number
 of integer dimensions twice instead of both numbers

---
 box/box_representation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box/box_representation.c b/box/box_representation.c
index eeddb21..a6b1596 100644
--- a/box/box_representation.c
+++ b/box/box_representation.c
@@ -236,7 +236,7 @@ void box_fprintdiff(FILE* stream,
   nbdims = a->intdim + a->realdim;
 
   fprintf(stream,"diff of 2 intervals of dim (%ld,%ld)",
-	  (long)a->intdim,(long)b->intdim);
+	  (long)a->intdim,(long)a->realdim);
   if (box_is_eq(man,a,b)){
     fprintf(stream," : none\n");
   }
-- 
2.43.0


From 0705dd4ffebeabd9ab5bf34e2cdf0e6bfafae164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:31 +0000
Subject: [PATCH 89/92] fix: boxes: fprintdiff prints the first interval on the
 line of the heading

---
 box/box_representation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/box/box_representation.c b/box/box_representation.c
index a6b1596..49d27d0 100644
--- a/box/box_representation.c
+++ b/box/box_representation.c
@@ -254,6 +254,7 @@ void box_fprintdiff(FILE* stream,
     else {
       bound_t bound;
       bound_init(bound);
+      fprintf(stream,"\n");
       for(i=0; i<nbdims; i++){
 	int sgn1 = bound_cmp(a->p[i]->inf, b->p[i]->inf);
 	int sgn2 = bound_cmp(a->p[i]->sup, b->p[i]->sup);
-- 
2.43.0


From be24c04ebcb4ac406d26ca9611722751ae27945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 90/92] fix: reduced product: serialization of components that
 do not support it uses null and uninitialized data

---
 apron/ap_reducedproduct.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/apron/ap_reducedproduct.c b/apron/ap_reducedproduct.c
index d99190d..77ea86f 100644
--- a/apron/ap_reducedproduct.c
+++ b/apron/ap_reducedproduct.c
@@ -303,6 +303,13 @@ ap_membuf_t ap_reducedproduct_serialize_raw(ap_manager_t* manager, ap_reducedpro
     ap_manager_t* man = intern->tmanagers[i];
     ap_membuf_t (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_SERIALIZE_RAW];
     ap_membuf_t res = ptr(man,a->p[i]);
+    if (res.ptr==NULL){
+      /* not implemented by this component */
+      free(gres.ptr);
+      gres.ptr = NULL;
+      gres.size = 0;
+      break;
+    }
     gres.ptr = realloc(gres.ptr, gres.size + res.size);
     memcpy(((char*)gres.ptr + gres.size), res.ptr, res.size);
     gres.size += res.size;
@@ -322,8 +329,21 @@ ap_reducedproduct_t* ap_reducedproduct_deserialize_raw(ap_manager_t* manager, vo
   for (i=0;i<intern->size;i++){
     ap_manager_t* man = intern->tmanagers[i];
     void* (*ptr)(ap_manager_t*,char*,size_t*) = man->funptr[AP_FUNID_DESERIALIZE_RAW];
-    size_t nb;
+    size_t nb = 0;
     res->p[i] = ptr(man,((char*)p + *size), &nb);
+    if (res->p[i]==NULL){
+      /* not implemented by this component, or invalid data */
+      while (i>0){
+	i--;
+	man = intern->tmanagers[i];
+	void (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_FREE];
+	ptr(man,res->p[i]);
+      }
+      free(res);
+      res = NULL;
+      *size = 0;
+      break;
+    }
     *size += nb;
   }
   collect_results0(manager);
-- 
2.43.0


From 07ba7d45b93c163814fda56b36be28fef095c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 91/92] fix: reduced product: the messages of the components'
 exceptions are lost

---
 apron/ap_reducedproduct.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_reducedproduct.c b/apron/ap_reducedproduct.c
index 77ea86f..74f7c38 100644
--- a/apron/ap_reducedproduct.c
+++ b/apron/ap_reducedproduct.c
@@ -87,7 +87,7 @@ void collect_results0(ap_manager_t* manager)
         size_t sz = strlen(man->library)+(last->msg ? strlen(last->msg) : 0)+3;
 	char* buffer = malloc(sz);
 	snprintf(buffer,sz,"%s: %s",
-		man->library,(last->msg ? "" : last->msg));
+		man->library,(last->msg ? last->msg : ""));
 	if (last->msg) free(last->msg);
 	last->msg = buffer;
 	if (last->tail)
-- 
2.43.0


From 2ea2ec43d35c050c6301ff90a434cbc1e135a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 92/92] fix: newpolka: unused global counter incremented
 without synchronization by every minimization

---
 newpolka/pk_representation.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index dc3f1c5..ae2152e 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -250,12 +250,10 @@ void poly_chernikova2(ap_manager_t* man,
 
 /* Same as poly_chernikova2, but in addition normalize matrices by Gauss
    elimination and sorting */
-static int counter = 0;
 void poly_chernikova3(ap_manager_t* man,
 		      pk_t* po,
 		      char* msg)
 {
-  counter++;
   pk_internal_t* pk = (pk_internal_t*)man->internal;
   poly_chernikova2(man,po,msg);
   if (pk->exn)
-- 
2.43.0

