From 77d1ce6023447af6f9b70f54325c4a1fc091dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 01/14] fix: test the polynomial's value, not the builtin sum,
 in evaluate

---
 vts/uni_vts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index f108d38..fc1cba9 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -777,7 +777,7 @@ def evaluate(point, le, lt, eq, ne):
       
   for (poly, strategy) in r_str:
     #print "  poly: %s" %poly
-    evaluate_poly(poly, point)
+    sum = evaluate_poly(poly, point)
     #print "  term values: %s" %map(lambda (c, p): c*point**p, terms)
     #print "  sum: %s" %sum
     if not strategy.condition(sum):
-- 
2.43.0


From a047fc593e515e4c6c2072c3423a2e9efbceba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 02/14] fix: record each refuted example under its own key in
 check_examples

---
 vts/checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/checker.py b/vts/checker.py
index 09fde35..53f96cd 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -57,12 +57,12 @@ def check_examples(vts=True):
       print "formula value: %s" %formula_value
       print
       if not formula_value:
-        results[file] = formula_value
+        results[(file_index, ex_index)] = formula_value
 
 
   print results
   for f in results:
-    print "%s - %s" %(f[:-8], results[f])
+    print "%s - %s" %(f, results[f])
   
 def make_relation_map(formula):
   """Distributes relations in formula to map based on their type (<=, <, =, !=)
-- 
2.43.0


From 7673c33a61c797ee7968ac94ce484cc9e4dedf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 03/14] fix: read stored examples from the directory they are
 written to

---
 vts/examples_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 807ed3c..46786d4 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -90,7 +90,7 @@ def make_univariate(relations):
 
 def unpickle_dirs_gen():
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
 
   dirGen = itertools.chain( os.walk(met_dir), os.walk(hid_dir))
@@ -127,7 +127,7 @@ def unpickle_dirs():
   
   """
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
   
   met_results = unpickle_from_dir(met_dir)
-- 
2.43.0


From e7f6378d3ffae182244f217cc28d62d31d326756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 04/14] fix: do not inject parsed variable names into the
 parser's globals

---
 vts/grf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/grf_parser.py b/vts/grf_parser.py
index ed9cbc0..b776b42 100644
--- a/vts/grf_parser.py
+++ b/vts/grf_parser.py
@@ -15,7 +15,7 @@ def doInt(s,l,t):
 
     
 def doVariable(s, l, t):
-  return sympy.var(t[0])
+  return sympy.Symbol(t[0])
   #return sympy.var('x')
   
 def proc_le(s, l, t):
-- 
2.43.0


From bc7ad8f1ca9e3e140e573ec007be902ba7f622c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 05/14] fix: recompute the variable order when the problem's
 variables change

---
 GRF/local_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index 8291f6d..e01e38b 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -44,7 +44,7 @@ class VarOrder:
     order = None
     @staticmethod
     def var_order(D):
-        if not VarOrder.order:
+        if not VarOrder.order or set(VarOrder.order) != set(D.keys()):
             VarOrder.order = D.keys()
         return VarOrder.order
     @staticmethod
-- 
2.43.0


From 35fd96a5322022b57608632679c37415b8446759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 06/14] fix: report only antecedent positions of the written
 sequent for hiding

---
 GRF/smt2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index 836e970..040a08c 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -133,6 +133,8 @@ class SMTContext:
         #    if h.op != "=":
         #        h.quotient_ring_inject(B)
 
+        written_antecedent = self.antecedent
+
         if len(self.succedent) > 1:
             self.succedent.reverse()
             for h in self.succedent[1:]:
@@ -168,7 +170,7 @@ class SMTContext:
         hide_succedent = []
 
         i = 0
-        for h in self.antecedent:
+        for h in written_antecedent:
             if h in hyps_to_hide:
                 hide_antecedent += [i]
             i += 1
-- 
2.43.0


From 8037b313c0a6ee4a3eb8e1e046596fad42d8773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 07/14] fix: keep an atom's variables in step with its reduced
 polynomial

---
 GRF/grf.sage | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index cc067a9..4981be9 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -75,6 +75,7 @@ class RCF_Atom(RCF):
         print "      - Old poly: ", self.poly
         print "      - New poly: ", new_poly
         self.poly = new_poly
+        self.vars = new_poly.variables()
 
     def negate(self):
         if self.op == ">":
-- 
2.43.0


From fce25e38ffa5873d674c3a2b25cde33f4d7bd4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 08/14] fix: run the filter on the context the commands were
 parsed into

---
 GRF/smt2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index 040a08c..907ab37 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -423,7 +423,7 @@ class ParseSMT():
                         setParseAction(proc_succedent)
 
         cmd = (lit_lpar + lit_sequent + str_sym + cmd_antecedent + cmd_succedent + lit_rpar).\
-              setParseAction(self.context.perform_grf)
+              setParseAction(lambda s, l, t: self.context.perform_grf(s, l, t))
         self.cmds = ZeroOrMore(cmd)
 
     def fmlsTokenList(self, s):
-- 
2.43.0


From 385be25347731fc83eb13a3bc5e25141ab1b1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 09/14] fix: isolate the roots of all polynomials together,
 keeping irrational roots next to rational ones

---
 GRF/grf.sage | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 4981be9..ec25027 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -445,16 +445,18 @@ class QE_Factory(RCF):
             easy_roots_global, rri = [], []
             prod = 1
             for p in univ_polys:
-                easy_roots = p.roots()
-                if easy_roots != []:
-                    easy_roots_global += [[(a, a), m] for (a, m) in easy_roots]
-                else:
-                    prod = prod * p
-            if prod != 1:
-                rri = prod.real_root_intervals()
-            #print "rri's: ", rri
-            #print "easy_roots:", easy_roots_global
-            return rri + easy_roots_global
+                easy_roots_global += [a for (a, m) in p.roots()]
+                prod = prod * p
+            # Isolate the roots of the whole product, so that no two
+            # intervals overlap and no irrational root of a polynomial
+            # which also has rational roots is lost.  An interval around
+            # a rational root contains no other root.
+            for ((l, u), m) in prod.real_root_intervals():
+                for a in easy_roots_global:
+                    if l < a and a < u:
+                        l, u = a, a
+                rri.append(((l, u), m))
+            return rri
 
     #
     # Given a rational interval (presented as (l, u), a lower and
-- 
2.43.0


From 4f143ece9f7f75d4ba9de6dc8df2a565d5faadc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:57 +0000
Subject: [PATCH 10/14] fix: lifting without a goal extends every cell instead
 of failing

---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index ec25027..7a132b4 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -635,7 +635,7 @@ class QE_Factory(RCF):
 
         # Special partiality for GRF: We short-circuit True cells!
 
-        if goal.eval_on_dict(parent_dict) == True:
+        if goal != None and goal.eval_on_dict(parent_dict) == True:
             print "--> Partiality for GRF short-circuited lifting over cell (R^" \
                 + str(l) + "):" + str(i) + "!"
             return []
-- 
2.43.0


From a4bbd32db729a3c08344e640aad1703b7014af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:58 +0000
Subject: [PATCH 11/14] fix: reduce a promoted equation before reducing the
 others by it, so that none is lost

---
 GRF/grf.sage | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 7a132b4..e22697d 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -197,7 +197,12 @@ class RCF_Goal(RCF):
             self.goal_hyps = self.goal_hyps + [gh]
         else:
             B = self.gb
-            if gh.op == '=':
+            if self.gb != []:
+                # Simplify new gh using current goal_hyps.  This is done
+                # first: once an equation of goal_hyps has been reduced by
+                # gh, gh may no longer be reduced by that equation.
+                gh.quotient_ring_inject(self.gb)
+            if gh.op == '=' and gh.poly != 0:
                 I = ideal([gh.poly])
                 B = I.groebner_basis()
                 # Currently, B = I :-)!
@@ -205,9 +210,6 @@ class RCF_Goal(RCF):
                 for h in self.goal_hyps:
                     h.quotient_ring_inject(B)
                 B = ideal(self.gb + [gh.poly]).groebner_basis()
-            if self.gb != []:
-                # Simplify new gb using current goal_hyps
-                gh.quotient_ring_inject(self.gb)
             self.goal_hyps = self.goal_hyps + [gh]
             # Update our working self.gb in case gh has enriched it
             self.gb = B
-- 
2.43.0


From 9a72bc0429af9ee22f83354bf47e565d5865d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:58 +0000
Subject: [PATCH 12/14] fix: record failing points at which no hypothesis holds

---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index e22697d..245a5b9 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -878,7 +878,7 @@ in a (uniform) epsilon(=" + str(epsilon) + ") neighborhood.")
                     #print "    " + str(bad)
                     if len(bad) == len(self.hyps):
                         raise Exception("Counterexample!: " + str(d))
-                    if bad not in bads and bad != []:
+                    if bad not in bads:
                         # Filter out sets in bads that are subsets of
                         # bad. This is a disgusting hack! Must change
                         # to tuple representation soon.
-- 
2.43.0


From 3b62086abe98dbe25a970f1bab83e6133910ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:58 +0000
Subject: [PATCH 13/14] fix: sample around the point when no hypothesis is
 hidden

---
 GRF/local_search.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index e01e38b..f8c1e61 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -168,6 +168,10 @@ def local_search_sampling(Prob,D,sample_params):
     Points = [D] \
         + [perturb_dict(D,perturb_eps) for i in xrange(init_perturb_num)]   
 
+    # Without hidden hypotheses there is no atom to flip
+    if not Prob.get_hidden_hyp_atoms():
+        return Points
+
     for i in xrange(repeat_num):
         x = VarOrder.dict2vect(D)
         for k in xrange(chain_length):
-- 
2.43.0


From d0cc6a93524ee5169eb3d8a97dd2874b99cb5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:13 +0000
Subject: [PATCH 14/14] fix: Cohen-Hormander keeps the case in which every
 polynomial vanishes

---
 highschool_qe/cohenhorm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 0664806..899ec11 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -120,7 +120,11 @@ class CohenHormander:
       )
       
       # get all tables (list of tables and contexts)
-      needed_tables = self._real_table(new_goal, con)
+      if len(new_goal) > 0:
+        needed_tables = self._real_table(new_goal, con)
+      else:
+        # all of them vanished, which is a case like any other
+        needed_tables = self.get_initial_table(self._algebra.zero(), con)
 
       # special case for when the max_poly has a undefined leading sign
       # by this point
-- 
2.43.0

