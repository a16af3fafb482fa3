From d523c74ae33e04969d3911d4b54721716ccf8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 01/52] fix: disorientation check of a stack is no longer
 skipped under single-ply damage tolerance

---
 src/guidelines/disorientation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/guidelines/disorientation.py b/src/guidelines/disorientation.py
index a2f0763..10a7944 100644
--- a/src/guidelines/disorientation.py
+++ b/src/guidelines/disorientation.py
@@ -84,14 +84,14 @@ def is_diso_ss(ss, delta_angle, dam_tol=False,
 
     The angles are considered in degrees.
     """
-    if dam_tol:
-        if (dam_tol_rule is not None and dam_tol_rule in {2, 3})\
-        or (n_plies_dam_tol is not None and n_plies_dam_tol == 2):
-            for ind_ply in range(ss.size - 3):
-                if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
-                    return False
-        if dam_tol_rule is None and n_plies_dam_tol is None:
-            raise Exception('Not enough input arugments!')
+    if dam_tol and dam_tol_rule is None and n_plies_dam_tol is None:
+        raise Exception('Not enough input arugments!')
+    if dam_tol and (
+            (dam_tol_rule is not None and dam_tol_rule in {2, 3})
+            or (n_plies_dam_tol is not None and n_plies_dam_tol == 2)):
+        for ind_ply in range(ss.size - 3):
+            if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
+                return False
     else:
         for ind_ply in range(ss.size - 1):
             if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
-- 
2.43.0


From 9003ca2587d4348035f14cabdd625b93cfb7370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 02/52] fix: 10% rule reads the middle ply of a symmetric
 laminate at its middle

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index bfe351f..992c503 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -139,7 +139,7 @@ def is_ten_percent_rule(
             percent_135 = 2 * (
                 sum(stack[:stack.size // 2] == -45) + ply_queue.count(-45))
             if stack.size % 2:
-                mid_ply_angle = stack[stack.size % 2]
+                mid_ply_angle = stack[stack.size // 2]
                 if mid_ply_angle == 0:
                     percent_0 += 1
                 if mid_ply_angle == 90:
-- 
2.43.0


From d30e92724f0356feed9c3043080e5a561495f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 03/52] fix: 10% rule accepts a stacking sequence given as a
 list

---
 src/guidelines/ten_percent_rule.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 992c503..09d1c49 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -122,10 +122,8 @@ def is_ten_percent_rule(
                 return False
         return True
 
-    if isinstance(stack, list):
-        n_total = len(stack)
-    else:
-        n_total = stack.size
+    stack = np.array(stack)
+    n_total = stack.size
 
     if ply_queue is not None:
 
-- 
2.43.0


From a3bcc985cdda106899330979462515a5c77a7880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 04/52] fix: 10% rule on ply counts tolerates rounding like the
 rule on stacks

---
 src/guidelines/ten_percent_rule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 09d1c49..d162fd7 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -114,11 +114,11 @@ def is_ten_percent_rule(
             percent_45 = n_plies_per_angle[constraints.index45] / n_total
             percent_90 = n_plies_per_angle[constraints.index90] / n_total
             percent_135 = n_plies_per_angle[constraints.index135] / n_total
-            if percent_0 < constraints.percent_0 \
-            or percent_45 < constraints.percent_45 \
-            or percent_90 < constraints.percent_90 \
-            or percent_135 < constraints.percent_135 \
-            or percent_45 + percent_135 < constraints.percent_45_135:
+            if percent_0 + 1e-15 < constraints.percent_0 \
+            or percent_45 + 1e-15 < constraints.percent_45 \
+            or percent_90 + 1e-15 < constraints.percent_90 \
+            or percent_135 + 1e-15 < constraints.percent_135 \
+            or percent_45 + percent_135 + 1e-15 < constraints.percent_45_135:
                 return False
         return True
 
-- 
2.43.0


From 8f738f19df338460067f21a814fe887702dd3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 05/52] fix: no 10% penalty for a list of stacks when the rule
 asks for nothing

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index d162fd7..bd6f990 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -233,7 +233,7 @@ def calc_penalty_10_ss(ss, constraints, LPs=None, mp=False):
 
     if not mp:
         return 0
-    return np.zeros((ss.shape[0],))
+    return np.zeros((len(ss),))
 
 
 def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
-- 
2.43.0


From 9057d7dc6ae85d561490dc504c4138f0efea8584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 06/52] fix: no 10% penalty for an empty ply count vector

---
 src/guidelines/ten_percent_rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index bd6f990..da21478 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -257,6 +257,7 @@ def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
                     + max(0, constraints.percent_135 - percent_135)
                     + max(0, constraints.percent_45_135 \
                           - percent_45 - percent_135))
+            return 0
 
         penalties = np.zeros((n_plies_per_angle.shape[0],))
         for ind_ss in range(n_plies_per_angle.shape[0]):
-- 
2.43.0


From a5a57f11fcd61d7cb3b2659a1a69f4f72f654629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 07/52] fix: numpy.matlib is imported where it is used

---
 src/guidelines/ten_percent_rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index da21478..e2fc228 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -24,6 +24,7 @@ __author__ = 'Noemie Fedon'
 
 import sys
 import numpy as np
+import numpy.matlib
 import math
 
 sys.path.append(r'C:\BELLA')
-- 
2.43.0


From a672354e272f7fb8cca64684913eace92581571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 08/52] fix: distance to the 10% region of Abdalla uses the
 region's own boundary

---
 src/guidelines/ten_percent_rule_Abdalla.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/guidelines/ten_percent_rule_Abdalla.py b/src/guidelines/ten_percent_rule_Abdalla.py
index 2ebb91b..0be2f50 100644
--- a/src/guidelines/ten_percent_rule_Abdalla.py
+++ b/src/guidelines/ten_percent_rule_Abdalla.py
@@ -73,11 +73,11 @@ def calc_distance_Abdalla(LPs, constraints, num=10000):
         and 1 - 4 * constraints.percent_Abdalla - LPs[1] + 1e-15 > 0:
             return 0
 
-        LP1_max = math.sqrt(1 - 4 * constraints.percent_Abdalla)
+        LP1_max = 1 - 4 * constraints.percent_Abdalla
         LP1_min = - LP1_max
 
         def point_parabola_Abdalla(LP1, constraints):
-            LP2 = 2 * (LP1 / (1 - 4 * constraints.percent_Abdalla)) **2 \
+            LP2 = 2 * LP1 ** 2 / (1 - 4 * constraints.percent_Abdalla) \
             - (1 - 4 * constraints.percent_Abdalla)
             return np.array([LP1, LP2])
 
-- 
2.43.0


From b7f99278a4cbeeef142255d88e17d4304f058649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 09/52] fix: calc_penalty_ipo_oopo_mp raised UnboundLocalError
 when parameters were given

---
 src/guidelines/ipo_oopo.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index a398171..9c41e43 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -243,22 +243,18 @@ def calc_penalty_ipo_oopo_mp(
     - cummul_sec_mom_areas: sum of the second moments of areas of the plies
     retrieved so far + the current plies
     """
-    if parameters is None:
-        calculate_penalty = True
-
     n_panels = lampam.shape[0]
     penalties_ipo = np.zeros((n_panels,), dtype=float)
     penalties_oopo = np.zeros((n_panels,), dtype=float)
-    if calculate_penalty:
-        for ind_panel in range(n_panels):
-            # penalty for in-plane orthotropy
-            if constraints.ipo and penalty_ipo_switch:
-                penalties_ipo[ind_panel] = (
-                    abs(lampam[ind_panel][2]) + abs(lampam[ind_panel][3])) / 2
-            # penalty for out-of-plane orthotropy
-            if constraints.oopo:
-                penalties_oopo[ind_panel] = (
-                    abs(lampam[ind_panel][10]) + abs(lampam[ind_panel][11])) / 2
+    for ind_panel in range(n_panels):
+        # penalty for in-plane orthotropy
+        if constraints.ipo and penalty_ipo_switch:
+            penalties_ipo[ind_panel] = (
+                abs(lampam[ind_panel][2]) + abs(lampam[ind_panel][3])) / 2
+        # penalty for out-of-plane orthotropy
+        if constraints.oopo:
+            penalties_oopo[ind_panel] = (
+                abs(lampam[ind_panel][10]) + abs(lampam[ind_panel][11])) / 2
     return cummul_areas * penalties_ipo, cummul_sec_mom_areas * penalties_oopo
 
 
-- 
2.43.0


From f6583b08a5a9f897eea40ff1ca27ce50c63bef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 10/52] fix: calc_penalty_spacing used the layouts before/after
 of the multi-panel structure with blending strip indices

---
 src/guidelines/ply_drop_spacing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/guidelines/ply_drop_spacing.py b/src/guidelines/ply_drop_spacing.py
index d8fdd5e..a539bc8 100644
--- a/src/guidelines/ply_drop_spacing.py
+++ b/src/guidelines/ply_drop_spacing.py
@@ -88,6 +88,10 @@ def calc_penalty_spacing(
         multipanel.from_mp_to_blending_strip(constraints, n_plies_ref_panel=1)
 
     reduced_pdl = reduce_for_guide_based_blending(multipanel, pdl)
+    if pdl_before is not None:
+        pdl_before = reduce_for_guide_based_blending(multipanel, pdl_before)
+    if pdl_after is not None:
+        pdl_after = reduce_for_guide_based_blending(multipanel, pdl_after)
 
 #    print('reduced_pdl.shape', reduced_pdl.shape)
     return calc_penalty_spacing(
-- 
2.43.0


From e3de1a7541a391a6ba68f60a7c664da553c2108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 11/52] fix: boundary weights given with the panel IDs in
 decreasing order were lost

---
 src/BELLA/multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/multipanels.py b/src/BELLA/multipanels.py
index 0ba76b4..2f8651c 100644
--- a/src/BELLA/multipanels.py
+++ b/src/BELLA/multipanels.py
@@ -195,7 +195,7 @@ The panels of the multipanel-component are not all connected!""")
                     self.boundary_weights_in_IDs[
                         (ind_panel2, ind_panel1)] = weight
                     self.boundary_weights[
-                        (ind_panel2_mod, ind_panel1_mod)] = weight
+                        (ind_panel1_mod, ind_panel2_mod)] = weight
 
         else:  # all boundary weightings set to one
             for ind_panel1, ind_panel2 in self.boundaries_in_IDs:
-- 
2.43.0


From b1ec9ca46fd4c6a67e9fc428ff94e21fe35f1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 12/52] fix: weightings of panels with equal ply counts were
 not aggregated in the blending strip

---
 src/BELLA/reduced_multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/reduced_multipanels.py b/src/BELLA/reduced_multipanels.py
index c5dfcf1..40b5d17 100644
--- a/src/BELLA/reduced_multipanels.py
+++ b/src/BELLA/reduced_multipanels.py
@@ -158,7 +158,7 @@ The panel ply counts are not compatible with guide-based blending (middle ply)""
         parameters are aggregated
         """
         self.actual_panel_weightings = np.zeros((self.n_panels,))
-        for ind_panel, panel in enumerate(self.panels):
+        for ind_panel, panel in enumerate(multipanel.panels):
             self.actual_panel_weightings[
                 self.ind_panels_guide[ind_panel]] += panel.weighting
 
-- 
2.43.0


From 6c8cba5bb2cb41407605637e899af2b9fe22544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 13/52] fix: Panel accepted invalid lampam_weightings and
 truncated integer ones

---
 src/BELLA/panels.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index d490fd7..826f932 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -105,9 +105,8 @@ The panel weighting in the multi-panel objective function must be positive!
 """)
 
         # lamination-parameter weightings in panel objective function
-        if not(isinstance(lampam_weightings, np.ndarray)) \
-        and lampam_weightings.size == 12 \
-        and lampam_weightings.dtype == float:
+        if not (isinstance(lampam_weightings, np.ndarray) \
+                and lampam_weightings.shape == (12,)):
             raise PanelDefinitionError("""
 Attention, lampam_weightings must be a vector with 12 float components!
 """)
@@ -115,7 +114,7 @@ Attention, lampam_weightings must be a vector with 12 float components!
                     raise PanelDefinitionError("""
 Attention, the elements of lampam_weightings must be positive!
 """)
-        self.lampam_weightings_ini = lampam_weightings
+        self.lampam_weightings_ini = lampam_weightings.astype(float)
 
     def filter_target_lampams(self, constraints, obj_func_param):
         """
-- 
2.43.0


From 69eb254ebe49e899f7924f07f3af32a0c36d253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 14/52] fix: Constraints could not be created without angled
 plies

---
 src/BELLA/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 1059678..fa6ae93 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -339,7 +339,7 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
             elem,
             self.ind_angles_dict[elem],
             self.ind_angles_dict[-elem]
-            ] for elem in angles_bal])
+            ] for elem in angles_bal]).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From b9f9dbee411f0a2fe04459c6f79ee1ca77bae088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 15/52] fix: Constraints (LAYLA) could not be created without
 angled plies

---
 src/LAYLA_V02/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index 164c95a..46c6d3d 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -267,7 +267,8 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
         self.angles_bal = np.array([[
             elem,
             self.ind_angles_dict[elem],
-            self.ind_angles_dict[-elem]] for elem in angles_bal])
+            self.ind_angles_dict[-elem]] for elem in angles_bal]).reshape(
+                (-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From 31d77def45db94fd316db7fdc80096b8b704d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 16/52] fix: calc_penalty_spacing_1ss divided by zero for an
 empty ply drop layout

---
 src/guidelines/ply_drop_spacing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/guidelines/ply_drop_spacing.py b/src/guidelines/ply_drop_spacing.py
index a539bc8..2a8af65 100644
--- a/src/guidelines/ply_drop_spacing.py
+++ b/src/guidelines/ply_drop_spacing.py
@@ -135,6 +135,8 @@ def calc_penalty_spacing_1ss(ss, min_drop):
     - min_drop: minimum number of continuous plies required between two block
     of dropped plies
     """
+    if ss.size == 0:
+        return 0
     penal = 0
     # indentify index of the successive -1 elements in the array
     index1 = 0
-- 
2.43.0


From 1b35e314344fb926b0897d91fd49113b06a2c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 17/52] fix: external_contig did not filter the second set of
 stacking sequences

---
 src/guidelines/external_contig.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/guidelines/external_contig.py b/src/guidelines/external_contig.py
index b6ba1aa..1ed53e1 100644
--- a/src/guidelines/external_contig.py
+++ b/src/guidelines/external_contig.py
@@ -389,6 +389,7 @@ sublaminate
                             if  angle[ii, 0] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 3:
@@ -401,6 +402,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -414,6 +416,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -428,6 +431,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1]\
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -443,6 +447,7 @@ sublaminate
                             and angle[ii, 4] == ss_before[-1] \
                             and angle[ii, 5] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -458,6 +463,7 @@ sublaminate
                         if  angle[ii, 0] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-2]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 3:
@@ -470,6 +476,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -483,6 +490,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
 
@@ -498,6 +506,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -513,6 +522,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1] \
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -532,6 +542,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 4:
@@ -545,6 +556,7 @@ sublaminate
                             and ss_before[-3] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -559,6 +571,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -574,6 +587,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1]  \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -597,6 +611,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 5:
@@ -611,6 +626,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -626,6 +642,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
                 else:
                     raise Exception(
@@ -652,6 +669,7 @@ sublaminate
                         and ss_before[-2] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 6:
@@ -667,6 +685,7 @@ sublaminate
                             and angle[ii, 0] == ss_before[-5] \
                             and angle[ii, 1] == ss_before[-5]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -698,6 +717,7 @@ sublaminate
                         and angle[ii, 0] == ss_before[-5]  \
                         and ss_before[-6] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 else:
-- 
2.43.0


From fd3554fe9c227504dd3e8a1137c9f2b12b63620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 18/52] fix: divide_panels ignored the covering plies in the
 group positions of the thickest panels

---
 src/BELLA/divide_panels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index 38a4807..695cc27 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -112,7 +112,7 @@ limitations !
             # pos_first_ply_groups: position of the first ply of each group in
             # the order in which they appear in the stacking sequence
             pos_first_ply_groups = np.zeros((n_groups,), int)
-    #        pos_first_ply_groups[0] = 1
+            pos_first_ply_groups[0] = constraints.n_covering
             for ind in np.arange(1, n_groups):
                 pos_first_ply_groups[ind] \
                 = pos_first_ply_groups[ind - 1] + n_plies_in_groups[ind - 1]
@@ -200,7 +200,7 @@ limitations !
             # pos_of_groups: position of the first ply of each
             # group in the order they appear in the final stacking sequence
             pos_of_groups = np.zeros((n_groups,), int)
-    #        pos_of_groups[0] = 1
+            pos_of_groups[0] = constraints.n_covering
             for ind in np.arange(1, n_groups):
                 pos_of_groups[ind] = pos_of_groups[ind - 1] \
                 + order_of_groups[ind - 1]
-- 
2.43.0


From a8911460ff8cecc12d108e622e5b1935b798acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:11 +0000
Subject: [PATCH 19/52] fix: no weight of an out-of-plane lamination parameter
 when only in-plane orthotropy is required

---
 src/LAYLA_V02/parameters.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index 93d4f32..6ca2b7a 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -344,7 +344,6 @@ Attention, the elements of lampam_to_be_optimised must be either 0 or 1!
         elif constraints.ipo and self.penalty_ipo_switch:
             if set(constraints.set_of_angles) == set([0, 45, -45, 90]):
                 sensitivities[2] = s*coeff_bal_ipo
-                sensitivities[10] = s*coeff_oopo
             else:
                 sensitivities[2] = s*coeff_bal_ipo
                 sensitivities[3] = s*coeff_bal_ipo
-- 
2.43.0


From 1e0b53adf3d8fb73e4ae86e71a775ce2e859b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 20/52] fix: last ply pruning for contiguity ignored plies of
 laminates with few plies

---
 src/BELLA/pruning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index b55f88d..04a0b8a 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -179,7 +179,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with no middle ply
             if constraints.sym and not has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -192,7 +192,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with middle ply
             elif constraints.sym and has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -203,7 +203,7 @@ def pruning_diso_contig_damtol(
 
             else: # not symmetric
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
-- 
2.43.0


From 38ddde5820befc281a09ca0c84c29c150eec0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 21/52] fix: wrong keyword in the contiguity pruning of the
 last ply of asymmetric laminates

---
 src/BELLA/pruning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 04a0b8a..d4fd32c 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -207,7 +207,7 @@ def pruning_diso_contig_damtol(
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
-                            new_stack=np.hstack((
+                            stack=np.hstack((
                                 ss_before, child_ss[ind], ss_after)),
                             constraints=constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-- 
2.43.0


From 4c8eea0e1ddad7f703e78b1101a8cb52e8f59683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 22/52] fix: damage tolerance pruning of asymmetric laminates
 applied to the wrong plies

---
 src/BELLA/pruning.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index d4fd32c..b6f465f 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -59,7 +59,7 @@ def pruning_diso_contig_damtol(
                 return None
             return child_ss
 
-        elif not constraints.sym and level == n_plies_to_optimise - 1:
+        elif not constraints.sym and level == 1: # top outer ply
             for ind in range(child_ss.size)[:: -1]:
                 if child_ss[ind] not in my_set:
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
@@ -69,7 +69,8 @@ def pruning_diso_contig_damtol(
 
         if constraints.dam_tol_rule in [2, 3]:
 
-            if level == 1:
+            # second ply at the bottom surface
+            if level == (1 if constraints.sym else 2):
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
@@ -92,7 +93,8 @@ def pruning_diso_contig_damtol(
                     return None
                 return child_ss
 
-            if level == n_plies_to_optimise - 2 and not constraints.sym:
+            # second ply at the top surface
+            if level == 3 and not constraints.sym:
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-- 
2.43.0


From f5e07a1ac1fc3d78ad4872757e7dfa8d4b3a3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:10 +0000
Subject: [PATCH 23/52] fix: last ply pruning for contiguity ignored plies of
 laminates with few plies (LAYLA)

---
 src/LAYLA_V02/pruning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index f2faa78..bf2f646 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -206,11 +206,11 @@ def pruning_diso_contig_damtol(
         and level == targets.n_plies // 2 + targets.n_plies % 2 - 1:
 
             ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
+                max(0, mother_ss_bot.size - constraints.n_contig):]
             if ss_before.size < constraints.n_contig:
                 ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
+                    ss_bot_simp[max(0, ss_bot_simp.size \
+                                - constraints.n_contig + ss_before.size):],
                     ss_before))
 
             if targets.n_plies % 2 == 0: # no middle ply
@@ -237,11 +237,11 @@ def pruning_diso_contig_damtol(
         elif not constraints.sym and level == targets.n_plies - 1:
 
             ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
+                max(0, mother_ss_bot.size - constraints.n_contig):]
             if ss_before.size < constraints.n_contig:
                 ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
+                    ss_bot_simp[max(0, ss_bot_simp.size \
+                                - constraints.n_contig + ss_before.size):],
                     ss_before))
 
             ss_after = mother_ss_top[:constraints.n_contig]
-- 
2.43.0


From 14471128cb675fc7c2b6384ae70c5641a85c2fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:10 +0000
Subject: [PATCH 24/52] fix: wrong keyword in the contiguity pruning of the
 last ply of asymmetric laminates (LAYLA)

---
 src/LAYLA_V02/pruning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index bf2f646..2a14922 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -252,7 +252,7 @@ def pruning_diso_contig_damtol(
 
             for ind in range(child_ss.size)[:: -1]:
                 if not internal_contig2(
-                        new_stack=np.hstack((
+                        stack=np.hstack((
                             ss_before, child_ss[ind], ss_after)),
                         constraints=constraints):
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-- 
2.43.0


From 602af1035ecaf68b5343a3bab9c8864bb3c3cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 25/52] fix: reject materials with a non-positive transverse or
 shear modulus

---
 src/BELLA/materials.py     | 4 ++--
 src/LAYLA_V02/materials.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index a467770..cbb514d 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index a467770..cbb514d 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
-- 
2.43.0


From 63e6dca2d8e8a3edb21f216f42ac5ca9d403349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 26/52] fix: volumic density of a material with the default
 areal density

---
 src/BELLA/materials.py     | 2 +-
 src/LAYLA_V02/materials.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index cbb514d..c7f426a 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index cbb514d..c7f426a 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
-- 
2.43.0


From 486dc0644d8b3a5309dcf4b1f01259f8ad4980c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 27/52] fix: D66 in the buckling factor from the four
 out-of-plane lamination parameters

---
 src/buckling/buckling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buckling/buckling.py b/src/buckling/buckling.py
index aae1013..c9ba6a0 100644
--- a/src/buckling/buckling.py
+++ b/src/buckling/buckling.py
@@ -79,7 +79,7 @@ def buckling_factor(
         D11 = a * (mat.U1 + mat.U2*lampam[0] + mat.U3*lampam[1])
         D12 = a *(-mat.U3*lampam[1] + mat.U4)
         D22 = a *(mat.U1 - mat.U2*lampam[0] + mat.U3*lampam[1])
-        D66 = a *(-mat.U3*lampam[0] + mat.U5)
+        D66 = a *(-mat.U3*lampam[1] + mat.U5)
     for mode_m in range(n_modes):
         for mode_n in range(n_modes):
             buck[mode_m, mode_n] = buckling_factor_m_n(
-- 
2.43.0


From 0472e6d1a4c0472d5fa16fe6db95bb49a5bb8201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 28/52] fix: replace the worst, not the best, stored ply drop
 layout by a better one

---
 src/BELLA/pdl_group.py | 2 +-
 src/BELLA/pdl_ini.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index d7f2f94..f12521e 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -250,7 +250,7 @@ def randomly_pdl_guide(
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_spacing_imperfect)
+                    indexx = np.argmax(p_spacing_imperfect)
                     pdl_imperfect[indexx] = new_pdl
                     p_spacing_imperfect[indexx] = p_spacing
             else:
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index a4b7142..122b56c 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -160,7 +160,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_pdls_imperfect)
+                    indexx = np.argmax(p_pdls_imperfect)
                     pdls_imperfect[indexx] = new_pdl
                     p_pdls_imperfect[indexx] = new_penalty_spacing
             else:
-- 
2.43.0


From b7d8cfc1608d469d6cacf8324e49bf2c3945fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 29/52] fix: import numpy.matlib where it is used

---
 src/BELLA/pdl_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index adea881..5100c79 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -29,6 +29,7 @@ Guidelines:
 """
 import sys
 import numpy as np
+import numpy.matlib
 
 sys.path.append(r'C:\BELLA')
 from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss
-- 
2.43.0


From 90f0c2fe76ff2cee6a270c7841474e25a0049bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 30/52] fix: middle plies in the ply drop layouts of symmetric
 structures

---
 src/BELLA/pdl_group.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index f12521e..4db099e 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -167,19 +167,17 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
-        if last_group and has_middle_ply:
-            middle = -(middle_ply_indices[:-1] != 0).astype(int)
-#            print('middle', middle)
-            middle = middle.reshape((new_pdl.shape[0], 1))
-#            print('middle', middle)
-            new_pdl = np.hstack((new_pdl, middle))
-
-
         # Formatting the ply drop layout so that a ply drop scheme is
         # associated to each panel boundary
         new_pdl = ply_drops_at_each_boundaries(
             new_pdl, n_ply_drops_unique, indices_unique, n_ply_drops)
         # <class 'numpy.ndarray'>
+
+        # the middle ply only belongs to the panels that have a middle ply
+        if last_group and has_middle_ply:
+            middle = -(middle_ply_indices == 0).astype(int)
+            new_pdl = np.hstack((new_pdl, middle.reshape((-1, 1))))
+
 #        print('new_pdl')
 #        print(new_pdl)
 
-- 
2.43.0


From 9c67444a31b02f21354ceb205f2ab771fada65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 31/52] fix: do not read the last initial ply drop layout twice

---
 src/BELLA/pdl_ini.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 122b56c..04b2139 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -52,10 +52,9 @@ def read_pdls_excel(filename):
                 header=None, )
         except:
             break
-        finally:
-            ind_pdl += 1
-            pdls.append(np.array(pdl))
-    ind_pdl -= 2
+        ind_pdl += 1
+        pdls.append(np.array(pdl))
+    ind_pdl -= 1
     print('    ' + str(ind_pdl) + ' intial ply-drop layouts read.')
     return pdls
 
-- 
2.43.0


From ac5ef394898d1387dda6fae183bf98e7659b85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 32/52] fix: covering plies and middle plies of ply drop
 layouts read from a table

---
 src/BELLA/pdl_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index 5100c79..126560a 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -270,13 +270,13 @@ def input_pdl_from_sst(sst, multipanel, constraints):
         if constraints.n_covering == 1:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 1:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 1:(sst.shape[1] + 1) // 2]
         elif constraints.n_covering == 2:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0, 1], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 2:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 2:(sst.shape[1] + 1) // 2]
         else:
-            sst_to_mod = sst_to_mod[:, :sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, :(sst.shape[1] + 1) // 2]
 
         for ind_panel in range(sst_to_mod.shape[0]):
             counter = 0
-- 
2.43.0


From 7c9de1838f0e81887c71100b77661cd2245ab354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 33/52] fix: check all covering plies in the covering rule

---
 src/guidelines/one_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index 789876a..68e12bc 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -81,7 +81,9 @@ def check_ply_drop_rules(reduced_sst, multipanel, constraints, reduced=True):
     reduced = True if the function is applied to the blending strip
     """
     if constraints.covering:
-        if (reduced_sst[:, 0] == -1).any() or (reduced_sst[:, -1] == -1).any():
+        n_cov = constraints.n_covering
+        if (reduced_sst[:, :n_cov] == -1).any() \
+        or (reduced_sst[:, -n_cov:] == -1).any():
             raise Exception("Covering constraint not satisfied")
 
     if  constraints.pdl_spacing:
-- 
2.43.0


From 0aee5e55b4df0476c8cca9e893552fc26f81133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:39 +0000
Subject: [PATCH 34/52] fix: stop the repair for the 10% rule of Abdalla when
 no change brings the laminate closer to the feasible region

---
 src/RELAY/repair_10_bal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 90b1f7a..7ed35db 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -83,7 +83,7 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 
 
-    while dist_10 > 1e-10:
+    while dist_10 > 1e-10 and np.min(dist_10_options) + 1e-20 < dist_10:
 #        print('dist_10', dist_10)
 #        print('dist_10_options', dist_10_options)
 
@@ -267,7 +267,7 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 #    print('dist_10_options', dist_10_options)
 
-    while dist_10 > 1e-10:
+    while dist_10 > 1e-10 and np.min(dist_10_options) + 1e-20 < dist_10:
         # attempts at modifying a couple of angled plies
         ind_angle1, ind_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
-- 
2.43.0


From 54cc79dae332e1d77f20f5d6231c115678613ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:10 +0000
Subject: [PATCH 35/52] fix: check the bottom plies of laminates repaired from
 inside when the check starts at the first ply

---
 src/RELAY/repair_from_inside_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_from_inside_asym.py b/src/RELAY/repair_from_inside_asym.py
index 4aaff64..87cc75d 100644
--- a/src/RELAY/repair_from_inside_asym.py
+++ b/src/RELAY/repair_from_inside_asym.py
@@ -198,7 +198,7 @@ def repair_diso_contig_from_inside_asym(
             continue
         number = stack_test.size - 4 - real_n_D1 \
         - constraints.n_contig
-        if number > 0:
+        if number >= 0:
             stack_test_2 = stack_test[number:]
             if constraints.diso and not is_diso_ss(
                     stack_test_2, constraints.delta_angle, dam_tol=False):
-- 
2.43.0


From 1c6f394cc93d91ce072ad843efc5510f847f231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:10 +0000
Subject: [PATCH 36/52] fix: check enough plies for contiguity next to the
 plies permuted at the centre when these are fewer than the contiguity limit

---
 src/RELAY/repair_from_outside_asym.py | 19 +++++++++++--------
 src/RELAY/repair_from_outside_sym.py  | 15 +++++++++------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index eb35f68..e7d34ef 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -169,22 +169,25 @@ def repair_diso_contig_from_outside_asym(
             remaining_plies[counter] = ply_queue.pop(0)
 #    print('remaining_plies', remaining_plies)
 
+    # plies to be considered next to the plies at the centre
+    n_window = max(real_n_D1, constraints.n_contig)
+
 
     if constraints.dam_tol:
         if hasattr(constraints, 'dam_tol_rule') \
         and constraints.dam_tol_rule in {2, 3}:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
+            mini_bottom = max(1, stack_bottom.size - n_window - 1)
+            mini_top = min(stack_bottom.size - 1, n_window + 1)
         if not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
+            mini_bottom = max(1, stack_bottom.size - n_window - 1)
+            mini_top = min(stack_bottom.size - 1, n_window + 1)
         else:
-            mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size, real_n_D1 + 1)
+            mini_bottom = max(0, stack_bottom.size - n_window - 1)
+            mini_top = min(stack_bottom.size, n_window + 1)
     else:
-        mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-        mini_top = min(stack_bottom.size, real_n_D1 + 1)
+        mini_bottom = max(0, stack_bottom.size - n_window - 1)
+        mini_top = min(stack_bottom.size, n_window + 1)
 
     ind_2 = np.sort(ind_2)
     for elem in itertools.permutations(
diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index 394d164..7ecd2bf 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -156,17 +156,20 @@ def repair_diso_contig_from_outside_sym(
             remaining_plies[counter] = ply_queue.pop(0)
 #    print('remaining_plies', remaining_plies)
 
+    # plies to be considered next to the plies at the centre
+    n_window = max(real_n_D1, constraints.n_contig)
+
     if constraints.dam_tol:
         if hasattr(constraints, 'dam_tol_rule') \
         and constraints.dam_tol_rule in {2, 3}:
-            mini = max(1, stack.size - real_n_D1 - 1)
+            mini = max(1, stack.size - n_window - 1)
         if not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
-            mini = max(1, stack.size - real_n_D1 - 1)
+            mini = max(1, stack.size - n_window - 1)
         else:
-            mini = max(0, stack.size - real_n_D1 - 1)
+            mini = max(0, stack.size - n_window - 1)
     else:
-        mini = max(0, stack.size - real_n_D1 - 1)
+        mini = max(0, stack.size - n_window - 1)
 
     for elem in itertools.permutations(
         range(real_n_D1)):
@@ -176,11 +179,11 @@ def repair_diso_contig_from_outside_sym(
         if ss.size % 2:
             stack_test = np.hstack((
                 stack_test, ss[ss.size // 2],
-                np.flip(stack_test[-real_n_D1:])))
+                np.flip(stack_test[-n_window:])))
         else:
             stack_test = np.hstack((
                 stack_test,
-                np.flip(stack_test[-real_n_D1:])))
+                np.flip(stack_test[-n_window:])))
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
-- 
2.43.0


From 755bead9976de8a88b90631b55d42a7e9e19d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:20 +0000
Subject: [PATCH 37/52] fix: import the functions used by the repairs for
 in-plane stiffness

---
 src/RELAY/repair_membrane_1_ipo.py    | 1 +
 src/RELAY/repair_membrane_1_no_ipo.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index aa88414..2bc48af 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -23,6 +23,7 @@ from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_membrane_1_no_ipo import calc_excess_10
 from src.RELAY.repair_10_bal import calc_ind_plies
 from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_1
 from src.guidelines.ten_percent_rule import is_ten_percent_rule
 
 def repair_membrane_1_ipo(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 8094363..3bcdfb5 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -22,6 +22,9 @@ from src.LAYLA_V02.constraints import Constraints
 from src.divers.pretty_print import print_ss
 from src.CLA.lampam_functions import calc_lampam
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import calc_ind_plies
+from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_3
 from src.RELAY.repair_tools import RepairError
 
 def repair_membrane_1_no_ipo(
-- 
2.43.0


From 1ff80ae9527adc0afa99756e79e7682c125da059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:20 +0000
Subject: [PATCH 38/52] fix: keep the in-plane lamination parameters of the
 laminate before repair

---
 src/RELAY/repair_membrane_1_ipo.py            | 2 +-
 src/RELAY/repair_membrane_1_ipo_Abdalla.py    | 2 +-
 src/RELAY/repair_membrane_1_no_ipo.py         | 2 +-
 src/RELAY/repair_membrane_1_no_ipo_Abdalla.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 2bc48af..15cd71b 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -79,7 +79,7 @@ def repair_membrane_1_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 9f07780..d0fbfb1 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -63,7 +63,7 @@ def repair_membrane_1_ipo_Abdalla(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     indices_1, indices_per_angle = calc_ind_plies(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 3bcdfb5..a19db8f 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -68,7 +68,7 @@ def repair_membrane_1_no_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
index a44095b..4953861 100644
--- a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
@@ -51,7 +51,7 @@ def repair_membrane_1_no_ipo_Abdalla(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     indices_1, indices_per_angle = calc_ind_plies(
-- 
2.43.0


From eead602177368742de32396400c21f91ba6e0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:20 +0000
Subject: [PATCH 39/52] fix: mark the rejected change of a pair of angled plies
 at its place in the table of changes

---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index d0fbfb1..6b87e69 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -113,7 +113,7 @@ def repair_membrane_1_ipo_Abdalla(
         LPs = lampamA + lampamA_options[ind_pos_angle2] - lampamA_options[
             ind_pos_angle1]
         if calc_distance_Abdalla(LPs, constraints) > 1e-10:
-            objA_options[ind_angle1, ind_angle2] = 1e10
+            objA_options[ind_pos_angle1, ind_pos_angle2] = 1e10
             continue
 
 #        print('objA_options after clean', objA_options)
-- 
2.43.0


From 5f53f7c7bfe7d7300b1b566f605e6748ad53daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:31 +0000
Subject: [PATCH 40/52] fix: keep the plies required in the combined +-45
 directions in the repair for in-plane stiffness

---
 src/RELAY/repair_membrane_1_no_ipo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index a19db8f..9ef3863 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -113,12 +113,12 @@ def repair_membrane_1_no_ipo(
                 continue
             excess_10[1] -= 1
         elif angle1 == 45:
-            if excess_10[2] < 1:
+            if excess_10[2] < 1 or (excess_10[4] < 1 and angle2 != -45):
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[2] -= 1
         elif angle1 == -45:
-            if excess_10[3] < 1:
+            if excess_10[3] < 1 or (excess_10[4] < 1 and angle2 != 45):
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[3] -= 1
@@ -136,6 +136,7 @@ def repair_membrane_1_no_ipo(
             excess_10[2] += 1
         elif angle2 == -45:
             excess_10[3] += 1
+        excess_10[4] = excess_10[4] - (abs(angle1) == 45) + (abs(angle2) == 45)
 
         lampamA += lampamA_options[ind_angle2] - lampamA_options[ind_angle1]
         objA = objA_options[ind_angle1, ind_angle2]
-- 
2.43.0


From d1be3c2cfdbc1d65d17a0f036b130513481db85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:52 +0000
Subject: [PATCH 41/52] fix: number plies from one for the change of
 out-of-plane lamination parameters due to a swap of blocks of plies

---
 src/RELAY/repair_flexural_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 999c430..4ddf74f 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -98,8 +98,8 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
                 new_lampamDs[index] = lampamD + calc_delta_lampamD_swap_1(
                     angle_first=block_1.angle,
                     angle_second=list_blocks[index_block_2].angle,
-                    n_first_ply=block_1.first_ply_pos,
-                    n_second_ply=list_blocks[index_block_2].first_ply_pos,
+                    n_first_ply=block_1.first_ply_pos + 1,
+                    n_second_ply=list_blocks[index_block_2].first_ply_pos + 1,
                     n_plies_group=block_1.n_block_of_plies,
                     n_plies=n_plies,
                     constraints=constraints)
-- 
2.43.0


From f0626c6a0780f4ed77a4ad5396874ae3713dae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:08 +0000
Subject: [PATCH 42/52] fix: keep the outer plies of damage tolerant laminates
 when blocks of plies are swapped

---
 src/RELAY/repair_flexural_1.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 4ddf74f..6e9394f 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -74,14 +74,18 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
     # out-of-plane properties
     for index_block_1 in range(len(list_blocks[:-1])):
         block_1 = list_blocks[index_block_1]
-        if status_dam_tol[block_1.first_ply_pos]:
+        if np.any(status_dam_tol[
+                block_1.first_ply_pos:
+                block_1.first_ply_pos + block_1.n_block_of_plies]):
             continue
 #        if block_1.distance_middle < 0.5:
 #            break
         ind_possible_swap = []
         for index_block_2, block_2 \
         in enumerate(list_blocks[index_block_1 + 1:]):
-            if status_dam_tol[list_blocks[index_block_2].first_ply_pos]:
+            if np.any(status_dam_tol[
+                    block_2.first_ply_pos:
+                    block_2.first_ply_pos + block_2.n_block_of_plies]):
                 continue
             if block_1.n_block_of_plies == block_2.n_block_of_plies \
             and block_2.angle in block_1.possible_angles \
-- 
2.43.0


From 243125c422d78959fb201f81f0594d901458cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:52 +0000
Subject: [PATCH 43/52] fix: account for the middle ply in the possible angles
 of the block next to it when the following block changes

---
 src/RELAY/repair_flexural_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index de48154..eec5279 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -319,6 +319,8 @@ class Block():
                     if block2.ID == block1.ID + 1 \
                     or block2.ID == block1.ID - 1:
                         block1.neighbour_angles.append(block2.angle)
+                if block1.ID == 0 and midply is not None:
+                    block1.neighbour_angles.append(midply)
                 block1.calc_possible_angles(constraints)
 
 
-- 
2.43.0


From 7ab9f717e6b9f4044a33ef92020ae2b9708f952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:18 +0000
Subject: [PATCH 44/52] fix: return no block for laminates with all plies at
 the fibre orientation of the middle ply

---
 src/RELAY/repair_flexural_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index eec5279..33c5c1b 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -343,8 +343,11 @@ def find_list_blocks(ss_ref, n_plies, constraints):
     if constraints.sym:
         if n_plies % 2:
             ind_start = n_plies // 2 - 1
-            while ss_ref[ind_start] == ss_ref[n_plies // 2]:
+            while ind_start >= 0 \
+            and ss_ref[ind_start] == ss_ref[n_plies // 2]:
                 ind_start -= 1
+            if ind_start < 0: # no block apart from the one in the middle
+                return []
         else:
             ind_start = n_plies // 2 - 1
     else:
-- 
2.43.0


From 2321d199570f3387dc69953346b456bc18789267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:35 +0000
Subject: [PATCH 45/52] fix: multi-panel designs with different ply counts,
 repaired ones kept

---
 src/BELLA/optimiser_with_one_pdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index e8fd032..077768d 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -499,8 +499,6 @@ beam search with no solutions !
 # =============================================================================
 # select best result
 # =============================================================================
-    ss_bot_tab = np.copy(ss_final)
-
     if parameters.save_success_rate:
         to_keep = np.array([ind for ind in range(len(obj_constraints_tab))\
                             if obj_constraints_tab[ind] < 1e10])
@@ -519,6 +517,8 @@ beam search with no solutions !
 
         for ind in to_del[::-1]:
             lampam_tab = np.delete(lampam_tab, np.s_[ind], axis=0)
+            n_plies_per_angle_tab = np.delete(
+                n_plies_per_angle_tab, np.s_[ind], axis=0)
             obj_constraints_tab = np.delete(
                 obj_constraints_tab, np.s_[ind], axis=0)
             obj_no_constraints_tab = np.delete(
@@ -532,7 +532,7 @@ beam search with no solutions !
         return None
 
     index = np.argmin(obj_constraints_tab)
-    ss = ss_bot_tab[index]
+    ss = ss_final[index]
     lampam = lampam_tab[index]
     n_plies_per_angle = n_plies_per_angle_tab[index]
     obj_no_constraints = obj_no_constraints_tab[index]
-- 
2.43.0


From ab69634a65e679997f4f67569126362bc2e004c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:35 +0000
Subject: [PATCH 46/52] fix: stop the runs at a zero objective only

---
 src/BELLA/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index b8d152e..4958850 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -116,7 +116,7 @@ def BELLA_optimiser(
 
         ## === If the stacking sequence is good enough, exit the loop
         if results_one_pdl is not None:
-            if abs(results_one_pdl.obj_constraints).all() < 1e-10:
+            if np.all(abs(results_one_pdl.obj_constraints) < 1e-10):
                 print(f"""Low objective for the outer step {outer_step}.""")
                 break
 
-- 
2.43.0


From 52a6acd40b6eb5efd7e04e8ae6d836137cbf0cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:35 +0000
Subject: [PATCH 47/52] fix: best of the completed runs

---
 src/BELLA/optimiser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 4958850..b8e96c1 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -123,7 +123,9 @@ def BELLA_optimiser(
         outer_step += 1
 
     # To determine the best solution
-    ind_mini = np.argmin(results.obj_constraints_tab)
+    ind_mini = np.argmin(np.where(
+        np.isnan(results.obj_constraints_tab),
+        np.inf, results.obj_constraints_tab))
 
     results.ss = results.ss_tab[ind_mini]
     results.sst = results.ss_tab_tab[ind_mini]
-- 
2.43.0


From 84ef23d980f669386be56bcc25d68d3479663862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:35 +0000
Subject: [PATCH 48/52] fix: directions of added plies in thin-to-thick repair

---
 src/RELAY/thin_to_thick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 70ae860..d934a31 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -211,7 +211,7 @@ def repair_thin_to_thick(
                 # print('one_pd_index', one_pd_index)
 
                 ### branching for ply orientation of new ply
-                child_angle = np.copy(constraints.set_of_angles, int)
+                child_angle = np.array(constraints.set_of_angles, int)
 
                 ### pruning for balance
                 if constraints.bal:
-- 
2.43.0


From 8da82a92bd43e87b59b1d9a71890e92b6ee00c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:35 +0000
Subject: [PATCH 49/52] fix: initial ply-drop layouts when fewer exist than
 requested

---
 src/BELLA/pdl_ini.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 04b2139..36a6b03 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -194,6 +194,9 @@ Too many ply drops between two adjacent panels.""")
 
         # add the non-manufacturable ply drop layouts
         for ind in range(ind_perfect, parameters.n_ini_ply_drops):
+            if not ind_imperfect: # fewer layouts than requested
+                pdls_perfect[ind] = pdls_perfect[ind % ind_perfect]
+                continue
             indexx = np.argmin(p_pdls_imperfect)
             pdls_perfect[ind] = pdls_imperfect[indexx]
             p_pdls_imperfect[indexx] = 10e6
-- 
2.43.0


From 242c83dcf5e0d6d4ed03e80bef36808a9cc477ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:35 +0000
Subject: [PATCH 50/52] fix: order of the laminates in the tables of
 thick-to-thin repair

---
 src/RELAY/thick_to_thin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 78b66fb..b80b433 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -405,14 +405,14 @@ def repair_thick_to_thin(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
-                tab_child_penalty_diso.append(child_penalty_diso)
+                tab_child_penalty_diso.insert(0, child_penalty_diso)
                 # tab_child_penalty_contig.append(child_penalty_contig)
                 # tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
-- 
2.43.0


From 309c96598faf45292a62ad78e157c5fa031b5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:35 +0000
Subject: [PATCH 51/52] fix: order of the laminates in the tables of
 thin-to-thick repair

---
 src/RELAY/thin_to_thick.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index d934a31..3c0e7dc 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -458,14 +458,14 @@ def repair_thin_to_thick(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
 #                tab_child_penalty_diso.append(child_penalty_diso)
 #                tab_child_penalty_contig.append(child_penalty_contig)
 #                tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
-- 
2.43.0


From b257ac20730bde3af7d9d918ff1217bddc5fae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:35 +0000
Subject: [PATCH 52/52] fix: consistency checks of the blended designs

---
 src/BELLA/optimiser_with_one_pdl.py | 9 ++++++---
 src/RELAY/thick_to_thin.py          | 4 ++--
 src/RELAY/thin_to_thick.py          | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index 077768d..9e9e5a6 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -549,7 +549,7 @@ Wrong ply counts in the laminate.""")
     # test for the partial lamination parameters
     ss = list(ss)
     lampam_test = calc_lampam(ss, constraints)
-    if not abs(lampam - lampam_test).all() < 1e-13:
+    if not (abs(lampam - lampam_test) < 1e-13).all():
         print_lampam(lampam[0], lampam_test[0])
         print_ss(ss[0])
         raise Exception("""
@@ -563,7 +563,9 @@ Lamination parameters not matching the stacking sequences.""")
         mat=mat,
         obj_func_param=obj_func_param)
 
-    if abs(obj_no_constraints_test - obj_no_constraints > 1e-10).any():
+    # (the objectives of unsuccessful repairs are set to 1e10)
+    if obj_constraints < 1e10 and (
+            abs(obj_no_constraints_test - obj_no_constraints) > 1e-10).any():
         print('obj_no_constraints_test', obj_no_constraints_test)
         print('obj_no_constraints', obj_no_constraints)
         raise Exception("""
@@ -613,7 +615,8 @@ Objective function value not matching the stacking sequences.""")
         coeff_10=obj_func_param.coeff_10,
         coeff_bal_ipo=obj_func_param.coeff_bal_ipo)
 
-    if abs(obj_constraints_test - obj_constraints > 1e-10).any():
+    if obj_constraints < 1e10 \
+    and abs(obj_constraints_test - obj_constraints) > 1e-10:
         print('obj_constraints_test', obj_constraints_test)
         print('obj_constraints', obj_constraints)
         pass
diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index b80b433..22821b7 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -635,8 +635,8 @@ def repair_thick_to_thin(
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(
         reduced_ss[0: multipanel.reduced.ind_ref], constraints)
-    if not abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
-               - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
+                - reduced_lampam_test) < 1e-13).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 3c0e7dc..118dbed 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -664,7 +664,7 @@ def repair_thin_to_thick(
 
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(reduced_ss, constraints)
-    if not abs(reduced_lampam - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam - reduced_lampam_test) < 1e-13).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
-- 
2.43.0

