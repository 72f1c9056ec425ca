From 02b238d79cb6f9611acefc589f8863e334b0e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 01/98] fix: copy the set of fibre angles without passing a
 dtype as memory order

---
 src/RELAY/thin_to_thick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 70ae860..b6363bc 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -211,7 +211,7 @@ def repair_thin_to_thick(
                 # print('one_pd_index', one_pd_index)
 
                 ### branching for ply orientation of new ply
-                child_angle = np.copy(constraints.set_of_angles, int)
+                child_angle = np.copy(constraints.set_of_angles)
 
                 ### pruning for balance
                 if constraints.bal:
-- 
2.43.0


From cdfb51adb8e8377f79b193ed951f10cfcba66b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 02/98] fix: append to and resize existing workbooks with the
 pandas/openpyxl writer API

---
 src/divers/excel.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/divers/excel.py b/src/divers/excel.py
index e4419a0..89d85e3 100644
--- a/src/divers/excel.py
+++ b/src/divers/excel.py
@@ -28,14 +28,13 @@ def autofit_column_widths(filename):
     """
     autofits the column widths in an excel file
     """
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    writer.book = load_workbook(filename)
-    sheetnames = writer.book.sheetnames
+    book = load_workbook(filename)
+    sheetnames = book.sheetnames
 
 #    for worksheet in writer.book[sheetnames]: # NO !
 
     for ind_sheet in range(len(sheetnames)):
-        worksheet = writer.book[sheetnames[ind_sheet]]
+        worksheet = book[sheetnames[ind_sheet]]
 
         for col in worksheet.columns:
             max_length = 0
@@ -52,7 +51,7 @@ def autofit_column_widths(filename):
             adjusted_width = (max_length + 2)
             worksheet.column_dimensions[column].width = adjusted_width
 
-    writer.save()
+    book.save(filename)
     return 0
 
 
@@ -102,15 +101,10 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
     # ignore [engine] parameter if it was passed
     if 'engine' in to_excel_kwargs:
         to_excel_kwargs.pop('engine')
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    # Python 2.x: define [FileNotFoundError] exception if it doesn't exist
-    try:
-        FileNotFoundError
-    except NameError:
-        FileNotFoundError = IOError
-    try:
-        # try to open an existing workbook
-        writer.book = load_workbook(filename)
+    if os.path.exists(filename):
+        # open the existing workbook and keep its other sheets
+        writer = pd.ExcelWriter(filename, engine='openpyxl', mode='a',
+                                if_sheet_exists='overlay')
         # get the last row in the existing Excel sheet
         # if it was not specified explicitly
         if startrow is None and sheet_name in writer.book.sheetnames:
@@ -123,17 +117,16 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
             writer.book.remove(writer.book.worksheets[idx])
             # create an empty sheet [sheet_name] using old index
             writer.book.create_sheet(sheet_name, idx)
-        # copy existing sheets
-        writer.sheets = {ws.title:ws for ws in writer.book.worksheets}
-    except FileNotFoundError:
+    else:
         # file does not exist yet, we will create it
-        pass
+        writer = pd.ExcelWriter(filename, engine='openpyxl')
     if startrow is None:
         startrow = 0
     # write out the new sheet
-    dataf.to_excel(writer, sheet_name, startrow=startrow, **to_excel_kwargs)
+    dataf.to_excel(writer, sheet_name=sheet_name, startrow=startrow,
+                   **to_excel_kwargs)
     # save the workbook
-    writer.save()
+    writer.close()
 
 if __name__ == "__main__":
     print('When two pages are saved successively, the first page is lost')
-- 
2.43.0


From 7b6641eaf21daa7b4ede1e74d834dd2fa210a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 03/98] fix: report the stacking sequences and ply counts of
 the selected design

---
 src/BELLA/optimiser_with_one_pdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index e8fd032..077768d 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -499,8 +499,6 @@ beam search with no solutions !
 # =============================================================================
 # select best result
 # =============================================================================
-    ss_bot_tab = np.copy(ss_final)
-
     if parameters.save_success_rate:
         to_keep = np.array([ind for ind in range(len(obj_constraints_tab))\
                             if obj_constraints_tab[ind] < 1e10])
@@ -519,6 +517,8 @@ beam search with no solutions !
 
         for ind in to_del[::-1]:
             lampam_tab = np.delete(lampam_tab, np.s_[ind], axis=0)
+            n_plies_per_angle_tab = np.delete(
+                n_plies_per_angle_tab, np.s_[ind], axis=0)
             obj_constraints_tab = np.delete(
                 obj_constraints_tab, np.s_[ind], axis=0)
             obj_no_constraints_tab = np.delete(
@@ -532,7 +532,7 @@ beam search with no solutions !
         return None
 
     index = np.argmin(obj_constraints_tab)
-    ss = ss_bot_tab[index]
+    ss = ss_final[index]
     lampam = lampam_tab[index]
     n_plies_per_angle = n_plies_per_angle_tab[index]
     obj_no_constraints = obj_no_constraints_tab[index]
-- 
2.43.0


From db44078eeb06efafd3ef95efe295918e05119ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 04/98] fix: zero 10% penalties of a list of stacks when the
 rule has no percentages

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index bfe351f..5fcdef4 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -235,7 +235,7 @@ def calc_penalty_10_ss(ss, constraints, LPs=None, mp=False):
 
     if not mp:
         return 0
-    return np.zeros((ss.shape[0],))
+    return np.zeros((len(ss),))
 
 
 def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
-- 
2.43.0


From 92881047b42a04f2988d05f1f23fddd7a44c026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 05/98] fix: ignore ply-drop layouts without a design when
 selecting the best one

---
 src/BELLA/optimiser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index b8d152e..1fbf7fe 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -123,7 +123,10 @@ def BELLA_optimiser(
         outer_step += 1
 
     # To determine the best solution
-    ind_mini = np.argmin(results.obj_constraints_tab)
+    if np.isnan(results.obj_constraints_tab).all():
+        raise Exception("""
+No laminate design solution with any of the initial ply drop layouts""")
+    ind_mini = np.nanargmin(results.obj_constraints_tab)
 
     results.ss = results.ss_tab[ind_mini]
     results.sst = results.ss_tab_tab[ind_mini]
-- 
2.43.0


From bd75f4d173398df47208b2927fe9e0c32572b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 06/98] fix: import the helpers called by the membrane repair

---
 src/RELAY/repair_membrane_1_ipo.py    | 1 +
 src/RELAY/repair_membrane_1_no_ipo.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index aa88414..2bc48af 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -23,6 +23,7 @@ from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_membrane_1_no_ipo import calc_excess_10
 from src.RELAY.repair_10_bal import calc_ind_plies
 from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_1
 from src.guidelines.ten_percent_rule import is_ten_percent_rule
 
 def repair_membrane_1_ipo(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 8094363..3bcdfb5 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -22,6 +22,9 @@ from src.LAYLA_V02.constraints import Constraints
 from src.divers.pretty_print import print_ss
 from src.CLA.lampam_functions import calc_lampam
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import calc_ind_plies
+from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_3
 from src.RELAY.repair_tools import RepairError
 
 def repair_membrane_1_no_ipo(
-- 
2.43.0


From 278c1d8177c59f53fe599e83d59135f52b3e0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 07/98] fix: keep the in-plane lamination parameters of the
 initial stack unchanged

---
 src/RELAY/repair_membrane_1_ipo.py    | 2 +-
 src/RELAY/repair_membrane_1_no_ipo.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 2bc48af..15cd71b 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -79,7 +79,7 @@ def repair_membrane_1_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 3bcdfb5..a19db8f 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -68,7 +68,7 @@ def repair_membrane_1_no_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
-- 
2.43.0


From 6c3dd1d9cc9eec3b94be4fe90e00766972e60caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 08/98] fix: check the disorientation of all interfaces with
 damage tolerance rule 1

---
 src/guidelines/disorientation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/guidelines/disorientation.py b/src/guidelines/disorientation.py
index a2f0763..10a7944 100644
--- a/src/guidelines/disorientation.py
+++ b/src/guidelines/disorientation.py
@@ -84,14 +84,14 @@ def is_diso_ss(ss, delta_angle, dam_tol=False,
 
     The angles are considered in degrees.
     """
-    if dam_tol:
-        if (dam_tol_rule is not None and dam_tol_rule in {2, 3})\
-        or (n_plies_dam_tol is not None and n_plies_dam_tol == 2):
-            for ind_ply in range(ss.size - 3):
-                if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
-                    return False
-        if dam_tol_rule is None and n_plies_dam_tol is None:
-            raise Exception('Not enough input arugments!')
+    if dam_tol and dam_tol_rule is None and n_plies_dam_tol is None:
+        raise Exception('Not enough input arugments!')
+    if dam_tol and (
+            (dam_tol_rule is not None and dam_tol_rule in {2, 3})
+            or (n_plies_dam_tol is not None and n_plies_dam_tol == 2)):
+        for ind_ply in range(ss.size - 3):
+            if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
+                return False
     else:
         for ind_ply in range(ss.size - 1):
             if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
-- 
2.43.0


From 6eb59a1c19d77bec9b78de313ee6619c3f17e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 09/98] fix: count the middle ply in the 10% rule of partial
 symmetric stacks

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 5fcdef4..2ad9516 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -139,7 +139,7 @@ def is_ten_percent_rule(
             percent_135 = 2 * (
                 sum(stack[:stack.size // 2] == -45) + ply_queue.count(-45))
             if stack.size % 2:
-                mid_ply_angle = stack[stack.size % 2]
+                mid_ply_angle = stack[stack.size // 2]
                 if mid_ply_angle == 0:
                     percent_0 += 1
                 if mid_ply_angle == 90:
-- 
2.43.0


From 882d1c3ee77b97e45afff1c3ecb91d3d3173cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 10/98] fix: tolerate rounding in the 10% rule checked on ply
 counts

---
 src/guidelines/ten_percent_rule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 2ad9516..6abab6d 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -114,11 +114,11 @@ def is_ten_percent_rule(
             percent_45 = n_plies_per_angle[constraints.index45] / n_total
             percent_90 = n_plies_per_angle[constraints.index90] / n_total
             percent_135 = n_plies_per_angle[constraints.index135] / n_total
-            if percent_0 < constraints.percent_0 \
-            or percent_45 < constraints.percent_45 \
-            or percent_90 < constraints.percent_90 \
-            or percent_135 < constraints.percent_135 \
-            or percent_45 + percent_135 < constraints.percent_45_135:
+            if percent_0 + 1e-15 < constraints.percent_0 \
+            or percent_45 + 1e-15 < constraints.percent_45 \
+            or percent_90 + 1e-15 < constraints.percent_90 \
+            or percent_135 + 1e-15 < constraints.percent_135 \
+            or percent_45 + percent_135 + 1e-15 < constraints.percent_45_135:
                 return False
         return True
 
-- 
2.43.0


From 6eb704a649e94559cbfc9d4a1c73e44c06ef27e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 11/98] fix: no 10% penalty for a laminate without plies

---
 src/guidelines/ten_percent_rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 6abab6d..b844ca4 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -259,6 +259,7 @@ def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
                     + max(0, constraints.percent_135 - percent_135)
                     + max(0, constraints.percent_45_135 \
                           - percent_45 - percent_135))
+            return 0
 
         penalties = np.zeros((n_plies_per_angle.shape[0],))
         for ind_ss in range(n_plies_per_angle.shape[0]):
-- 
2.43.0


From c8ccf1071029094549fead6e8f255db8c80df3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 12/98] fix: import numpy.matlib where it is used

---
 src/guidelines/ten_percent_rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index b844ca4..e1dc597 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -24,6 +24,7 @@ __author__ = 'Noemie Fedon'
 
 import sys
 import numpy as np
+import numpy.matlib
 import math
 
 sys.path.append(r'C:\BELLA')
-- 
2.43.0


From 4cc11c9fb7e86ca74e4a88e94bc60bded41a7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 13/98] fix: distance to the lamination-parameter region of the
 10% rule

---
 src/guidelines/ten_percent_rule_Abdalla.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/guidelines/ten_percent_rule_Abdalla.py b/src/guidelines/ten_percent_rule_Abdalla.py
index 2ebb91b..acc4b04 100644
--- a/src/guidelines/ten_percent_rule_Abdalla.py
+++ b/src/guidelines/ten_percent_rule_Abdalla.py
@@ -73,11 +73,11 @@ def calc_distance_Abdalla(LPs, constraints, num=10000):
         and 1 - 4 * constraints.percent_Abdalla - LPs[1] + 1e-15 > 0:
             return 0
 
-        LP1_max = math.sqrt(1 - 4 * constraints.percent_Abdalla)
+        LP1_max = 1 - 4 * constraints.percent_Abdalla
         LP1_min = - LP1_max
 
         def point_parabola_Abdalla(LP1, constraints):
-            LP2 = 2 * (LP1 / (1 - 4 * constraints.percent_Abdalla)) **2 \
+            LP2 = 2 * LP1 **2 / (1 - 4 * constraints.percent_Abdalla) \
             - (1 - 4 * constraints.percent_Abdalla)
             return np.array([LP1, LP2])
 
-- 
2.43.0


From 35464aff8d035be8c0072d12d3040db58fd7c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 14/98] fix: filter the second set of candidates along with the
 first one

---
 src/guidelines/external_contig.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/guidelines/external_contig.py b/src/guidelines/external_contig.py
index b6ba1aa..1ed53e1 100644
--- a/src/guidelines/external_contig.py
+++ b/src/guidelines/external_contig.py
@@ -389,6 +389,7 @@ sublaminate
                             if  angle[ii, 0] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 3:
@@ -401,6 +402,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -414,6 +416,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -428,6 +431,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1]\
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -443,6 +447,7 @@ sublaminate
                             and angle[ii, 4] == ss_before[-1] \
                             and angle[ii, 5] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -458,6 +463,7 @@ sublaminate
                         if  angle[ii, 0] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-2]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 3:
@@ -470,6 +476,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -483,6 +490,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
 
@@ -498,6 +506,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -513,6 +522,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1] \
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -532,6 +542,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 4:
@@ -545,6 +556,7 @@ sublaminate
                             and ss_before[-3] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -559,6 +571,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -574,6 +587,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1]  \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -597,6 +611,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 5:
@@ -611,6 +626,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -626,6 +642,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
                 else:
                     raise Exception(
@@ -652,6 +669,7 @@ sublaminate
                         and ss_before[-2] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 6:
@@ -667,6 +685,7 @@ sublaminate
                             and angle[ii, 0] == ss_before[-5] \
                             and angle[ii, 1] == ss_before[-5]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -698,6 +717,7 @@ sublaminate
                         and angle[ii, 0] == ss_before[-5]  \
                         and ss_before[-6] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 else:
-- 
2.43.0


From 6f75c59dfe4c5ad64cf5577de80e52d2344e0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 15/98] fix: boundary weightings given with the panel IDs in
 any order

---
 src/BELLA/multipanels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/multipanels.py b/src/BELLA/multipanels.py
index 0ba76b4..9c7a32d 100644
--- a/src/BELLA/multipanels.py
+++ b/src/BELLA/multipanels.py
@@ -193,9 +193,9 @@ The panels of the multipanel-component are not all connected!""")
                     if not weight:
                         raise Exception('Missing boundary weightings.')
                     self.boundary_weights_in_IDs[
-                        (ind_panel2, ind_panel1)] = weight
+                        (ind_panel1, ind_panel2)] = weight
                     self.boundary_weights[
-                        (ind_panel2_mod, ind_panel1_mod)] = weight
+                        (ind_panel1_mod, ind_panel2_mod)] = weight
 
         else:  # all boundary weightings set to one
             for ind_panel1, ind_panel2 in self.boundaries_in_IDs:
-- 
2.43.0


From 7f01056ae2c2c1f173445231a17905f5b656c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 16/98] fix: check all the covering plies of a stacking
 sequence table

---
 src/guidelines/one_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index 789876a..e207b09 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -81,7 +81,9 @@ def check_ply_drop_rules(reduced_sst, multipanel, constraints, reduced=True):
     reduced = True if the function is applied to the blending strip
     """
     if constraints.covering:
-        if (reduced_sst[:, 0] == -1).any() or (reduced_sst[:, -1] == -1).any():
+        n_covering = constraints.n_covering
+        if (reduced_sst[:, :n_covering] == -1).any() \
+        or (reduced_sst[:, -n_covering:] == -1).any():
             raise Exception("Covering constraint not satisfied")
 
     if  constraints.pdl_spacing:
-- 
2.43.0


From 8025793cb59694e7bf57ff6e1c19f86b8654d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 17/98] fix: reject non-positive transverse and shear moduli
 (BELLA)

---
 src/BELLA/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index a467770..cbb514d 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
-- 
2.43.0


From c3f50924a5f63ed684d4de4ef0010fee4f7f754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 18/98] fix: derive the default volume density from the default
 area density (BELLA)

---
 src/BELLA/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index cbb514d..c7f426a 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
-- 
2.43.0


From a4d2d6903cbd9ad1db7ec7faf2fab3a53efd7da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 19/98] fix: reject non-positive transverse and shear moduli
 (LAYLA_V02)

---
 src/LAYLA_V02/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index a467770..cbb514d 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
-- 
2.43.0


From 7b0520073ad708de0c14af5bb4f39de84f77754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 20/98] fix: derive the default volume density from the default
 area density (LAYLA_V02)

---
 src/LAYLA_V02/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index cbb514d..c7f426a 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
-- 
2.43.0


From 714f924aacc0c25ad9008a222088da378b1a3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 21/98] fix: accept sets of fibre orientations without angled
 plies (BELLA)

---
 src/BELLA/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 1059678..1951451 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -339,7 +339,7 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
             elem,
             self.ind_angles_dict[elem],
             self.ind_angles_dict[-elem]
-            ] for elem in angles_bal])
+            ] for elem in angles_bal], int).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From bde63bedb5e8429126d7bda5e009dd8b96e69920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 22/98] fix: accept sets of fibre orientations without angled
 plies (LAYLA_V02)

---
 src/LAYLA_V02/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index 164c95a..d76c2e3 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -267,7 +267,8 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
         self.angles_bal = np.array([[
             elem,
             self.ind_angles_dict[elem],
-            self.ind_angles_dict[-elem]] for elem in angles_bal])
+            self.ind_angles_dict[-elem]] for elem in angles_bal],
+                                   int).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From a195b42a2cadd8807b1cd4de335de252ee5fd8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 23/98] fix: validate the lamination-parameter weightings of a
 panel

---
 src/BELLA/panels.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index d490fd7..d2a9dce 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -105,9 +105,8 @@ The panel weighting in the multi-panel objective function must be positive!
 """)
 
         # lamination-parameter weightings in panel objective function
-        if not(isinstance(lampam_weightings, np.ndarray)) \
-        and lampam_weightings.size == 12 \
-        and lampam_weightings.dtype == float:
+        if not(isinstance(lampam_weightings, np.ndarray) \
+               and lampam_weightings.size == 12):
             raise PanelDefinitionError("""
 Attention, lampam_weightings must be a vector with 12 float components!
 """)
-- 
2.43.0


From c34076056a24c0ddd25a302ed2ffd49972f01779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 24/98] fix: keep fractional weightings for panels given
 integer weightings

---
 src/BELLA/panels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index d2a9dce..cda4e97 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -147,7 +147,7 @@ Attention, the elements of lampam_weightings must be positive!
         lampam_weightings: for all other blending steps (contain penalty for
             out-of-plane orthotropy and does not contain penalty for balance)
         """
-        lampam_weightings = np.copy(self.lampam_weightings_ini)
+        lampam_weightings = np.array(self.lampam_weightings_ini, float)
 
         # filter for zero lamination parameters factors
         if constraints.sym:
-- 
2.43.0


From 2b7d07c1db87b979a06f0a774e15fde6f09dc00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 25/98] fix: validate the lamination-parameter weightings of
 LAYLA

---
 src/LAYLA_V02/parameters.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index 93d4f32..f534024 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -248,9 +248,8 @@ Attention, local_node_limit_final must be strictly positive!""")
 
 
         # Lamination parameters sensitivities from the first-lebel optimiser
-        if not(isinstance(first_level_sensitivities, np.ndarray)) \
-        and first_level_sensitivities.size == 12 \
-        and first_level_sensitivities.dtype == float:
+        if not(isinstance(first_level_sensitivities, np.ndarray) \
+               and first_level_sensitivities.size == 12):
             raise ParametersDefinitionError("""
 Attention, first_level_sensitivities must be a vector with 12 float components!
 """)
@@ -262,9 +261,8 @@ Attention, the elements of first_level_sensitivities must be positive!
 
         # Lamination parameters to be considered in the multi-objective
         # functions
-        if not(isinstance(lampam_to_be_optimised, np.ndarray)) \
-        and lampam_to_be_optimised.size == 12 \
-        and lampam_to_be_optimised.dtype == float:
+        if not(isinstance(lampam_to_be_optimised, np.ndarray) \
+               and lampam_to_be_optimised.size == 12):
             raise ParametersDefinitionError("""
 Attention, lampam_to_be_optimised must be a vector with 12 float components!
 """)
-- 
2.43.0


From 27ac15ad376c3988cb0aa3715adb3aa6b108a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 26/98] fix: aggregate the weightings of all the panels in the
 blending strip

---
 src/BELLA/reduced_multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/reduced_multipanels.py b/src/BELLA/reduced_multipanels.py
index c5dfcf1..40b5d17 100644
--- a/src/BELLA/reduced_multipanels.py
+++ b/src/BELLA/reduced_multipanels.py
@@ -158,7 +158,7 @@ The panel ply counts are not compatible with guide-based blending (middle ply)""
         parameters are aggregated
         """
         self.actual_panel_weightings = np.zeros((self.n_panels,))
-        for ind_panel, panel in enumerate(self.panels):
+        for ind_panel, panel in enumerate(multipanel.panels):
             self.actual_panel_weightings[
                 self.ind_panels_guide[ind_panel]] += panel.weighting
 
-- 
2.43.0


From 1957a0b99de5b1441f18f4104c6ca59979a51dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 27/98] fix: keep the out-of-plane weighting when only in-plane
 orthotropy is penalised (LAYLA_V02)

---
 src/LAYLA_V02/parameters.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index f534024..68a504d 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -342,7 +342,6 @@ Attention, the elements of lampam_to_be_optimised must be either 0 or 1!
         elif constraints.ipo and self.penalty_ipo_switch:
             if set(constraints.set_of_angles) == set([0, 45, -45, 90]):
                 sensitivities[2] = s*coeff_bal_ipo
-                sensitivities[10] = s*coeff_oopo
             else:
                 sensitivities[2] = s*coeff_bal_ipo
                 sensitivities[3] = s*coeff_bal_ipo
-- 
2.43.0


From d5f50d3fd8883e9236516c63bd7e4a1ffa359f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 28/98] fix: place the middle ply in the ply-drop layouts of
 symmetric panels with odd ply counts

---
 src/BELLA/pdl_group.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index d7f2f94..fe8029e 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -167,19 +167,17 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
-        if last_group and has_middle_ply:
-            middle = -(middle_ply_indices[:-1] != 0).astype(int)
-#            print('middle', middle)
-            middle = middle.reshape((new_pdl.shape[0], 1))
-#            print('middle', middle)
-            new_pdl = np.hstack((new_pdl, middle))
-
-
         # Formatting the ply drop layout so that a ply drop scheme is
         # associated to each panel boundary
         new_pdl = ply_drops_at_each_boundaries(
             new_pdl, n_ply_drops_unique, indices_unique, n_ply_drops)
         # <class 'numpy.ndarray'>
+
+        # middle ply, for the panels which have one
+        if last_group and has_middle_ply:
+            middle = np.where(middle_ply_indices == 0, -1, n_max)
+            new_pdl = np.hstack((new_pdl, middle.reshape((-1, 1))))
+
 #        print('new_pdl')
 #        print(new_pdl)
 
-- 
2.43.0


From f983cdf0d7c2668b6a29c93bd0406351bfd06017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 29/98] fix: return the layouts found when fewer initial
 ply-drop layouts than asked exist

---
 src/BELLA/optimiser.py | 4 ++--
 src/BELLA/pdl_ini.py   | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 1fbf7fe..0a9eb76 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -72,10 +72,10 @@ def BELLA_optimiser(
     else:
         # read initial ply-drop layouts
         pdls_ini = read_pdls_excel(filename_initial_pdls)
-        # number of initial ply drops to be tested
-        parameters.n_ini_ply_drops = len(pdls_ini)
         # check the correct number of plies and panels in the ply drop layouts
         check_pdls_ini(multipanel, pdls_ini)
+    # number of initial ply drops to be tested
+    parameters.n_ini_ply_drops = len(pdls_ini)
 
     ### preparation of the step 3 of BELLA
 
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index a4b7142..b5b1c92 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -193,18 +193,21 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
 No conform ply drop layout can be generated.
 Too many ply drops between two adjacent panels.""")
 
+        # number of different layouts found
+        n_pdls = min(parameters.n_ini_ply_drops, ind_perfect + ind_imperfect)
+
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, parameters.n_ini_ply_drops):
+        for ind in range(ind_perfect, n_pdls):
             indexx = np.argmin(p_pdls_imperfect)
             pdls_perfect[ind] = pdls_imperfect[indexx]
             p_pdls_imperfect[indexx] = 10e6
 
         print('    ' + str(ind_perfect) \
           + ' feasible intial ply-drop layouts generated.')
-        print('    ' + str(parameters.n_ini_ply_drops - ind_perfect) \
+        print('    ' + str(n_pdls - ind_perfect) \
           + ' infeasible intial ply-drop layouts generated.')
 
-        return pdls_perfect
+        return pdls_perfect[:n_pdls]
 
     # if enough manufacturable ply drop layouts have been found
     print('    ' + str(parameters.n_ini_ply_drops) \
-- 
2.43.0


From 7a2a5fc0cfa08c406648a63eac16f7272217be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 30/98] fix: keep the initial ply-drop layouts with the
 smallest spacing penalties

---
 src/BELLA/pdl_group.py | 2 +-
 src/BELLA/pdl_ini.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index fe8029e..86f556a 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -248,7 +248,7 @@ def randomly_pdl_guide(
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_spacing_imperfect)
+                    indexx = np.argmax(p_spacing_imperfect)
                     pdl_imperfect[indexx] = new_pdl
                     p_spacing_imperfect[indexx] = p_spacing
             else:
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index b5b1c92..c7d0d89 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -160,7 +160,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_pdls_imperfect)
+                    indexx = np.argmax(p_pdls_imperfect)
                     pdls_imperfect[indexx] = new_pdl
                     p_pdls_imperfect[indexx] = new_penalty_spacing
             else:
-- 
2.43.0


From 6f4aead6912d3726bbf2d122152a3c404ca7b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 31/98] fix: keep the ply drops of a panel in the panels that
 are thinner

---
 src/BELLA/divide_panels.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index 38a4807..6b657cc 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -249,7 +249,8 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
     #===================
     # Division of other panels into groups of plies
     #===================
-    for ind_panel, panel in enumerate(multipanel.reduced.panels):
+    # from the thickest to the thinnest panels
+    for panel in reversed(list(multipanel.reduced.panels)):
         # ----- if panel is one of the thickest panels ----- #
         if panel.n_plies == multipanel.n_plies_max:
             #--------------------------
@@ -266,6 +267,7 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
             # to the groups thickest of the thickest laminate
             #--------------------------
             panel.n_ply_drops = np.zeros((multipanel.reduced.n_groups,))
+            n_ply_drops_thicker = panel.n_ply_drops
         else: # ----- if panel is not one of the thickest panels ----- #
             #--------------------------
             # Distribution of the ply drops in the groups of the panel
@@ -316,6 +318,17 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
                         if missing == 0:
                             break
                 iteration += 1
+            # at least as many ply drops in each group as in the panels that
+            # are thicker, so that the plies of a panel continue in these panels
+            surplus = np.maximum(n_ply_drops_thicker - n_ply_drops, 0).sum()
+            n_ply_drops = np.maximum(n_ply_drops, n_ply_drops_thicker)
+            while surplus > 0:
+                index_group = np.argmax(np.where(
+                    n_ply_drops > n_ply_drops_thicker,
+                    n_ply_drops - n_drops*percent_thickness, -np.inf))
+                n_ply_drops[index_group] -= 1
+                surplus -= 1
+            n_ply_drops_thicker = n_ply_drops
             # Here, panel.n_ply_drops = chosen combination of ply drops
             panel.n_ply_drops = n_ply_drops
             #--------------------------
-- 
2.43.0


From b2cc1064afe6d88f9f8aa547e7e7524d270f01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 32/98] fix: compare the last ply with all the plies within
 reach of the contiguity limit

---
 src/BELLA/pruning.py     |  9 +++------
 src/LAYLA_V02/pruning.py | 18 ++++--------------
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index b55f88d..5d821df 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -178,8 +178,7 @@ def pruning_diso_contig_damtol(
 
             # symmetric laminate with no middle ply
             if constraints.sym and not has_middle_ply:
-                ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                ss_before = mother_ss_bot[-constraints.n_contig:]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -191,8 +190,7 @@ def pruning_diso_contig_damtol(
 
             # symmetric laminate with middle ply
             elif constraints.sym and has_middle_ply:
-                ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                ss_before = mother_ss_bot[-constraints.n_contig:]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -202,8 +200,7 @@ def pruning_diso_contig_damtol(
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
             else: # not symmetric
-                ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                ss_before = mother_ss_bot[-constraints.n_contig:]
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index f2faa78..e50f95c 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -205,13 +205,8 @@ def pruning_diso_contig_damtol(
         elif constraints.sym \
         and level == targets.n_plies // 2 + targets.n_plies % 2 - 1:
 
-            ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
-            if ss_before.size < constraints.n_contig:
-                ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
-                    ss_before))
+            ss_before = np.hstack((
+                ss_bot_simp, mother_ss_bot))[-constraints.n_contig:]
 
             if targets.n_plies % 2 == 0: # no middle ply
 
@@ -236,13 +231,8 @@ def pruning_diso_contig_damtol(
         # plies at the laminate bottom part and not last ply
         elif not constraints.sym and level == targets.n_plies - 1:
 
-            ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
-            if ss_before.size < constraints.n_contig:
-                ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
-                    ss_before))
+            ss_before = np.hstack((
+                ss_bot_simp, mother_ss_bot))[-constraints.n_contig:]
 
             ss_after = mother_ss_top[:constraints.n_contig]
             if ss_after.size < constraints.n_contig:
-- 
2.43.0


From f86a06686e8614a8271a08e4e62dd8088574d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 33/98] fix: keep the attributes of the branches in the order
 of the branches during thick-to-thin and thin-to-thick repair

---
 src/RELAY/thick_to_thin.py | 10 +++++-----
 src/RELAY/thin_to_thick.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 78b66fb..b80b433 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -405,14 +405,14 @@ def repair_thick_to_thin(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
-                tab_child_penalty_diso.append(child_penalty_diso)
+                tab_child_penalty_diso.insert(0, child_penalty_diso)
                 # tab_child_penalty_contig.append(child_penalty_contig)
                 # tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index b6363bc..b6ecc8c 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -458,14 +458,14 @@ def repair_thin_to_thick(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
 #                tab_child_penalty_diso.append(child_penalty_diso)
 #                tab_child_penalty_contig.append(child_penalty_contig)
 #                tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
-- 
2.43.0


From 6ec5317ae475b61ac056ead97b90becd162a4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 34/98] fix: penalise the disorientation violations during
 thick-to-thin repair

---
 src/RELAY/thick_to_thin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index b80b433..f08f73d 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -321,7 +321,7 @@ def repair_thick_to_thin(
                 ### calculation of penalties for the disorientation constraint
                 if constraints.diso:
                     penalty_diso = calc_n_penalty_diso_ss(
-                        child_ss, constraints)
+                        child_ss, constraints) / child_ss.size
                 else:
                     penalty_diso = 0
                 child_penalty_diso = deepcopy(mother_penalty_diso)
@@ -396,6 +396,7 @@ def repair_thick_to_thin(
                     objective=child_obj_no_constraints,
                     actual_panel_weightings=multipanel.reduced.actual_panel_weightings,
                     penalty_diso=child_penalty_diso,
+                    coeff_diso=obj_func_param.coeff_diso,
                     penalty_contig=None,
                     penalty_oopo=None,
                     penalty_10=None,
-- 
2.43.0


From a42153b52d2ef5fabf61b16ea5a986d9b4aa582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 35/98] fix: apply the branching limits of blending step 4.3 to
 the thin-to-thick repair

---
 src/RELAY/thin_to_thick.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index b6ecc8c..0d69135 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -305,9 +305,9 @@ def repair_thin_to_thick(
             indices_to_keep = []
             tab_penalty_spacing_for_pruning = np.copy(tab_penalty_spacing)
             if len(tab_penalty_spacing_for_pruning) \
-            > parameters.local_node_limit2:
+            > parameters.local_node_limit3:
 
-                while len(indices_to_keep) < parameters.local_node_limit2:
+                while len(indices_to_keep) < parameters.local_node_limit3:
 
                     min_value = min(tab_penalty_spacing_for_pruning)
                     indices_to_add = np.where(
@@ -476,9 +476,9 @@ def repair_thin_to_thick(
             = np.copy(tab_child_obj_constraints)
             if ind_step != n_steps - 1 \
             and len(tab_child_obj_constraints_for_pruning) \
-            > parameters.local_node_limit2:
+            > parameters.local_node_limit3:
 
-                while len(indices_to_keep) < parameters.local_node_limit2:
+                while len(indices_to_keep) < parameters.local_node_limit3:
                     
                     min_value = min(tab_child_obj_constraints_for_pruning)
                     index_to_add = np.where(
@@ -564,9 +564,9 @@ def repair_thin_to_thick(
         penalty_spacing_tab_for_pruning = np.copy(penalty_spacing_tab)
         if ind_step != n_steps - 1 \
         and len(penalty_spacing_tab_for_pruning) \
-        > parameters.global_node_limit2:
+        > parameters.global_node_limit3:
 
-            while len(indices_to_keep) < parameters.global_node_limit2:
+            while len(indices_to_keep) < parameters.global_node_limit3:
 
                 min_value = min(penalty_spacing_tab_for_pruning)
                 indices_to_add = np.where(
@@ -607,9 +607,9 @@ def repair_thin_to_thick(
 
         if ind_step != n_steps - 1 \
         and len(tab_child_obj_constraints_for_pruning) \
-        > parameters.global_node_limit2:
+        > parameters.global_node_limit3:
 
-            while len(indices_to_keep) < parameters.global_node_limit2:
+            while len(indices_to_keep) < parameters.global_node_limit3:
 
                 min_value = min(tab_child_obj_constraints_for_pruning)
                 index_to_add = np.where(
-- 
2.43.0


From afe96778a01f24b6696bfd5b263af8a738466159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 36/98] fix: end the repair for the 10% rule of Abdalla when no
 modification is left to investigate

---
 src/RELAY/repair_10_bal.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 90b1f7a..632fa7e 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -83,6 +83,7 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 
 
+    states = []
     while dist_10 > 1e-10:
 #        print('dist_10', dist_10)
 #        print('dist_10_options', dist_10_options)
@@ -90,6 +91,8 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         # attempts at modifying a couple of angled plies
         ind_pos_angle1, ind_pos_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
+        if dist_10_options[ind_pos_angle1, ind_pos_angle2] > 1e9:
+            break # no ply left to modify
         angle1 = constraints.pos_angles[ind_pos_angle1]
         angle2 = constraints.pos_angles[ind_pos_angle2]
 #        print('angle1', angle1, 'angle2', angle2)
@@ -120,6 +123,9 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
 #        print('indices_per_angle[ind_angle1]', indices_per_angle[ind_angle1])
 #        print('indices_per_angle[ind_angle2]', indices_per_angle[ind_angle2])
 
+        if tuple(np.around(lampamA, 10)) in states:
+            break # laminate already investigated
+        states.append(tuple(np.around(lampamA, 10)))
         lampamA += lampamA_options[ind_pos_angle2] - lampamA_options[
             ind_pos_angle1]
         dist_10 = dist_10_options[ind_pos_angle1, ind_pos_angle2]
@@ -267,10 +273,13 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 #    print('dist_10_options', dist_10_options)
 
+    states = []
     while dist_10 > 1e-10:
         # attempts at modifying a couple of angled plies
         ind_angle1, ind_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
+        if dist_10_options[ind_angle1, ind_angle2] > 1e9:
+            break # no ply left to modify
         angle1 = constraints.set_of_angles[ind_angle1]
         angle2 = constraints.set_of_angles[ind_angle2]
 #        print('test  angle1', angle1, 'to angle2', angle2)
@@ -287,6 +296,9 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
 #        print('indices_per_angle[ind_angle1]', indices_per_angle[ind_angle1])
 #        print('indices_per_angle[ind_angle2]', indices_per_angle[ind_angle2])
 
+        if tuple(np.around(lampamA, 10)) in states:
+            break # laminate already investigated
+        states.append(tuple(np.around(lampamA, 10)))
         lampamA += lampamA_options[ind_angle2] - lampamA_options[ind_angle1]
         dist_10 = dist_10_options[ind_angle1, ind_angle2]
 
-- 
2.43.0


From 705d080235cd0460bc323697ce744a5dd39bd03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 37/98] fix: preserve the minimum of +45 and -45 plies
 altogether during the refinement of unbalanced laminates

---
 src/RELAY/repair_membrane_1_no_ipo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index a19db8f..6a90827 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -102,6 +102,10 @@ def repair_membrane_1_no_ipo(
             continue
 
         # attention to not break the 10% rule
+        if angle1 in (45, -45) and angle2 not in (45, -45) \
+        and excess_10[4] < 1:
+            objA_options[ind_angle1, ind_angle2] = 1e10
+            continue
         if angle1 == 0:
             if excess_10[0] < 1:
                 objA_options[ind_angle1, ind_angle2] = 1e10
@@ -122,6 +126,8 @@ def repair_membrane_1_no_ipo(
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[3] -= 1
+        if angle1 in (45, -45):
+            excess_10[4] -= 1
 
 #        print(angle1, ' plies changed into ', angle2, 'plies')
 #        print('ind_angle1', ind_angle1, 'ind_angle2', ind_angle2)
@@ -136,6 +142,8 @@ def repair_membrane_1_no_ipo(
             excess_10[2] += 1
         elif angle2 == -45:
             excess_10[3] += 1
+        if angle2 in (45, -45):
+            excess_10[4] += 1
 
         lampamA += lampamA_options[ind_angle2] - lampamA_options[ind_angle1]
         objA = objA_options[ind_angle1, ind_angle2]
-- 
2.43.0


From 2f9f5ea17875900a715dd3dc7832ce818bcbf9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 38/98] fix: discard the couples of plies forbidden by the 10%
 rule of Abdalla from the right table entry

---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 9f07780..6b87e69 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -63,7 +63,7 @@ def repair_membrane_1_ipo_Abdalla(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     indices_1, indices_per_angle = calc_ind_plies(
@@ -113,7 +113,7 @@ def repair_membrane_1_ipo_Abdalla(
         LPs = lampamA + lampamA_options[ind_pos_angle2] - lampamA_options[
             ind_pos_angle1]
         if calc_distance_Abdalla(LPs, constraints) > 1e-10:
-            objA_options[ind_angle1, ind_angle2] = 1e10
+            objA_options[ind_pos_angle1, ind_pos_angle2] = 1e10
             continue
 
 #        print('objA_options after clean', objA_options)
-- 
2.43.0


From bd5d187fc03cae448f1207e447d45d8a3856e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 39/98] fix: check the innermost plies permuted during repair
 against all the plies within reach of the rules

---
 src/RELAY/repair_from_inside_asym.py  | 40 ++++++++++-----------------
 src/RELAY/repair_from_inside_sym.py   |  7 ++---
 src/RELAY/repair_from_outside_asym.py | 22 +++------------
 src/RELAY/repair_from_outside_sym.py  | 26 ++++-------------
 4 files changed, 26 insertions(+), 69 deletions(-)

diff --git a/src/RELAY/repair_from_inside_asym.py b/src/RELAY/repair_from_inside_asym.py
index 4aaff64..4614f45 100644
--- a/src/RELAY/repair_from_inside_asym.py
+++ b/src/RELAY/repair_from_inside_asym.py
@@ -175,37 +175,25 @@ def repair_diso_contig_from_inside_asym(
         range(real_n_D1)):
 #        print('elem', elem)
         ss_group = remaining_plies[np.array(elem, int)]
-        if constraints.dam_tol:
-            stack_test = np.hstack((
-                stack_top[-1],
-                ss_group[:real_n_D1//2],
-                stack,
-                ss_group[real_n_D1//2:],
-                stack_bottom[0]))
-        else:
-            stack_test = np.hstack((
-                ss_group[:real_n_D1//2],
-                stack,
-                ss_group[real_n_D1//2:]))
+        stack_test = np.hstack((
+            stack_top[-1:],
+            ss_group[:real_n_D1//2],
+            stack,
+            ss_group[real_n_D1//2:],
+            stack_bottom[:1]))
 #        print('stack_test', stack_test)
-        stack_test_1 = stack_test[
-            :3 + real_n_D1 + constraints.n_contig]
         if constraints.diso and not is_diso_ss(
-                stack_test_1, constraints.delta_angle, dam_tol=False):
+                stack_test, constraints.delta_angle, dam_tol=False):
             continue
+        stack_test = np.hstack((
+            stack_top,
+            ss_group[:real_n_D1//2],
+            stack,
+            ss_group[real_n_D1//2:],
+            stack_bottom))
         if constraints.contig and not is_contig(
-                stack_test_1, constraints.n_contig_c):
+                stack_test, constraints.n_contig_c):
             continue
-        number = stack_test.size - 4 - real_n_D1 \
-        - constraints.n_contig
-        if number > 0:
-            stack_test_2 = stack_test[number:]
-            if constraints.diso and not is_diso_ss(
-                    stack_test_2, constraints.delta_angle, dam_tol=False):
-                continue
-            if constraints.contig and not is_contig(
-                    stack_test_2, constraints.n_contig_c):
-                continue
         good_permut.append(np.array(elem, int))
 #    print('good_permut', good_permut)
 
diff --git a/src/RELAY/repair_from_inside_sym.py b/src/RELAY/repair_from_inside_sym.py
index ee50bc0..f918cbe 100644
--- a/src/RELAY/repair_from_inside_sym.py
+++ b/src/RELAY/repair_from_inside_sym.py
@@ -126,10 +126,7 @@ def repair_diso_contig_from_inside_sym(
     for elem in itertools.permutations(
         range(real_n_D1)):
         ss_group = remaining_plies[np.array(elem, int)]
-        if constraints.dam_tol:
-            stack_test = np.hstack((stack_dam_tol[-1], ss_group))
-        else:
-            stack_test = ss_group
+        stack_test = np.hstack((stack_dam_tol[-1:], ss_group))
         stack_test = np.hstack((stack_test, stack, np.flip(stack_test)))
         stack_test = stack_test[:2 + 2 * constraints.n_contig \
                                 + real_n_D1]
@@ -137,6 +134,8 @@ def repair_diso_contig_from_inside_sym(
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
+        stack_test = np.hstack((stack_dam_tol, ss_group))
+        stack_test = np.hstack((stack_test, stack, np.flip(stack_test)))
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
             continue
diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index eb35f68..4079eac 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -170,33 +170,19 @@ def repair_diso_contig_from_outside_asym(
 #    print('remaining_plies', remaining_plies)
 
 
-    if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule') \
-        and constraints.dam_tol_rule in {2, 3}:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
-        constraints.n_plies_dam_tol == 2:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        else:
-            mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size, real_n_D1 + 1)
-    else:
-        mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-        mini_top = min(stack_bottom.size, real_n_D1 + 1)
-
     ind_2 = np.sort(ind_2)
     for elem in itertools.permutations(
         range(real_n_D1)):
 #        print('elem', elem)
         ss_group = remaining_plies[np.array(elem, int)]
-        stack_test = np.hstack((
-            stack_top[mini_bottom:], ss_group, stack_bottom[:mini_top]))
+        stack_test = np.hstack((stack_top[-1:], ss_group, stack_bottom[:1]))
 #        print('stack_test', stack_test)
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
+        stack_test = np.hstack((
+            stack_top[-constraints.n_contig:], ss_group,
+            stack_bottom[:constraints.n_contig]))
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
             continue
diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index 394d164..d48a886 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -156,34 +156,18 @@ def repair_diso_contig_from_outside_sym(
             remaining_plies[counter] = ply_queue.pop(0)
 #    print('remaining_plies', remaining_plies)
 
-    if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule') \
-        and constraints.dam_tol_rule in {2, 3}:
-            mini = max(1, stack.size - real_n_D1 - 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
-        constraints.n_plies_dam_tol == 2:
-            mini = max(1, stack.size - real_n_D1 - 1)
-        else:
-            mini = max(0, stack.size - real_n_D1 - 1)
-    else:
-        mini = max(0, stack.size - real_n_D1 - 1)
-
     for elem in itertools.permutations(
         range(real_n_D1)):
         ss_group = remaining_plies[np.array(elem, int)]
 
-        stack_test = np.hstack((stack[mini:], ss_group))
-        if ss.size % 2:
-            stack_test = np.hstack((
-                stack_test, ss[ss.size // 2],
-                np.flip(stack_test[-real_n_D1:])))
-        else:
-            stack_test = np.hstack((
-                stack_test,
-                np.flip(stack_test[-real_n_D1:])))
+        middle = ss[ss.size // 2:ss.size // 2 + ss.size % 2]
+        stack_test = np.hstack((stack[-1:], ss_group))
+        stack_test = np.hstack((stack_test, middle, np.flip(stack_test)))
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
+        stack_test = np.hstack((stack[-constraints.n_contig:], ss_group))
+        stack_test = np.hstack((stack_test, middle, np.flip(stack_test)))
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
             continue
-- 
2.43.0


From 44a98dd733f86199a45dc0bd01b78ec3289cabe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 40/98] fix: keep the order of the innermost plies when
 repairing asymmetric laminates

---
 src/RELAY/repair_from_outside_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index 4079eac..4fd66fc 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -159,6 +159,7 @@ def repair_diso_contig_from_outside_asym(
 #    print_ss(stack_top)
 
     # plies at the centre all designed simultaneously
+    ind_2 = np.sort(ind_2)
     good_permut = []
     real_n_D1 = ind_2.size
     remaining_plies = np.empty((real_n_D1,), int)
@@ -170,7 +171,6 @@ def repair_diso_contig_from_outside_asym(
 #    print('remaining_plies', remaining_plies)
 
 
-    ind_2 = np.sort(ind_2)
     for elem in itertools.permutations(
         range(real_n_D1)):
 #        print('elem', elem)
-- 
2.43.0


From 4fba3d6017063031a56b09a2fb02485ee786b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 41/98] fix: evaluate the swaps of ply blocks at the positions
 of the blocks

---
 src/RELAY/repair_flexural_1.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 999c430..003c3ee 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -98,8 +98,9 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
                 new_lampamDs[index] = lampamD + calc_delta_lampamD_swap_1(
                     angle_first=block_1.angle,
                     angle_second=list_blocks[index_block_2].angle,
-                    n_first_ply=block_1.first_ply_pos,
-                    n_second_ply=list_blocks[index_block_2].first_ply_pos,
+                    # positions of plies starting from 1
+                    n_first_ply=block_1.first_ply_pos + 1,
+                    n_second_ply=list_blocks[index_block_2].first_ply_pos + 1,
                     n_plies_group=block_1.n_block_of_plies,
                     n_plies=n_plies,
                     constraints=constraints)
-- 
2.43.0


From e4e64a0cb78858f9ed2f0098078ef94c6b720477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 42/98] fix: exclude from the swaps of ply blocks the blocks
 with plies imposed by damage tolerance, and only those

---
 src/RELAY/repair_flexural_1.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 003c3ee..a05515e 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -74,14 +74,18 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
     # out-of-plane properties
     for index_block_1 in range(len(list_blocks[:-1])):
         block_1 = list_blocks[index_block_1]
-        if status_dam_tol[block_1.first_ply_pos]:
+        if status_dam_tol[
+                block_1.first_ply_pos:
+                block_1.first_ply_pos + block_1.n_block_of_plies].any():
             continue
 #        if block_1.distance_middle < 0.5:
 #            break
         ind_possible_swap = []
         for index_block_2, block_2 \
         in enumerate(list_blocks[index_block_1 + 1:]):
-            if status_dam_tol[list_blocks[index_block_2].first_ply_pos]:
+            if status_dam_tol[
+                    block_2.first_ply_pos:
+                    block_2.first_ply_pos + block_2.n_block_of_plies].any():
                 continue
             if block_1.n_block_of_plies == block_2.n_block_of_plies \
             and block_2.angle in block_1.possible_angles \
-- 
2.43.0


From 2af6fef292829c3042edc69e02dc201fcf72bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 43/98] fix: test n_D2 ply shifts at each step of the
 refinement of the out-of-plane properties

---
 src/RELAY/repair_flexural_2.py | 4 ++--
 src/RELAY/repair_flexural_3.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_flexural_2.py b/src/RELAY/repair_flexural_2.py
index 646a77b..f5e35f5 100644
--- a/src/RELAY/repair_flexural_2.py
+++ b/src/RELAY/repair_flexural_2.py
@@ -110,10 +110,10 @@ def repair_flexural_2(
     for index, ind_ply_1 in enumerate(ind_2[:-1]):
 #        print('ind_ply_1', ind_ply_1)
 
-        objD = 1e10 * np.ones((parameters.n_D2 - 1,), float)
+        objD = 1e10 * np.ones((parameters.n_D2,), float)
 
         for ind_loc, ind_ply_2 \
-        in enumerate(ind_2[index + 1:index + parameters.n_D2]):
+        in enumerate(ind_2[index + 1:index + 1 + parameters.n_D2]):
 
 #            print('    ind_ply_2', ind_ply_2)
 
diff --git a/src/RELAY/repair_flexural_3.py b/src/RELAY/repair_flexural_3.py
index 626ee26..f460d46 100644
--- a/src/RELAY/repair_flexural_3.py
+++ b/src/RELAY/repair_flexural_3.py
@@ -113,7 +113,7 @@ def repair_flexural_3(
         objD = 1e10*np.ones((ind_2[index + 1:].size,), float)
 
         for ind_loc, ind_ply_2 \
-        in enumerate(ind_2[index + 1:index + 2 + parameters.n_D2]):
+        in enumerate(ind_2[index + 1:index + 1 + parameters.n_D2]):
 
 #            print('    ind_ply_2', ind_ply_2)
 
-- 
2.43.0


From 0b76987be06fa0c2c1e5d58d2a6619c80a46aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 44/98] fix: return no ply block when all the plies of a
 laminate join the middle ply

---
 src/RELAY/repair_flexural_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index de48154..1a2e123 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -341,8 +341,11 @@ def find_list_blocks(ss_ref, n_plies, constraints):
     if constraints.sym:
         if n_plies % 2:
             ind_start = n_plies // 2 - 1
-            while ss_ref[ind_start] == ss_ref[n_plies // 2]:
+            while ind_start >= 0 \
+            and ss_ref[ind_start] == ss_ref[n_plies // 2]:
                 ind_start -= 1
+            if ind_start < 0:
+                return []
         else:
             ind_start = n_plies // 2 - 1
     else:
-- 
2.43.0


From 085350e98923a37f59c369927e24386f7e713aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 45/98] fix: keep the middle ply among the neighbours of the
 innermost block of plies

---
 src/RELAY/repair_flexural_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index 1a2e123..9f413f4 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -319,6 +319,8 @@ class Block():
                     if block2.ID == block1.ID + 1 \
                     or block2.ID == block1.ID - 1:
                         block1.neighbour_angles.append(block2.angle)
+                if block1.ID == 0 and midply is not None:
+                    block1.neighbour_angles.append(midply)
                 block1.calc_possible_angles(constraints)
 
 
-- 
2.43.0


From ffe54dfd5f312ee3bf0a50da020d45e514297f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 46/98] fix: compute the objective of repaired laminates in
 repair_ss

---
 src/RELAY/repair_ss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_ss.py b/src/RELAY/repair_ss.py
index 5a13d91..6c6a7f0 100644
--- a/src/RELAY/repair_ss.py
+++ b/src/RELAY/repair_ss.py
@@ -21,6 +21,7 @@ sys.path.append(r'C:\BELLA')
 from src.LAYLA_V02.parameters import Parameters
 from src.LAYLA_V02.constraints import Constraints
 from src.LAYLA_V02.objectives import objectives
+from src.LAYLA_V02.targets import Targets
 from src.divers.pretty_print import print_ss, print_list_ss
 from src.RELAY.repair_10_bal import repair_10_bal
 from src.RELAY.repair_10_bal import calc_mini_10
@@ -141,14 +142,14 @@ def repair_ss(
     #--------------------------------------------------------------------------
     obj_no_constraints = objectives(
         lampam=calc_lampam(ss, constraints),
-        lampam_target=lampam_target,
+        targets=Targets(n_plies=ss.size, lampam=lampam_target),
         lampam_weightings=parameters.lampam_weightings_final,
         constraints=constraints,
         parameters=parameters)
     if count_obj:
-        return ss, True, 1e10, n_obj_func_D_calls
+        return ss, True, obj_no_constraints, n_obj_func_D_calls
     else:
-        return ss, True, 1e10
+        return ss, True, obj_no_constraints
 
 if __name__ == "__main__":
     print('\n*** Test for the function repair_ss ***')
-- 
2.43.0


From ee409842ae7a0543b4388963c6a118dcc3290739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 47/98] fix: let the LAYLA constraints be used in the repair
 for the 10% rule

---
 src/LAYLA_V02/constraints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index d76c2e3..ed24f16 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -63,6 +63,8 @@ Choose either:
         if not isinstance(rule_10_percent, bool):
             raise ConstraintDefinitionError("""
 Attention, rule_10_percent must be a boolean!""")
+        # the 10% rule formulated by Abdalla is not available in LAYLA
+        self.rule_10_Abdalla = False
         # set the limit percentages for the 10% rule
         self.set_percentages(
             percent_0, percent_45, percent_90, percent_135, percent_45_135)
-- 
2.43.0


From ab2bdb0f3ed1b064f44329df5b3bdd69d803afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 48/98] fix: never subtract plies required at +45 and -45 from
 the queue of plies

---
 src/RELAY/repair_10_bal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 632fa7e..deb2ccd 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -381,6 +381,7 @@ def repair_10_bal_2(ss_ini, mini_10, constraints):
     if constraints.rule_10_percent and constraints.percent_45_135:
         missing_extra_45_135 = ma.ceil(mini_10[4]) \
         - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3])
+        missing_extra_45_135 = max(0, missing_extra_45_135)
     else:
         missing_extra_45_135 = 0
 
-- 
2.43.0


From 67414b3b5f59ace72f6715d621b87c8fbad6ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 49/98] fix: return the ply-drop layout of the repaired
 multi-panel design

---
 src/RELAY/repair_mp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/repair_mp.py b/src/RELAY/repair_mp.py
index 66818c6..c884a47 100644
--- a/src/RELAY/repair_mp.py
+++ b/src/RELAY/repair_mp.py
@@ -76,6 +76,7 @@ def repair_mp(multipanel, reduced_ss, constraints, parameters, obj_func_param,
     if (reduced_ss[multipanel.reduced.ind_ref] != ss_ref).any():
         raise Exception("""
 Reference stacking sequence modified during blending step 4.2""")
+    reduced_pdl = convert_sst_to_pdl(reduced_sst)
 
     #--------------------------------------------------------------------------
     # step 3 / re-optimise the ply drop layout - thin-to-thck repair
@@ -86,13 +87,13 @@ Reference stacking sequence modified during blending step 4.2""")
         parameters, obj_func_param, constraints, mat=mat)
     if not success:
         print('Blending step 4.3 unsuccessful')
-        reduced_sst = convert_ss_to_sst(reduced_ss, reduced_pdl)
         return False, reduced_ss, reduced_sst, reduced_pdl, 3
 
     # check that the reference panel stacking sequence has not been changed
     if (reduced_ss[multipanel.reduced.ind_ref] != ss_ref).any():
         raise Exception("""
 Reference stacking sequence modified during blending step 4.3""")
+    reduced_pdl = convert_sst_to_pdl(reduced_sst)
 
     #--------------------------------------------------------------------------
     # return result
@@ -106,3 +107,8 @@ Reference stacking sequence modified during blending step 4.3""")
 
 #    print('Blending step 4 successful')
     return True, reduced_ss, reduced_sst, reduced_pdl, 4
+
+def convert_sst_to_pdl(reduced_sst):
+    "retrieves the ply drop layout of a stacking sequence table"
+    return np.array([np.where(line == -1, -1, np.arange(line.size))
+                     for line in reduced_sst])
-- 
2.43.0


From 91bfdb9e6883851bce4e966f52213aab124bcd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 50/98] fix: report thin laminates left without damage
 tolerance as not repaired

---
 src/RELAY/repair_reference_panel.py | 3 ++-
 src/RELAY/repair_ss.py              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_reference_panel.py b/src/RELAY/repair_reference_panel.py
index 904939c..242b65d 100644
--- a/src/RELAY/repair_reference_panel.py
+++ b/src/RELAY/repair_reference_panel.py
@@ -18,6 +18,7 @@ from src.RELAY.repair_10_bal import repair_10_bal
 from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_diso_contig import repair_diso_contig_list
 from src.guidelines.one_stack import check_lay_up_rules
+from src.guidelines.dam_tol import is_dam_tol
 
 
 def repair_reference_panel(
@@ -84,7 +85,7 @@ def repair_reference_panel(
     ss_ref, completed_inward, completed_outward, ind = repair_diso_contig_list(
         ss_ref_list, ply_queue_list, constraints,
         parameters.n_D1)
-    if not completed_outward:
+    if not completed_outward or not is_dam_tol(ss_ref, constraints):
 
         reduced_sst = convert_ss_ref_to_reduced_sst(
                 ss_ref, reduced_pdl=reduced_pdl,
diff --git a/src/RELAY/repair_ss.py b/src/RELAY/repair_ss.py
index 6c6a7f0..270acd7 100644
--- a/src/RELAY/repair_ss.py
+++ b/src/RELAY/repair_ss.py
@@ -29,6 +29,7 @@ from src.RELAY.repair_membrane import repair_membrane
 from src.RELAY.repair_flexural import repair_flexural
 from src.RELAY.repair_diso_contig import repair_diso_contig_list
 from src.guidelines.one_stack import check_lay_up_rules
+from src.guidelines.dam_tol import is_dam_tol
 from src.CLA.lampam_functions import calc_lampam
 
 def repair_ss(
@@ -103,7 +104,7 @@ def repair_ss(
         parameters.n_D1)
 #    print('completed_inward, completed_outward, ind',
 #          completed_inward, completed_outward, ind)
-    if not completed_outward:
+    if not completed_outward or not is_dam_tol(ss, constraints):
 #        print('unsuccessful repair for disorientation and/or contiguity')
         if obj_no_constraints is None:
             if count_obj:
-- 
2.43.0


From 95604fa9f6eadbe83e3d68019af81f35e3d043d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 51/98] fix: restore the stacking sequence table after an
 unsuccessful step 4.3

---
 src/RELAY/repair_mp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RELAY/repair_mp.py b/src/RELAY/repair_mp.py
index c884a47..e691268 100644
--- a/src/RELAY/repair_mp.py
+++ b/src/RELAY/repair_mp.py
@@ -87,6 +87,7 @@ Reference stacking sequence modified during blending step 4.2""")
         parameters, obj_func_param, constraints, mat=mat)
     if not success:
         print('Blending step 4.3 unsuccessful')
+        reduced_sst = convert_ss_to_sst(reduced_ss, reduced_pdl)
         return False, reduced_ss, reduced_sst, reduced_pdl, 3
 
     # check that the reference panel stacking sequence has not been changed
-- 
2.43.0


From 38f7e609be67107507489466ec40c10cef0e5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 52/98] fix: retrieve the outermost plies from the queue of
 plies if needed

---
 src/RELAY/repair_diso_contig.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index e3203ef..1d64655 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -69,6 +69,8 @@ def repair_diso_contig(
 #    print('constraints.sym', constraints.sym)
 #    print('n_D1', n_D1)
 
+    ss, ply_queue = retrieve_outer_plies(ss, ply_queue, constraints)
+
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
             ss, ply_queue, constraints, n_D1)
@@ -87,6 +89,27 @@ def repair_diso_contig(
     return ss, inward, True
 
 
+def retrieve_outer_plies(ss, ply_queue, constraints):
+    """
+    retrieves the plies from which the repair starts, the outermost plies and
+    the plies for damage tolerance, from the queue of plies if they are unknown
+    """
+    ss = np.copy(ss)
+    ply_queue = list(ply_queue)
+    n_outer = 2 if constraints.dam_tol and constraints.dam_tol_rule > 1 else 1
+
+    for ind in range(n_outer):
+        for ind_ply in (ss.size - 1 - ind, ind):
+            if ss[ind_ply] == 666 and ply_queue:
+                # +-45 plies preferably for damage tolerance
+                if constraints.dam_tol:
+                    ply_queue.sort(key=lambda x: x not in (45, -45))
+                ss[ind_ply] = ply_queue.pop(0)
+                if constraints.sym:
+                    ss[ss.size - 1 - ind_ply] = ss[ind_ply]
+    return ss, ply_queue
+
+
 if __name__ == "__main__":
     print('\n*** Test for the function repair_diso_contig ***')
     constraints = Constraints(
-- 
2.43.0


From f0edea384fc57f73e9b6bd29685c7174f85d208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 53/98] fix: allow optimisations without material properties

---
 src/BELLA/optimiser.py   |  3 ++-
 src/BELLA/save_result.py | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 0a9eb76..3191cd9 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -52,7 +52,8 @@ def BELLA_optimiser(
     delete_file(filename)
 
     multipanel.should_you_use_BELLA()
-    multipanel.calc_weight_per_panel(mat.density_area)
+    if mat is not None:
+        multipanel.calc_weight_per_panel(mat.density_area)
     multipanel.filter_target_lampams(constraints, obj_func_param)
     multipanel.filter_lampam_weightings(constraints, obj_func_param)
 
diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 5bb058a..afb17e6 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -201,14 +201,17 @@ def save_result_BELLA_one_pdl(
                 ind + ind_p, 'lampam[' + str(ind_lp + 1) + ']'] = \
             lampam[ind_p, ind_lp]
             
-        D = D_from_lampam(lampam[ind_p], mat) 
-        D_11 = D[0, 0]
-        D_22 = D[1, 1]
-        D_16 = D[0, 2]
-        D_26 = D[1, 2]
-        
-        table_res.loc[ind + ind_p, 'gamma'] = abs(D_16/(( (D_11**3) * D_22 )**(1/4)))
-        table_res.loc[ind + ind_p, 'delta'] = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
+        if mat is not None:
+            D = D_from_lampam(lampam[ind_p], mat)
+            D_11 = D[0, 0]
+            D_22 = D[1, 1]
+            D_16 = D[0, 2]
+            D_26 = D[1, 2]
+
+            table_res.loc[ind + ind_p, 'gamma'] \
+            = abs(D_16/(( (D_11**3) * D_22 )**(1/4)))
+            table_res.loc[ind + ind_p, 'delta'] \
+            = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
             
         stack = ' '.join(np.array(output.sst[ind_p], dtype=str))
         table_res.loc[
-- 
2.43.0


From f5272f23837889123f2bdb91c729dcbdc679c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 54/98] fix: consider laminates too thin for the 10% rule and
 balance as not repaired

---
 src/RELAY/repair_diso_contig.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index 1d64655..ea2c0ef 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -69,6 +69,14 @@ def repair_diso_contig(
 #    print('constraints.sym', constraints.sym)
 #    print('n_D1', n_D1)
 
+    # more plies in the queue than plies left to be retrieved: no laminate of
+    # this thickness satisfies the 10% rule and balance
+    n_unknown = sum(ss == 666)
+    if constraints.sym:
+        n_unknown = n_unknown // 2
+    if len(ply_queue) > n_unknown:
+        return ss, False, False
+
     ss, ply_queue = retrieve_outer_plies(ss, ply_queue, constraints)
 
     if constraints.sym:
-- 
2.43.0


From 45628dffc373cf9f4ba9c755e11de2863e0c5014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 55/98] fix: prune the plies of asymmetric laminates according
 to their search level

---
 src/BELLA/pruning.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 5d821df..6960599 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -59,7 +59,7 @@ def pruning_diso_contig_damtol(
                 return None
             return child_ss
 
-        elif not constraints.sym and level == n_plies_to_optimise - 1:
+        elif not constraints.sym and level == 1: # outermost top ply
             for ind in range(child_ss.size)[:: -1]:
                 if child_ss[ind] not in my_set:
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
@@ -69,7 +69,8 @@ def pruning_diso_contig_damtol(
 
         if constraints.dam_tol_rule in [2, 3]:
 
-            if level == 1:
+            # second outermost bottom ply
+            if level == (1 if constraints.sym else 2):
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
@@ -92,7 +93,8 @@ def pruning_diso_contig_damtol(
                     return None
                 return child_ss
 
-            if level == n_plies_to_optimise - 2 and not constraints.sym:
+            # second outermost top ply of asymmetric laminates
+            if level == 3 and not constraints.sym:
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
@@ -203,10 +205,9 @@ def pruning_diso_contig_damtol(
                 ss_before = mother_ss_bot[-constraints.n_contig:]
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
-                    if not internal_contig2(
-                            new_stack=np.hstack((
-                                ss_before, child_ss[ind], ss_after)),
-                            constraints=constraints):
+                    new_stack = np.hstack((
+                        ss_before, child_ss[ind], ss_after))
+                    if not internal_contig2(new_stack, constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
         if child_ss.size == 0:
-- 
2.43.0


From 5a79e84fdac189d3ba1c882e10f353e3a8c09715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 56/98] fix: follow the ply order in the beam search of
 asymmetric laminates

---
 src/BELLA/lampam_matrix.py          |  8 +++++++-
 src/BELLA/moments_of_areas.py       | 31 +++++++++++++++++------------
 src/BELLA/optimiser_with_one_pdl.py | 14 ++++++-------
 3 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/BELLA/lampam_matrix.py b/src/BELLA/lampam_matrix.py
index ab1804d..b9a24ea 100644
--- a/src/BELLA/lampam_matrix.py
+++ b/src/BELLA/lampam_matrix.py
@@ -10,6 +10,7 @@ import numpy as np
 sys.path.append(r'C:\BELLA')
 from src.CLA.lampam_functions import calc_delta_lampam_mp_3
 from src.CLA.lampam_functions import calc_delta_lampam
+from src.BELLA.ply_order import calc_ply_order
 
 
 def calc_delta_lampams(multipanel, constraints, mom_areas, ply_order):
@@ -90,7 +91,12 @@ def calc_delta_lampams2(
             n_plies_to_optimise,
             12), float)
 
+    # the ply partial lamination parameters are sorted in the order in which
+    # plies are optimised
+    ply_order = calc_ply_order(multipanel, constraints)
+
     for ind_panel, panel in enumerate(multipanel.reduced.panels):
+        rows = np.argsort(ply_order[ind_panel])
 
         for ind_angle in range(constraints.n_set_of_angles):
             counter_plies = -1
@@ -101,7 +107,7 @@ def calc_delta_lampams2(
 #                          ind_panel, ind_angle, index_ply)
 #                    print('counter_plies', counter_plies)
                     lampam_matrix[ind_panel, ind_angle, index_ply, :] \
-                    = delta_lampams[ind_panel][counter_plies, ind_angle]
+                    = delta_lampams[ind_panel][rows[counter_plies], ind_angle]
     return lampam_matrix
 
 
diff --git a/src/BELLA/moments_of_areas.py b/src/BELLA/moments_of_areas.py
index ef486d2..194302d 100644
--- a/src/BELLA/moments_of_areas.py
+++ b/src/BELLA/moments_of_areas.py
@@ -8,6 +8,8 @@ __author__ = 'Noemie Fedon'
 
 import numpy as np
 
+from src.BELLA.ply_order import calc_ply_order
+
 
 def calc_mom_of_areas(multipanel, constraints, ply_order):
     """
@@ -75,8 +77,6 @@ def calc_mom_of_areas(multipanel, constraints, ply_order):
 
             ply_indices = np.arange(panel.n_plies)
 
-            print(ply_indices, type(ply_indices))
-            print(ply_order, type(ply_order))
             pos_bot = ((2 / panel.n_plies) \
                        * ply_indices - 1)[ply_order[ind_panel]]
             pos_top = ((2 / panel.n_plies) \
@@ -120,8 +120,8 @@ def calc_mom_of_areas2(multipanel, constraints, mom_areas_plus, pdl,
 
     OUTPUS
 
-    - cummul_areas[panel_index][ply_index, 0]:
-
+    - cummul_areas[panel_index, level]: sum of the areas of the plies retrieved
+    up to a level of the search
 
     INPUTS
 
@@ -146,20 +146,25 @@ def calc_mom_of_areas2(multipanel, constraints, mom_areas_plus, pdl,
     cummul_sec_mom_areas = np.zeros(
         (multipanel.reduced.n_panels, n_plies_to_optimise), float)
 
+    # the moments of areas are sorted in the order in which plies are optimised
+    ply_order = calc_ply_order(multipanel, constraints)
+
     for ind_panel, panel in enumerate(multipanel.reduced.panels):
-        counter_plies = -1
-        for index_ply in range(n_plies_to_optimise):
+        rows = np.argsort(ply_order[ind_panel])
+        counters = np.cumsum(
+            np.array(pdl[ind_panel])[:n_plies_to_optimise] != -1) - 1
+        for level, index_ply in enumerate(ply_order[-1]):
             if pdl[ind_panel, index_ply] != -1:
-                counter_plies += 1
+                row = rows[counters[index_ply]]
 
-                cummul_areas[ind_panel, index_ply:] \
-                += mom_areas_plus[ind_panel][counter_plies][0]
+                cummul_areas[ind_panel, level:] \
+                += mom_areas_plus[ind_panel][row][0]
 
-                cummul_first_mom_areas[ind_panel, index_ply:] \
-                += mom_areas_plus[ind_panel][counter_plies][1]
+                cummul_first_mom_areas[ind_panel, level:] \
+                += mom_areas_plus[ind_panel][row][1]
 
-                cummul_sec_mom_areas[ind_panel, index_ply:] \
-                += mom_areas_plus[ind_panel][counter_plies][2]
+                cummul_sec_mom_areas[ind_panel, level:] \
+                += mom_areas_plus[ind_panel][row][2]
 
     return cummul_areas, cummul_first_mom_areas, cummul_sec_mom_areas
 
diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index 077768d..af57ef3 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -107,11 +107,11 @@ def BELLA_optimiser_one_pdl(
     penalty_bal_ipo_final = []
     penalty_10_final = []
 
-    for level in indices:
+    for level, ind_ply in enumerate(indices):
 # =============================================================================
 # preparation of the exploration of a level during beam search #
 # =============================================================================
-        last_level = level == indices[-1]
+        last_level = level == n_plies_to_optimise - 1
         # print('level in the search tree', level)
 
         n_nodes = obj_constraints_tab.size
@@ -181,7 +181,7 @@ def BELLA_optimiser_one_pdl(
                     mother_n_plies_per_angle)
 
                 for ind_panel in range(multipanel.reduced.n_panels):
-                    if pdl[ind_panel, level] >= 0:
+                    if pdl[ind_panel, ind_ply] >= 0:
                         index = constraints.ind_angles_dict[ss[ind_angle]]
                         if last_level and multipanel.has_middle_ply:
                             n_plies_per_angle[
@@ -202,7 +202,7 @@ def BELLA_optimiser_one_pdl(
                 for ind_panel in range(multipanel.reduced.n_panels):
                     lampam[ind_panel] += lampam_matrix[
                         ind_panel,
-                        constraints.ind_angles_dict[ss[ind_angle]], level]
+                        constraints.ind_angles_dict[ss[ind_angle]], ind_ply]
                 lampam_tab = np.vstack(
                     (lampam_tab,
                      lampam.reshape(1, multipanel.reduced.n_panels, 12)))
@@ -216,7 +216,7 @@ def BELLA_optimiser_one_pdl(
                 for ind_angle in range(ss.size):
                     ss_bot = list(mother_ss_bot)
                     for ind_panel in range(multipanel.reduced.n_panels):
-                        if pdl[ind_panel, level] >= 0:
+                        if pdl[ind_panel, ind_ply] >= 0:
                             ss_bot[ind_panel] = np.hstack((
                                 ss_bot[ind_panel], ss[ind_angle]))
                     ss_bot_tab.append(ss_bot)
@@ -229,12 +229,12 @@ def BELLA_optimiser_one_pdl(
 
                     if level % 2 == 0:
                         for ind_panel in range(multipanel.reduced.n_panels):
-                            if pdl[ind_panel, level] >= 0:
+                            if pdl[ind_panel, ind_ply] >= 0:
                                 ss_bot[ind_panel] = np.hstack((
                                     ss_bot[ind_panel], ss[ind_angle]))
                     else:
                         for ind_panel in range(multipanel.reduced.n_panels):
-                            if pdl[ind_panel, level] >= 0:
+                            if pdl[ind_panel, ind_ply] >= 0:
                                 ss_top[ind_panel] = np.hstack((
                                     ss[ind_angle], ss_top[ind_panel]))
 
-- 
2.43.0


From 53ab709f085bce65b4c3ed9dca7b550680e8e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 57/98] fix: check the contiguity of the plies added to the top
 part of asymmetric laminates

---
 src/BELLA/pruning.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 6960599..aae3dde 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -174,6 +174,18 @@ def pruning_diso_contig_damtol(
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
                         continue
 
+            else: # top ply of asymmetric laminates
+
+                for ind in range(child_ss.size)[:: -1]:
+                    #   externally with mother_ss_top
+                    test, _ = external_contig(
+                        angle=np.array((child_ss[ind],)),
+                        n_plies_group=1,
+                        constraints=constraints,
+                        ss_before=np.flip(mother_ss_top, axis=0))
+                    if test.size == 0:
+                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
+                        continue
 
         # last ply
         else:
-- 
2.43.0


From 09264f204478c13bfbea48d74d16b0aa50b1d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 58/98] fix: save the weight of the optimised structure

---
 src/BELLA/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 3191cd9..926c5b3 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -144,7 +144,7 @@ No laminate design solution with any of the initial ply drop layouts""")
         save_materials(filename, mat)
     save_parameters_BELLA(filename, parameters)
     save_objective_function_BELLA(filename, obj_func_param)
-    save_multipanel(filename, multipanel, obj_func_param, mat)
+    save_multipanel(filename, multipanel, obj_func_param, mat=mat)
 
     pdls = np.zeros((len(pdls_ini),
                      multipanel.n_panels,
-- 
2.43.0


From f3145e9b10d821cb09f878c4b8f92af3bb541895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 59/98] fix: save the area of the structure

---
 src/BELLA/save_set_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index ffcff80..83b8b37 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -84,7 +84,7 @@ def save_multipanel(
     table_mp = pd.DataFrame()
     table_mp.loc[0, 'Number of panels'] = multipanel.n_panels
     table_mp.loc[0, 'Number of plies max'] = multipanel.n_plies_max
-    table_mp.loc[0, 'Area'] = multipanel.area_patches
+    table_mp.loc[0, 'Area'] = multipanel.area
     table_mp.loc[0, 'Area of all patches'] = multipanel.area_patches
     if mat is not None:
         table_mp.loc[0, 'Weight'] = multipanel.calc_weight(mat.density_area)
-- 
2.43.0


From 806486d1cc6df643032403d96ce3bf1ee9130f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 60/98] fix: save the weight of the panels

---
 src/BELLA/save_set_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index 83b8b37..9bd12b4 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -127,7 +127,7 @@ def save_multipanel(
             table_p.loc[ind_p, 'N_x'] = panel.N_x
             table_p.loc[ind_p, 'N_y'] = panel.N_y
 
-        if hasattr(panel, 'Weight'):
+        if mat is not None:
             table_p.loc[ind_p, 'Weight'] = panel.calc_weight(mat.density_area)
 
         for ind in range(12):
-- 
2.43.0


From 5529fa704274028c82eafa4bfcd5b7b09f7df294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 61/98] fix: save the penalties of panels with different ply
 counts

---
 src/BELLA/save_set_up.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index 9bd12b4..9e6b3a6 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -141,7 +141,7 @@ def save_multipanel(
             = panel.lampam_weightings[ind]
 
     if calc_penalties:
-        ss = np.array(convert_sst_to_ss(sst))
+        ss = convert_sst_to_ss(sst)
 
         norm_diso_contig = np.array(
                 [panel.n_plies for panel in multipanel.panels])
@@ -163,7 +163,8 @@ def save_multipanel(
         if constraints.rule_10_percent and constraints.rule_10_Abdalla:
             penalty_10 = calc_penalty_10_ss(ss, constraints, lampam, mp=True)
         else:
-            penalty_10 = calc_penalty_10_ss(ss, constraints, LPs=None)
+            penalty_10 = calc_penalty_10_ss(
+                ss, constraints, LPs=None, mp=True)
 
         penalty_ipo, penalty_oopo = calc_penalty_ipo_oopo_mp(
             lampam, constraints)
-- 
2.43.0


From 542cdd183f3ce8ad4383906c06249c783dd4361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 62/98] fix: save percentages of the number of plies

---
 src/BELLA/save_result.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index afb17e6..cce9047 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -158,16 +158,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(output.sst[ind_p] == 0) / (output.sst[ind_p].size)
+        = sum(output.sst[ind_p] == 0) / (panel.n_plies)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(output.sst[ind_p] == 90) / (output.sst[ind_p].size)
+        = sum(output.sst[ind_p] == 90) / (panel.n_plies)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(output.sst[ind_p] == 45) / (output.sst[ind_p].size)
+        = sum(output.sst[ind_p] == 45) / (panel.n_plies)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(output.sst[ind_p] == -45) / (output.sst[ind_p].size)
+        = sum(output.sst[ind_p] == -45) / (panel.n_plies)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
         = (sum(output.sst[ind_p] == 45) + sum(output.sst[ind_p] == -45)) \
-        / (output.sst[ind_p].size)
+        / (panel.n_plies)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
-- 
2.43.0


From 2ef17cdfe1ed614f3389573f9a3147ef8312d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 63/98] fix: save the design of each ply-drop layout

---
 src/BELLA/save_result.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index cce9047..6d861a1 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -48,6 +48,8 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
 
 
     for ind in range(parameters.n_ini_ply_drops):
+        if np.isnan(output.obj_constraints_tab[ind]):
+            continue # no design with this ply-drop layout
         table_res = pd.DataFrame()
         table_res = save_result_BELLA_one_pdl(
             table_res,
@@ -113,7 +115,8 @@ def save_result_BELLA_one_pdl(
 
     table_res.loc[ind, 'penalty_spacing'] = output.penalty_spacing_tab[ind]
 
-    ss = output.ss
+    ss = output.ss_tab[ind]
+    sst = output.ss_tab_tab[ind]
 
     norm_diso_contig = np.array(
         [panel.n_plies for panel in multipanel.panels])
@@ -158,15 +161,15 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(output.sst[ind_p] == 0) / (panel.n_plies)
+        = sum(sst[ind_p] == 0) / (panel.n_plies)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(output.sst[ind_p] == 90) / (panel.n_plies)
+        = sum(sst[ind_p] == 90) / (panel.n_plies)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(output.sst[ind_p] == 45) / (panel.n_plies)
+        = sum(sst[ind_p] == 45) / (panel.n_plies)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(output.sst[ind_p] == -45) / (panel.n_plies)
+        = sum(sst[ind_p] == -45) / (panel.n_plies)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
-        = (sum(output.sst[ind_p] == 45) + sum(output.sst[ind_p] == -45)) \
+        = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
         / (panel.n_plies)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
@@ -180,7 +183,7 @@ def save_result_BELLA_one_pdl(
             table_res.loc[ind + ind_p, 'lambda buckling'] = buckling_factor(
                 lampam=lampam[ind_p],
                 mat=mat,
-                n_plies=output.ss[ind_p].size,
+                n_plies=ss[ind_p].size,
                 N_x=panel.N_x,
                 N_y=panel.N_y,
                 length_x=panel.length_x,
@@ -189,7 +192,7 @@ def save_result_BELLA_one_pdl(
 
         for angle in constraints.set_of_angles:
             table_res.loc[ind + ind_p, 'n_' + str(angle) + 'plies'] \
-            = sum(output.sst[ind_p] == angle)
+            = sum(sst[ind_p] == angle)
 
         for ind_lp in range(12):
             table_res.loc[
@@ -213,11 +216,11 @@ def save_result_BELLA_one_pdl(
             table_res.loc[ind + ind_p, 'delta'] \
             = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
             
-        stack = ' '.join(np.array(output.sst[ind_p], dtype=str))
+        stack = ' '.join(np.array(sst[ind_p], dtype=str))
         table_res.loc[
             ind + ind_p, 'stacking sequences with ply drops included'] = stack
 
-        stack = ' '.join(np.array(output.ss[ind_p], dtype=str))
+        stack = ' '.join(np.array(ss[ind_p], dtype=str))
         table_res.loc[ind + ind_p, 'stacking sequences'] = stack
 
         if pdl is not None:
-- 
2.43.0


From e3a716b1d522cf11ada9b722af27da5d05da3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 64/98] fix: save the objective of the best design as best
 result

---
 src/BELLA/save_result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 6d861a1..6b8c244 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -65,7 +65,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
             filename, table_res, 'Results', index=False, header=True)
     # to save best result
     table_res = pd.DataFrame()
-    table_res.loc[0, 'time (s)'] = output.time
+    table_res.loc[output.ind_mini, 'time (s)'] = output.time
     table_res = save_result_BELLA_one_pdl(
         table_res,
         multipanel,
@@ -74,7 +74,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
         obj_func_param,
         output,
         pdl[output.ind_mini],
-        0,
+        output.ind_mini,
         mat)
     append_df_to_excel(
         filename, table_res, 'Best Result', index=False, header=True)
-- 
2.43.0


From 9187c6c386c3d053e707b2f8c5879351f2a3dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 65/98] fix: read each initial ply-drop layout once

---
 src/BELLA/pdl_ini.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index c7d0d89..0fc7cf2 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -52,11 +52,9 @@ def read_pdls_excel(filename):
                 header=None, )
         except:
             break
-        finally:
-            ind_pdl += 1
-            pdls.append(np.array(pdl))
-    ind_pdl -= 2
-    print('    ' + str(ind_pdl) + ' intial ply-drop layouts read.')
+        ind_pdl += 1
+        pdls.append(np.array(pdl))
+    print('    ' + str(len(pdls)) + ' intial ply-drop layouts read.')
     return pdls
 
 
-- 
2.43.0


From 4a6112b95cedc742173d4ec5745b064edc632c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 66/98] fix: use the second lamination parameter for D66 in the
 buckling factor

---
 src/buckling/buckling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buckling/buckling.py b/src/buckling/buckling.py
index aae1013..c9ba6a0 100644
--- a/src/buckling/buckling.py
+++ b/src/buckling/buckling.py
@@ -79,7 +79,7 @@ def buckling_factor(
         D11 = a * (mat.U1 + mat.U2*lampam[0] + mat.U3*lampam[1])
         D12 = a *(-mat.U3*lampam[1] + mat.U4)
         D22 = a *(mat.U1 - mat.U2*lampam[0] + mat.U3*lampam[1])
-        D66 = a *(-mat.U3*lampam[0] + mat.U5)
+        D66 = a *(-mat.U3*lampam[1] + mat.U5)
     for mode_m in range(n_modes):
         for mode_n in range(n_modes):
             buck[mode_m, mode_n] = buckling_factor_m_n(
-- 
2.43.0


From deab577075d3b2c3528b5b49469fa733e8962c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 67/98] fix: calculate orthotropy penalties when parameters are
 given

---
 src/guidelines/ipo_oopo.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index a398171..9c41e43 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -243,22 +243,18 @@ def calc_penalty_ipo_oopo_mp(
     - cummul_sec_mom_areas: sum of the second moments of areas of the plies
     retrieved so far + the current plies
     """
-    if parameters is None:
-        calculate_penalty = True
-
     n_panels = lampam.shape[0]
     penalties_ipo = np.zeros((n_panels,), dtype=float)
     penalties_oopo = np.zeros((n_panels,), dtype=float)
-    if calculate_penalty:
-        for ind_panel in range(n_panels):
-            # penalty for in-plane orthotropy
-            if constraints.ipo and penalty_ipo_switch:
-                penalties_ipo[ind_panel] = (
-                    abs(lampam[ind_panel][2]) + abs(lampam[ind_panel][3])) / 2
-            # penalty for out-of-plane orthotropy
-            if constraints.oopo:
-                penalties_oopo[ind_panel] = (
-                    abs(lampam[ind_panel][10]) + abs(lampam[ind_panel][11])) / 2
+    for ind_panel in range(n_panels):
+        # penalty for in-plane orthotropy
+        if constraints.ipo and penalty_ipo_switch:
+            penalties_ipo[ind_panel] = (
+                abs(lampam[ind_panel][2]) + abs(lampam[ind_panel][3])) / 2
+        # penalty for out-of-plane orthotropy
+        if constraints.oopo:
+            penalties_oopo[ind_panel] = (
+                abs(lampam[ind_panel][10]) + abs(lampam[ind_panel][11])) / 2
     return cummul_areas * penalties_ipo, cummul_sec_mom_areas * penalties_oopo
 
 
-- 
2.43.0


From cc6af76b516988f8a030d4971f5f3e956e669299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 68/98] fix: read panels with one neighbour or none from an
 input file

---
 FXI-results/format_restults_FXI_SST_1.py     | 7 +++++--
 FXI-results/format_restults_FXI_horseshoe.py | 7 +++++--
 run_BELLA_from_input_file_SST_1.py           | 7 +++++--
 run_BELLA_from_input_file_horseshoe.py       | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 684af34..5a91653 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -132,7 +132,10 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={"Neighbour panel IDs": str})
+data_panels["Neighbour panel IDs"] \
+= data_panels["Neighbour panel IDs"].fillna("")
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -157,7 +160,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index bb2fa56..68f662b 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -131,7 +131,10 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={"Neighbour panel IDs": str})
+data_panels["Neighbour panel IDs"] \
+= data_panels["Neighbour panel IDs"].fillna("")
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -155,7 +158,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index 02447b9..cd05727 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -211,7 +211,10 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={"Neighbour panel IDs": str})
+data_panels["Neighbour panel IDs"] \
+= data_panels["Neighbour panel IDs"].fillna("")
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -235,7 +238,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index f94b0df..74627d2 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -211,7 +211,10 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={"Neighbour panel IDs": str})
+data_panels["Neighbour panel IDs"] \
+= data_panels["Neighbour panel IDs"].fillna("")
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -235,7 +238,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
-- 
2.43.0


From 06607a7b6b1dccd621760359b1a497210f10e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 69/98] fix: read the coefficient of the balance penalty from
 an input file

---
 FXI-results/format_restults_FXI_SST_1.py     | 2 ++
 FXI-results/format_restults_FXI_horseshoe.py | 2 ++
 run_BELLA_from_input_file_SST_1.py           | 2 ++
 run_BELLA_from_input_file_horseshoe.py       | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 5a91653..2ef7fb6 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -119,6 +119,7 @@ data_objective = pd.read_excel(filename_input, sheet_name='Objective function',
 coeff_10 = data_objective["coeff_10"].iloc[0]
 coeff_contig = data_objective["coeff_contig"].iloc[0]
 coeff_diso = data_objective["coeff_diso"].iloc[0]
+coeff_bal_ipo = data_objective["coeff_bal_ipo"].iloc[0]
 coeff_oopo = data_objective["coeff_oopo"].iloc[0]
 coeff_spacing = data_objective["coeff_spacing"].iloc[0]
 
@@ -127,6 +128,7 @@ obj_func_param = ObjFunction(
     coeff_contig=coeff_contig,
     coeff_diso=coeff_diso,
     coeff_10=coeff_10,
+    coeff_bal_ipo=coeff_bal_ipo,
     coeff_oopo=coeff_oopo,
     coeff_spacing=coeff_spacing)
 
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index 68f662b..482c7f9 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -118,6 +118,7 @@ data_objective = pd.read_excel(filename_input, sheet_name='Objective function',
 coeff_10 = data_objective["coeff_10"].iloc[0]
 coeff_contig = data_objective["coeff_contig"].iloc[0]
 coeff_diso = data_objective["coeff_diso"].iloc[0]
+coeff_bal_ipo = data_objective["coeff_bal_ipo"].iloc[0]
 coeff_oopo = data_objective["coeff_oopo"].iloc[0]
 coeff_spacing = data_objective["coeff_spacing"].iloc[0]
 
@@ -126,6 +127,7 @@ obj_func_param = ObjFunction(
     coeff_contig=coeff_contig,
     coeff_diso=coeff_diso,
     coeff_10=coeff_10,
+    coeff_bal_ipo=coeff_bal_ipo,
     coeff_oopo=coeff_oopo,
     coeff_spacing=coeff_spacing)
 
diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index cd05727..15e8707 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -198,6 +198,7 @@ data_objective = pd.read_excel(filename_input, sheet_name='Objective function',
 coeff_10 = data_objective["coeff_10"].iloc[0]
 coeff_contig = data_objective["coeff_contig"].iloc[0]
 coeff_diso = data_objective["coeff_diso"].iloc[0]
+coeff_bal_ipo = data_objective["coeff_bal_ipo"].iloc[0]
 coeff_oopo = data_objective["coeff_oopo"].iloc[0]
 coeff_spacing = data_objective["coeff_spacing"].iloc[0]
 
@@ -206,6 +207,7 @@ obj_func_param = ObjFunction(
     coeff_contig=coeff_contig,
     coeff_diso=coeff_diso,
     coeff_10=coeff_10,
+    coeff_bal_ipo=coeff_bal_ipo,
     coeff_oopo=coeff_oopo,
     coeff_spacing=coeff_spacing)
 
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index 74627d2..2279be5 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -198,6 +198,7 @@ data_objective = pd.read_excel(filename_input, sheet_name='Objective function',
 coeff_10 = data_objective["coeff_10"].iloc[0]
 coeff_contig = data_objective["coeff_contig"].iloc[0]
 coeff_diso = data_objective["coeff_diso"].iloc[0]
+coeff_bal_ipo = data_objective["coeff_bal_ipo"].iloc[0]
 coeff_oopo = data_objective["coeff_oopo"].iloc[0]
 coeff_spacing = data_objective["coeff_spacing"].iloc[0]
 
@@ -206,6 +207,7 @@ obj_func_param = ObjFunction(
     coeff_contig=coeff_contig,
     coeff_diso=coeff_diso,
     coeff_10=coeff_10,
+    coeff_bal_ipo=coeff_bal_ipo,
     coeff_oopo=coeff_oopo,
     coeff_spacing=coeff_spacing)
 
-- 
2.43.0


From 384b7a2fc6f1e95bec1fd51219c3d5d2f0c1f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 70/98] fix: count the plies of all the stacking sequences
 given

---
 src/guidelines/ten_percent_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index e1dc597..4d5427a 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -64,9 +64,9 @@ def calc_ply_counts(multipanel, stacks, constraints):
         laminate structure
     """
     n_plies_per_angles = np.zeros((
-        multipanel.reduced.n_panels, constraints.n_set_of_angles),
+        len(stacks), constraints.n_set_of_angles),
         dtype='float16')
-    for ind_panel in range(multipanel.reduced.n_panels):
+    for ind_panel in range(len(stacks)):
         for index in range(len(stacks[ind_panel])):
             index = constraints.ind_angles_dict[stacks[ind_panel][index]]
             n_plies_per_angles[ind_panel][index] += 1
-- 
2.43.0


From a330448e1d64d3388162308841af821ba3f00715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 71/98] fix: use the Python Booleans in the subset-sum
 functions

---
 src/divers/subset_sum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index 5fc0e91..b1d3cb1 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -153,7 +153,7 @@ def subset_next_test ( ):
 
   print ( '' )
   n = 5
-  t = np.zeros ( n, dtype = np.bool )
+  t = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
@@ -216,7 +216,7 @@ def subset_sum_count ( n, w, t ):
 
   count = 0
 
-  s = np.zeros ( n, dtype = np.bool )
+  s = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
@@ -413,8 +413,8 @@ def subset_sum_find ( n, w, t ):
   import numpy as np
   from sys import exit
 
-  s = np.zeros ( n, dtype = np.bool )
-  s2 = np.zeros ( n, dtype = np.bool )
+  s = np.zeros ( n, dtype = bool )
+  s2 = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
-- 
2.43.0


From 2fdc163b8012d58034443a4f4b574ffca710c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 72/98] fix: write at the top of a truncated sheet

---
 src/divers/excel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/divers/excel.py b/src/divers/excel.py
index 89d85e3..9bbb237 100644
--- a/src/divers/excel.py
+++ b/src/divers/excel.py
@@ -107,7 +107,8 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
                                 if_sheet_exists='overlay')
         # get the last row in the existing Excel sheet
         # if it was not specified explicitly
-        if startrow is None and sheet_name in writer.book.sheetnames:
+        if startrow is None and not truncate_sheet \
+        and sheet_name in writer.book.sheetnames:
             startrow = writer.book[sheet_name].max_row
         # truncate sheet
         if truncate_sheet and sheet_name in writer.book.sheetnames:
-- 
2.43.0


From 1fb26b9d98671b2bfd2531d45ecb4429e61f9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 73/98] fix: return no weights for a sum out of reach

---
 src/divers/subset_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index b1d3cb1..dee007a 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -1063,7 +1063,7 @@ def subset_sum_table_to_list ( t, table ):
 
   m = 0
   i = t
-  while ( 0 < i ):
+  while ( 0 < i and table[t] != 0 ):
     index.append ( table[i] )
     i = i - table[i]
     m = m + 1
-- 
2.43.0


From 45ea4a33f4b797af5a531d234d832677719aece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 74/98] fix: keep the best nodes whatever the scale of
 objective and spacing penalties

---
 src/BELLA/optimiser_with_one_pdl.py |  6 +++---
 src/RELAY/thick_to_thin.py          | 18 ++++++++++--------
 src/RELAY/thin_to_thick.py          | 18 ++++++++++--------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index af57ef3..939ef3b 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -313,7 +313,7 @@ def BELLA_optimiser_one_pdl(
                 to_del = []
                 for counter in range(n_excess_nodes):
                     ind_max = np.argmax(obj_constraints_tab_to_del)
-                    obj_constraints_tab_to_del[ind_max] = -6666
+                    obj_constraints_tab_to_del[ind_max] = -np.inf
                     to_del.append(
                         ind_max + obj_constraints_tab.size - n_local_nodes)
                 for ind_del in sorted(to_del, reverse=True):
@@ -350,8 +350,8 @@ beam search with no solutions !
             obj_constraints_tab_to_del = np.copy(obj_constraints_tab)
             for counter in range(node_limit):
                 ind_min = np.argmin(obj_constraints_tab_to_del)
-                obj_constraints_tab_to_del[ind_min] = 6666
-            to_keep = obj_constraints_tab_to_del == 6666
+                obj_constraints_tab_to_del[ind_min] = np.inf
+            to_keep = obj_constraints_tab_to_del == np.inf
             to_del = np.invert(to_keep).astype(int)
             to_del = [i for i, x in enumerate(to_del) if x]
             for ind_del in sorted(to_del, reverse=True):
diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index f08f73d..333faca 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -252,7 +252,8 @@ def repair_thick_to_thin(
 
             ### local pruning for the ply-drop layout rules
             indices_to_keep = []
-            tab_penalty_spacing_for_pruning = np.copy(tab_penalty_spacing)
+            tab_penalty_spacing_for_pruning = np.array(
+                tab_penalty_spacing, float)
             if len(tab_penalty_spacing_for_pruning) \
             > parameters.local_node_limit2:
 
@@ -263,7 +264,7 @@ def repair_thick_to_thin(
                         tab_penalty_spacing_for_pruning == min_value)[0]
                     for elem in indices_to_add:
                         indices_to_keep.append(elem)
-                        tab_penalty_spacing_for_pruning[elem] = 1000
+                        tab_penalty_spacing_for_pruning[elem] = np.inf
 
                 indices_to_keep.sort()
 #                print('indices_to_keep', indices_to_keep)
@@ -422,7 +423,7 @@ def repair_thick_to_thin(
             ### local pruning for the other guidelines and stiffness optimality
             indices_to_keep = []
             tab_child_obj_constraints_for_pruning \
-            = np.copy(tab_child_obj_constraints)
+            = np.array(tab_child_obj_constraints, float)
             if ind_step != n_steps - 1 \
             and len(tab_child_obj_constraints_for_pruning) \
             > parameters.local_node_limit2:
@@ -433,7 +434,7 @@ def repair_thick_to_thin(
                     index_to_add = np.where(
                     tab_child_obj_constraints_for_pruning == min_value)[0][0]
                     indices_to_keep.append(index_to_add)
-                    tab_child_obj_constraints_for_pruning[index_to_add] = 1000
+                    tab_child_obj_constraints_for_pruning[index_to_add] = np.inf
 
                 indices_to_keep.sort()
 #                print('indices_to_keep', indices_to_keep)
@@ -518,7 +519,8 @@ def repair_thick_to_thin(
 
         #### global pruning for ply-drop layout rules
         indices_to_keep = []
-        penalty_spacing_tab_for_pruning = np.copy(penalty_spacing_tab)
+        penalty_spacing_tab_for_pruning = np.array(
+            penalty_spacing_tab, float)
 
         if ind_step != n_steps - 1 \
         and len(penalty_spacing_tab_for_pruning) \
@@ -531,7 +533,7 @@ def repair_thick_to_thin(
                 penalty_spacing_tab_for_pruning == min_value)[0]
                 for elem in indices_to_add:
                     indices_to_keep.append(elem)
-                    penalty_spacing_tab_for_pruning[elem] = 1000
+                    penalty_spacing_tab_for_pruning[elem] = np.inf
 
             indices_to_keep.sort()
             pdls_tab = [pdls_tab[index] for index in indices_to_keep]
@@ -566,7 +568,7 @@ def repair_thick_to_thin(
         #### global pruning for the other guidelines and stiffness optimality
         indices_to_keep = []
         tab_child_obj_constraints_for_pruning \
-        = np.copy(obj_constraints_tab)
+        = np.array(obj_constraints_tab, float)
 
         if ind_step != n_steps - 1 \
         and len(tab_child_obj_constraints_for_pruning) \
@@ -578,7 +580,7 @@ def repair_thick_to_thin(
                 index_to_add = np.where(
                 tab_child_obj_constraints_for_pruning == min_value)[0][0]
                 indices_to_keep.append(index_to_add)
-                tab_child_obj_constraints_for_pruning[index_to_add] = 1000
+                tab_child_obj_constraints_for_pruning[index_to_add] = np.inf
 
             indices_to_keep.sort()
             pdls_tab = [pdls_tab[index] for index in indices_to_keep]
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 0d69135..0a2f4d7 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -303,7 +303,8 @@ def repair_thin_to_thick(
 
             ### local pruning for the ply-drop layout rules
             indices_to_keep = []
-            tab_penalty_spacing_for_pruning = np.copy(tab_penalty_spacing)
+            tab_penalty_spacing_for_pruning = np.array(
+                tab_penalty_spacing, float)
             if len(tab_penalty_spacing_for_pruning) \
             > parameters.local_node_limit3:
 
@@ -314,7 +315,7 @@ def repair_thin_to_thick(
                         tab_penalty_spacing_for_pruning == min_value)[0]
                     for elem in indices_to_add:
                         indices_to_keep.append(elem)
-                        tab_penalty_spacing_for_pruning[elem] = 1000
+                        tab_penalty_spacing_for_pruning[elem] = np.inf
 
                 indices_to_keep.sort()
 #                print('indices_to_keep', indices_to_keep)
@@ -473,7 +474,7 @@ def repair_thin_to_thick(
             ### local pruning for the other guidelines and stiffness optimality
             indices_to_keep = []
             tab_child_obj_constraints_for_pruning \
-            = np.copy(tab_child_obj_constraints)
+            = np.array(tab_child_obj_constraints, float)
             if ind_step != n_steps - 1 \
             and len(tab_child_obj_constraints_for_pruning) \
             > parameters.local_node_limit3:
@@ -484,7 +485,7 @@ def repair_thin_to_thick(
                     index_to_add = np.where(
                     tab_child_obj_constraints_for_pruning == min_value)[0][0]
                     indices_to_keep.append(index_to_add)
-                    tab_child_obj_constraints_for_pruning[index_to_add] = 1000
+                    tab_child_obj_constraints_for_pruning[index_to_add] = np.inf
 
                 indices_to_keep.sort()
 #                print('indices_to_keep', indices_to_keep)
@@ -561,7 +562,8 @@ def repair_thin_to_thick(
 
         #### global pruning for ply-drop layout rules
         indices_to_keep = []
-        penalty_spacing_tab_for_pruning = np.copy(penalty_spacing_tab)
+        penalty_spacing_tab_for_pruning = np.array(
+            penalty_spacing_tab, float)
         if ind_step != n_steps - 1 \
         and len(penalty_spacing_tab_for_pruning) \
         > parameters.global_node_limit3:
@@ -573,7 +575,7 @@ def repair_thin_to_thick(
                 penalty_spacing_tab_for_pruning == min_value)[0]
                 for elem in indices_to_add:
                     indices_to_keep.append(elem)
-                    penalty_spacing_tab_for_pruning[elem] = 1000
+                    penalty_spacing_tab_for_pruning[elem] = np.inf
 
             indices_to_keep.sort()
             pdls_tab = [pdls_tab[index] for index in indices_to_keep]
@@ -603,7 +605,7 @@ def repair_thin_to_thick(
         #### global pruning for the other guidelines and stiffness optimality
         indices_to_keep = []
         tab_child_obj_constraints_for_pruning \
-        = np.copy(obj_constraints_tab)
+        = np.array(obj_constraints_tab, float)
 
         if ind_step != n_steps - 1 \
         and len(tab_child_obj_constraints_for_pruning) \
@@ -615,7 +617,7 @@ def repair_thin_to_thick(
                 index_to_add = np.where(
                 tab_child_obj_constraints_for_pruning == min_value)[0][0]
                 indices_to_keep.append(index_to_add)
-                tab_child_obj_constraints_for_pruning[index_to_add] = 1000
+                tab_child_obj_constraints_for_pruning[index_to_add] = np.inf
 
             indices_to_keep.sort()
             pdls_tab = [pdls_tab[index] for index in indices_to_keep]
-- 
2.43.0


From 58f74a5bf60bb19090cbe8424ac7edbc6a2bd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 75/98] fix: keep no covering ply when the covering rule is off

---
 src/BELLA/constraints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 1951451..6e6da2c 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -86,6 +86,8 @@ Choose either n_covering = 0, 1 or 2""")
         self.covering = covering
         if covering:
              n_covering = max(n_covering, 1)
+        else:
+             n_covering = 0
         self.n_covering = n_covering
 
         # 10% rule
-- 
2.43.0


From a334b89361b2adcdecdcde47e0cafb3cd5dcd9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 76/98] fix: report laminates with covering plies only as
 impossible to partition

---
 src/BELLA/divide_panels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index 6b657cc..c14f574 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -58,7 +58,7 @@ def divide_panels(multipanel, parameters, constraints):
         # evaluate the number of ply orientations for covering plies
         n_lam = multipanel.n_plies_max - 2*constraints.n_covering
 
-        mini = ma.ceil(ma.floor(n_lam/2)/parameters.group_size_max)
+        mini = max(1, ma.ceil(ma.floor(n_lam/2)/parameters.group_size_max))
         maxi = ma.floor(ma.floor(n_lam/2)/parameters.group_size_min)
         if mini > maxi:
             raise PartitioningError("""
@@ -140,7 +140,7 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
         # Evaluate the number of ply orientations for covering plies
         n_lam = multipanel.n_plies_max - 2*constraints.n_covering
 
-        mini = ma.ceil(n_lam/parameters.group_size_max)
+        mini = max(1, ma.ceil(n_lam/parameters.group_size_max))
         maxi = ma.floor(n_lam/parameters.group_size_min)
 
         if mini > maxi:
-- 
2.43.0


From b4264e49e8173b2663d384e18ca6d62aa18f551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 77/98] fix: report one-ply symmetric laminates as impossible
 to partition (LAYLA)

---
 src/LAYLA_V02/divide_laminate_sym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/divide_laminate_sym.py b/src/LAYLA_V02/divide_laminate_sym.py
index a7caf8a..600f6cd 100644
--- a/src/LAYLA_V02/divide_laminate_sym.py
+++ b/src/LAYLA_V02/divide_laminate_sym.py
@@ -39,7 +39,8 @@ def divide_laminate_sym(parameters, targets, step=0):
     else:
         middle_ply = 0
 
-    mini = ma.ceil(ma.floor(targets.n_plies/2)/parameters.group_size_max[step])
+    mini = max(1, ma.ceil(
+        ma.floor(targets.n_plies/2)/parameters.group_size_max[step]))
     maxi = ma.floor(ma.floor(targets.n_plies/2)/parameters.group_size_min)
     if mini > maxi:
         raise PartitioningError('''
-- 
2.43.0


From d69b7c101e8800be0bd831448b4e6f991a6deb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 78/98] fix: list the ply counts of covering plies only as
 forbidden

---
 src/BELLA/divide_panels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index c14f574..7b8ab08 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -401,7 +401,8 @@ def forbidden_ply_counts(constraints, parameters):
             #===================
             if constraints.sym:
                 n_lam = n_plies_test - 2*constraints.n_covering
-                mini = ma.ceil(ma.floor(n_lam/2)/parameters.group_size_max)
+                mini = max(1, ma.ceil(
+                    ma.floor(n_lam/2)/parameters.group_size_max))
                 maxi = ma.floor(ma.floor(n_lam/2)/parameters.group_size_min)
                 if mini > maxi:
                     raise PartitioningError("""
@@ -411,7 +412,7 @@ limitations !
     minimum number of plies per group.""")
             else: # for non symmetric laminates
                 n_lam = n_plies_test - 2*constraints.n_covering
-                mini = ma.ceil(n_lam/parameters.group_size_max)
+                mini = max(1, ma.ceil(n_lam/parameters.group_size_max))
                 maxi = ma.floor(n_lam/parameters.group_size_min)
                 if mini > maxi:
                     raise PartitioningError("""
-- 
2.43.0


From 183f00b195b9c3cb193265d40ec109b3754c29b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:01 +0000
Subject: [PATCH 79/98] fix: optimise without changing the targets given by the
 user

---
 src/BELLA/panels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index cda4e97..eab690b 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -50,6 +50,7 @@ class Panel():
         self.set_n_plies(n_plies, constraints)
 
         # lamination-parameter targets
+        self.lampam_target_ini = lampam_target
         self.lampam_target = lampam_target
 
         # panel ID
@@ -121,6 +122,8 @@ Attention, the elements of lampam_weightings must be positive!
         filters applied to the lamination parameters to account for orthotropy
         requirements
         """
+        self.lampam_target = np.array(self.lampam_target_ini, float)
+
         # If symmetry is desired, the corresponding target amination parameters
         # must be set to 0
         if constraints.sym:
-- 
2.43.0


From 56b893b1c3a2daaac3f8ed237ce639265b192c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:01 +0000
Subject: [PATCH 80/98] fix: optimise without changing the parameters given by
 the user

---
 src/BELLA/optimiser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 926c5b3..a172a3b 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -7,6 +7,7 @@ __version__ = '1.0'
 __author__ = 'Noemie Fedon'
 
 import sys
+import copy
 import time
 import numpy as np
 
@@ -76,6 +77,7 @@ def BELLA_optimiser(
         # check the correct number of plies and panels in the ply drop layouts
         check_pdls_ini(multipanel, pdls_ini)
     # number of initial ply drops to be tested
+    parameters = copy.copy(parameters)
     parameters.n_ini_ply_drops = len(pdls_ini)
 
     ### preparation of the step 3 of BELLA
-- 
2.43.0


From ad9e1cb9428d00f159cd575b53eb058b3e5ba4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 81/98] fix: provide the orthotropy penalties used by the
 search of LAYLA

---
 src/guidelines/ipo_oopo.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index 9c41e43..f00955b 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -258,6 +258,34 @@ def calc_penalty_ipo_oopo_mp(
     return cummul_areas * penalties_ipo, cummul_sec_mom_areas * penalties_oopo
 
 
+def calc_penalty_ipo_oopo_ss(
+        lampam,
+        constraints,
+        parameters=None,
+        cummul_areas=1,
+        cummul_sec_mom_areas=1):
+    """
+    calculates penalties for in-plane and out-of plane orthotropy based
+    lamination parameters for a single-panel structure
+
+    INPUTS
+
+    - lampam: lamination parameters of one or several stacking sequences
+    - constraints: design and maufacturing constraints
+    - parameters: optimiser parameters
+    - cummul_areas: sum of the areas of the plies retrieved so far + the
+    current plies
+    - cummul_sec_mom_areas: sum of the second moments of areas of the plies
+    retrieved so far + the current plies
+    """
+    penalties_ipo = 0 * lampam[..., 0]
+    if constraints.ipo \
+    and (parameters is None or parameters.penalty_ipo_switch):
+        penalties_ipo = calc_penalty_ipo(lampam, cummul_areas)
+    penalties_oopo = calc_penalty_oopo_ss(
+        lampam, constraints, cummul_sec_mom_areas) + 0 * lampam[..., 0]
+    return penalties_ipo, penalties_oopo
+
 
 def calc_penalty_oopo_ss(lampam, constraints, cummul_sec_mom_areas=1):
     """
-- 
2.43.0


From 848b7c73b5ef09d1fdede22f61e059204158ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 82/98] fix: read the penalty switches of LAYLA from its
 parameters

---
 src/LAYLA_V02/outer_step_asym.py | 4 ++--
 src/LAYLA_V02/outer_step_sym.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LAYLA_V02/outer_step_asym.py b/src/LAYLA_V02/outer_step_asym.py
index 3249583..4f8f0cd 100644
--- a/src/LAYLA_V02/outer_step_asym.py
+++ b/src/LAYLA_V02/outer_step_asym.py
@@ -189,9 +189,9 @@ def outer_step_asym(
     # if repair failed
     if ((constraints.rule_10_percent and penalty_10)\
     or (constraints.ipo and penalty_ipo_lampam \
-        and constraints.penalty_ipo_switch) \
+        and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
-        and constraints.penalty_bal_switch)):
+        and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
 #    print('outer_step_result.ss_best', result.ss_best)
diff --git a/src/LAYLA_V02/outer_step_sym.py b/src/LAYLA_V02/outer_step_sym.py
index 59057ac..74fc467 100644
--- a/src/LAYLA_V02/outer_step_sym.py
+++ b/src/LAYLA_V02/outer_step_sym.py
@@ -189,9 +189,9 @@ def outer_step_sym(
     # If repair failed
     if ((constraints.rule_10_percent and penalty_10)\
     or (constraints.ipo and penalty_ipo_lampam \
-        and constraints.penalty_ipo_switch) \
+        and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
-        and constraints.penalty_bal_switch)):
+        and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
 #    print('outer_step_result.ss_best', result.ss_best)
-- 
2.43.0


From 2fcd3fd46f8643d96ad839d04a2d76fb752b2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 83/98] fix: order the partial lamination parameters of LAYLA
 by ply

---
 src/LAYLA_V02/optimiser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LAYLA_V02/optimiser.py b/src/LAYLA_V02/optimiser.py
index a6a8e6b..e8e8cbd 100644
--- a/src/LAYLA_V02/optimiser.py
+++ b/src/LAYLA_V02/optimiser.py
@@ -110,11 +110,11 @@ laminates""")
             targets.n_plies, constraints.n_set_of_angles, 12), float)
         for ind in range(lampam_weightings.shape[0]):
             delta_lampams[
-                ind, :, 0:4] = mom_areas[ind, 0] * constraints.cos_sin
+                ply_order[ind], :, 0:4] = mom_areas[ind, 0] * constraints.cos_sin
             delta_lampams[
-                ind, :, 4:8] = mom_areas[ind, 1] * constraints.cos_sin
+                ply_order[ind], :, 4:8] = mom_areas[ind, 1] * constraints.cos_sin
             delta_lampams[
-                ind, :, 8:12] = mom_areas[ind, 2] * constraints.cos_sin
+                ply_order[ind], :, 8:12] = mom_areas[ind, 2] * constraints.cos_sin
 
     # asummed lamination parameters for ech ply groups
     lampam_assumed = np.zeros((n_groups, 12), float)
-- 
2.43.0


From e31220f537c6683e330b7683919fcc1683b2071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 84/98] fix: call the contiguity check with its argument in the
 search of LAYLA

---
 src/LAYLA_V02/pruning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index e50f95c..03a3dcd 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -242,7 +242,7 @@ def pruning_diso_contig_damtol(
 
             for ind in range(child_ss.size)[:: -1]:
                 if not internal_contig2(
-                        new_stack=np.hstack((
+                        stack=np.hstack((
                             ss_before, child_ss[ind], ss_after)),
                         constraints=constraints):
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-- 
2.43.0


From a1f0190dea0cc8a6fdb56b51a41c293f3acbed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 85/98] fix: prune the top and bottom plies of asymmetric
 laminates in LAYLA

---
 src/LAYLA_V02/pruning.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index 03a3dcd..9df2a23 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -50,6 +50,9 @@ def pruning_diso_contig_damtol(
 # =============================================================================
     my_set = set([45, -45])
 
+    # number of plies at the bottom part of asymmetric laminates
+    n_plies_bot = targets.n_plies // 2 + targets.n_plies % 2
+
     if constraints.dam_tol:
 
         if level == 0:
@@ -120,7 +123,7 @@ def pruning_diso_contig_damtol(
 #       pruning for disorientation
 # =============================================================================
     if constraints.diso:
-        if constraints.sym or level % 2: # plies at the laminate bottom part
+        if constraints.sym or level < n_plies_bot: # plies at the laminate bottom part
             #   externally with ss_bot_simp
             if ss_bot_simp.size > 0 and mother_ss_bot.size == 0:
                 for ind in range(child_ss.size)[:: -1]:
@@ -148,16 +151,19 @@ def pruning_diso_contig_damtol(
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        if not constraints.sym and level == targets.n_plies - 1:
+        if not constraints.sym and level == targets.n_plies // 2:
             # last ply asymmetric laminates
-            if not level % 2: # check compatibility with laminate bottom part
+            if level >= n_plies_bot:
+                # check compatibility with laminate bottom part
+                ply = np.hstack((ss_bot_simp, mother_ss_bot))[-1]
                 for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_bot[-1],
+                    if not is_diso(child_ss[ind], ply,
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
             else: # check compatibility with laminate top part
+                ply = np.hstack((mother_ss_top, ss_top_simp))[0]
                 for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_top[0],
+                    if not is_diso(child_ss[ind], ply,
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
@@ -171,7 +177,8 @@ def pruning_diso_contig_damtol(
         # laminate bottom part but not last ply
         if (constraints.sym \
             and not level == targets.n_plies // 2 + targets.n_plies % 2 - 1)\
-        or (not constraints.sym and not level == targets.n_plies - 1):
+        or (not constraints.sym and level < n_plies_bot \
+            and not level == targets.n_plies // 2):
 
             for ind in range(child_ss.size)[:: -1]:
                 #   externally with ss_bot_simp
@@ -184,9 +191,9 @@ def pruning_diso_contig_damtol(
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
                     continue
 
-        # plies at the laminate bottom part but not last ply
-        elif not constraints.sym and not level % 2 \
-        and not level == targets.n_plies - 1:
+        # plies at the laminate top part but not last ply
+        elif not constraints.sym and level >= n_plies_bot \
+        and not level == targets.n_plies // 2:
 
             for ind in range(child_ss.size)[:: -1]:
 
@@ -228,8 +235,8 @@ def pruning_diso_contig_damtol(
                     if not internal_contig2(new_stack, constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        # plies at the laminate bottom part and not last ply
-        elif not constraints.sym and level == targets.n_plies - 1:
+        # last ply of asymmetric laminates
+        elif not constraints.sym and level == targets.n_plies // 2:
 
             ss_before = np.hstack((
                 ss_bot_simp, mother_ss_bot))[-constraints.n_contig:]
-- 
2.43.0


From 61c6098e67c9fc2ac17c47486953cbd0b82b9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 86/98] fix: place the plies of asymmetric laminates on their
 side in LAYLA

---
 src/LAYLA_V02/beam_search.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 36267fc..54dcd27 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -119,6 +119,11 @@ def beam_search(
     for local_level in range(group_size):
 
         level = levels[local_level]
+        # rank of the ply in the search and side of the laminate
+        rank, is_top = level, False
+        if not constraints.sym:
+            is_top = level >= targets.n_plies // 2 + targets.n_plies % 2
+            rank = 2 * (targets.n_plies - level) - 1 if is_top else 2 * level
 #        print('********************************')
 #        print('level', level)
 
@@ -231,7 +236,7 @@ def beam_search(
                     new_stack_bot = np.copy(mother_ss_bot)
                     new_stack_top = np.copy(mother_ss_top)
 
-                    if local_level % 2:
+                    if is_top:
                         new_stack_top = np.hstack((
                             child_ss[indd], new_stack_top))
                     else:
@@ -260,7 +265,7 @@ def beam_search(
             obj_no_constraints = objectives(
                 lampam=lampam_tab[lampam_tab.shape[0] - n_solution:],
                 targets=targets,
-                lampam_weightings=lampam_weightings[level],
+                lampam_weightings=lampam_weightings[rank],
                 constraints=constraints,
                 parameters=parameters,
                 mat_prop=mat_prop)
@@ -310,7 +315,7 @@ def beam_search(
                             lampam=calc_lampam_from_delta_lp_matrix(
                                 ss, constraints, delta_lampams),
                             targets=targets,
-                            lampam_weightings=lampam_weightings[level],
+                            lampam_weightings=lampam_weightings[rank],
                             constraints=constraints,
                             parameters=parameters,
                             mat_prop=mat_prop)
@@ -330,8 +335,8 @@ def beam_search(
                 lampam_tab[lampam_tab.shape[0] - n_solution:],
                 constraints=constraints,
                 parameters=parameters,
-                cummul_areas=cummul_mom_areas[level, 0],
-                cummul_sec_mom_areas=cummul_mom_areas[level, 2])
+                cummul_areas=cummul_mom_areas[rank, 0],
+                cummul_sec_mom_areas=cummul_mom_areas[rank, 2])
 #            print('penalty_ipo_lampam', penalty_ipo_lampam.shape)
 #            print('penalty_oopo', penalty_oopo.shape)
 
@@ -342,7 +347,7 @@ def beam_search(
                 penalty_ipo_pc = calc_penalty_bal(
                     ply_counts,
                     constraints=constraints,
-                    cummul_areas=cummul_mom_areas[level, 0])
+                    cummul_areas=cummul_mom_areas[rank, 0])
 #                print('penalty_ipo_pc', penalty_ipo_pc.shape)
 
             penalty_bal_ipo = max_arrays(penalty_ipo_pc, penalty_ipo_lampam)
-- 
2.43.0


From e1c34bd3f8877eb0722aac61ff36eaa2c220f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 87/98] fix: penalise each node of the search of LAYLA by its
 own balance

---
 src/LAYLA_V02/beam_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 54dcd27..5786295 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -345,7 +345,7 @@ def beam_search(
             penalty_ipo_pc = np.zeros((n_solution,))
             if constraints.ipo and parameters.penalty_bal_switch:
                 penalty_ipo_pc = calc_penalty_bal(
-                    ply_counts,
+                    ply_counts_tab[ply_counts_tab.shape[0] - n_solution:],
                     constraints=constraints,
                     cummul_areas=cummul_mom_areas[rank, 0])
 #                print('penalty_ipo_pc', penalty_ipo_pc.shape)
-- 
2.43.0


From f7ce67f0b6e5cb08ba5f3392800bae96923e4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 88/98] fix: accept feasible designs in the outer steps of
 LAYLA

---
 src/LAYLA_V02/outer_step_asym.py | 4 ++--
 src/LAYLA_V02/outer_step_sym.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LAYLA_V02/outer_step_asym.py b/src/LAYLA_V02/outer_step_asym.py
index 4f8f0cd..89c05c7 100644
--- a/src/LAYLA_V02/outer_step_asym.py
+++ b/src/LAYLA_V02/outer_step_asym.py
@@ -187,8 +187,8 @@ def outer_step_asym(
         coeff_oopo=parameters.coeff_oopo)
 
     # if repair failed
-    if ((constraints.rule_10_percent and penalty_10)\
-    or (constraints.ipo and penalty_ipo_lampam \
+    if ((constraints.rule_10_percent and penalty_10 > 1e-10)\
+    or (constraints.ipo and penalty_ipo_lampam > 1e-10 \
         and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
         and parameters.penalty_bal_switch)):
diff --git a/src/LAYLA_V02/outer_step_sym.py b/src/LAYLA_V02/outer_step_sym.py
index 74fc467..5f6ebd6 100644
--- a/src/LAYLA_V02/outer_step_sym.py
+++ b/src/LAYLA_V02/outer_step_sym.py
@@ -187,8 +187,8 @@ def outer_step_sym(
         coeff_oopo=parameters.coeff_oopo)
 
     # If repair failed
-    if ((constraints.rule_10_percent and penalty_10)\
-    or (constraints.ipo and penalty_ipo_lampam \
+    if ((constraints.rule_10_percent and penalty_10 > 1e-10)\
+    or (constraints.ipo and penalty_ipo_lampam > 1e-10 \
         and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
         and parameters.penalty_bal_switch)):
-- 
2.43.0


From cc95b55779ad2d9ce6f79606c1f9a362cde0cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 89/98] fix: penalise the repaired designs of LAYLA by their
 own ply counts

---
 src/LAYLA_V02/beam_search.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 5786295..dae569d 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -323,6 +323,14 @@ def beam_search(
                         check_lay_up_rules(ss, constraints)
                         lampam_tab[indddd] = calc_lampam_from_delta_lp_matrix(
                             ss, constraints, delta_lampams)
+                        ply_counts_tab[indddd] = [
+                            sum(ss == angle) / (1 + constraints.sym)
+                            for angle in constraints.set_of_angles]
+                        if constraints.rule_10_percent \
+                        and parameters.penalty_10_pc_switch:
+                            penalty_10[n_solution - indd - 1] \
+                            = calc_penalty_10_pc(
+                                ply_counts_tab[indddd], constraints)
                     else:
 #                        print('unsuccess full repair')
                         obj_no_constraints[n_solution - indd - 1] = 1e10
-- 
2.43.0


From 25f7863adb6d3ec5c63bd8e67d90be9e489ed7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 90/98] fix: filter the targets of LAYLA from those given by
 the user

---
 src/LAYLA_V02/targets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LAYLA_V02/targets.py b/src/LAYLA_V02/targets.py
index d36c8e0..846dea5 100644
--- a/src/LAYLA_V02/targets.py
+++ b/src/LAYLA_V02/targets.py
@@ -22,6 +22,7 @@ class Targets():
         """
         filters applied to the lamination parameters to account for orthotropy 
         """
+        self.lampam = np.copy(self.lampam_initial)
         # If symmetry is desired, the corresponding target amination parameters 
         # must be set to 0
         if constraints.sym:
-- 
2.43.0


From 565f29a10f487973ab92ff95f73e83d815e30b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 91/98] fix: fill in the best design in the results of LAYLA

---
 src/LAYLA_V02/optimiser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LAYLA_V02/optimiser.py b/src/LAYLA_V02/optimiser.py
index e8e8cbd..891bc8d 100644
--- a/src/LAYLA_V02/optimiser.py
+++ b/src/LAYLA_V02/optimiser.py
@@ -223,6 +223,8 @@ laminates""")
     results.objective = results.obj_tab[ind_mini]
     results.ss = results.ss_tab[ind_mini]
     results.lampam = results.lampam_tab_tab[ind_mini]
+    results.ss_best = results.ss
+    results.lampam_best = results.lampam
     results.completed = True
 
     return results
\ No newline at end of file
-- 
2.43.0


From 2659939db7fc5d4e2562b3f207319dc33c5e0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 92/98] fix: print one element per line when asked to

---
 src/divers/pretty_print.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/divers/pretty_print.py b/src/divers/pretty_print.py
index 5fc3e05..1084be7 100644
--- a/src/divers/pretty_print.py
+++ b/src/divers/pretty_print.py
@@ -154,9 +154,7 @@ def print_ss(ss1, elem_per_line=200):
     ss1 = np.copy(ss1)
     ss1.reshape((ss1.size,))
     for ind in range(ss1.size):
-        if ind % elem_per_line == 0:
-            print(f'{ss1[ind]:3d}, ', end='')
-        elif ind % elem_per_line == elem_per_line - 1:
+        if ind % elem_per_line == elem_per_line - 1:
             print(f'{ss1[ind]:3d}, ')
         else:
             print(f'{ss1[ind]:3d}, ', end='')
@@ -171,9 +169,7 @@ def print_list(ss1, elem_per_line=200):
     else:
         length = ss1.size
     for ind in range(length):
-        if ind % elem_per_line == 0:
-            print(f'{ss1[ind]:0.5f}, ', end='')
-        elif ind % elem_per_line == elem_per_line - 1:
+        if ind % elem_per_line == elem_per_line - 1:
             print(f'{ss1[ind]:0.5f}, ')
         else:
             print(f'{ss1[ind]:0.5f}, ', end='')
-- 
2.43.0


From a19023d6d6a20fbfa70d347091088681c60a83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:49 +0000
Subject: [PATCH 93/98] fix: modify the innermost plies first in asymmetric
 laminates

---
 src/RELAY/repair_10_bal.py                    | 7 ++-----
 src/RELAY/repair_membrane_1_ipo.py            | 4 +---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py    | 4 +---
 src/RELAY/repair_membrane_1_no_ipo.py         | 3 +--
 src/RELAY/repair_membrane_1_no_ipo_Abdalla.py | 3 +--
 5 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index deb2ccd..e41dc3d 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -72,7 +72,7 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         ss, n_plies, ply_queue, constraints)
 
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -177,8 +177,6 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('dist_10', dist_10)
@@ -263,7 +261,7 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -319,7 +317,6 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('dist_10', dist_10)
diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 15cd71b..319da5e 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -87,7 +87,7 @@ def repair_membrane_1_ipo(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -225,8 +225,6 @@ def repair_membrane_1_ipo(
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 6b87e69..255ac48 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -69,7 +69,7 @@ def repair_membrane_1_ipo_Abdalla(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -177,8 +177,6 @@ def repair_membrane_1_ipo_Abdalla(
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 6a90827..2b37af3 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -76,7 +76,7 @@ def repair_membrane_1_no_ipo(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -170,7 +170,6 @@ def repair_membrane_1_no_ipo(
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
index a44095b..1a9c32a 100644
--- a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
@@ -57,7 +57,7 @@ def repair_membrane_1_no_ipo_Abdalla(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -119,7 +119,6 @@ def repair_membrane_1_no_ipo_Abdalla(
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
-- 
2.43.0


From 07f995140adc4c23bcaf6f0ec3bf4c492e804578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 94/98] fix: return the closest laminate when the 10% rule of
 Abdalla cannot be met

---
 src/RELAY/repair_10_bal.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index e41dc3d..3333290 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -83,6 +83,7 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 
 
+    closest = (dist_10, np.copy(ss), ply_queue[:])
     states = []
     while dist_10 > 1e-10:
 #        print('dist_10', dist_10)
@@ -183,9 +184,18 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         if dist_10 < 1e-10:
             break
 
+        if dist_10 < closest[0]:
+            closest = (dist_10, np.copy(ss), ply_queue[:])
+
         dist_10_options = calc_dist_10_options_1(
             lampamA, lampamA_options, constraints)
 
+    if closest[0] < dist_10: # closest laminate investigated
+        dist_10, ss, ply_queue = closest
+        lampamA = calc_lampamA_ply_queue(ss, n_plies, ply_queue, constraints)
+        _, indices_per_angle = calc_ind_plies(
+            ss, n_plies, ply_queue, constraints)
+
 #    print('dist_10', dist_10)
 
     # attempt at changing a 0 deg ply into a 90 deg ply
@@ -271,6 +281,7 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 #    print('dist_10_options', dist_10_options)
 
+    closest = (dist_10, np.copy(ss), ply_queue[:])
     states = []
     while dist_10 > 1e-10:
         # attempts at modifying a couple of angled plies
@@ -323,10 +334,16 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
         if dist_10 < 1e-10:
             break
 
+        if dist_10 < closest[0]:
+            closest = (dist_10, np.copy(ss), ply_queue[:])
+
         dist_10_options = calc_dist_10_options_3(
             lampamA, lampamA_options, constraints)
 #        print('dist_10_options', dist_10_options)
 
+    if closest[0] < dist_10: # closest laminate investigated
+        _, ss, ply_queue = closest
+
     return ss, ply_queue
 
 
-- 
2.43.0


From 795514cfd50a52c3c50fbd739079d7b88aeca321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:40 +0000
Subject: [PATCH 95/98] fix: import numpy.matlib where ply-drop layouts are
 formatted

---
 src/BELLA/pdl_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index adea881..5100c79 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -29,6 +29,7 @@ Guidelines:
 """
 import sys
 import numpy as np
+import numpy.matlib
 
 sys.path.append(r'C:\BELLA')
 from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss
-- 
2.43.0


From cf8bbad368fe65e69ade213bf7f04ae318d21850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 96/98] fix: return the ply-drop layouts found when fewer than
 asked for exist

---
 src/BELLA/pdl_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index 86f556a..06f8827 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -289,11 +289,12 @@ Too many ply drops between two adjacent panels.""")
 
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, n_pdl_max):
+        n_found = min(n_pdl, ind_perfect + ind_imperfect)
+        for ind in range(ind_perfect, n_found):
             indexx = np.argmin(p_spacing_imperfect)
             pdl_perfect[ind] = pdl_imperfect[indexx]
             p_spacing_imperfect[indexx] = 10e6
 
-        return pdl_perfect
+        return pdl_perfect[:n_found]
     # if enough manufacturable ply drop layouts have been found
     return pdl_perfect
-- 
2.43.0


From 58309e65d30dc5cab0f4e46952a84f7f0d124d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:24 +0000
Subject: [PATCH 97/98] fix: no ply drop spacing penalty for panels with no ply
 in the laid out groups

---
 src/guidelines/ply_drop_spacing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/guidelines/ply_drop_spacing.py b/src/guidelines/ply_drop_spacing.py
index d8fdd5e..dac8b2a 100644
--- a/src/guidelines/ply_drop_spacing.py
+++ b/src/guidelines/ply_drop_spacing.py
@@ -131,6 +131,8 @@ def calc_penalty_spacing_1ss(ss, min_drop):
     - min_drop: minimum number of continuous plies required between two block
     of dropped plies
     """
+    if ss.size == 0: # no ply in the panels for these groups
+        return 0
     penal = 0
     # indentify index of the successive -1 elements in the array
     index1 = 0
-- 
2.43.0


From 158eed6163120df965a3efb28e538e9b383ea0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:00 +0000
Subject: [PATCH 98/98] fix: count the outermost plies in the violations of
 contiguity

---
 src/guidelines/contiguity.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/src/guidelines/contiguity.py b/src/guidelines/contiguity.py
index 12dbe7f..b54959f 100644
--- a/src/guidelines/contiguity.py
+++ b/src/guidelines/contiguity.py
@@ -308,14 +308,6 @@ def calc_penalty_contig_mp(ss, constraints):
     - constraints: set of constraints
 
     """
-    if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule'):
-            if constraints.dam_tol_rule in {2, 3}:
-                ss = [el[1:-1] for el in ss]
-        else:
-            if constraints.n_plies_dam_tol == 2:
-                ss = [el[1:-1] for el in ss]
-
     viola_contig = calc_matrix_viol_contig(ss, constraints.n_contig)
     return np.array([np.sum(el) for el in viola_contig]) # sum per panel
 
@@ -329,14 +321,6 @@ def calc_penalty_contig_ss(ss, constraints):
     - ss: panel stacking sequence
     - constraints: set of constraints
     """
-    if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule'):
-            if constraints.dam_tol_rule in {2, 3}:
-                ss = np.copy(ss)[1:-1]
-        else:
-            if constraints.n_plies_dam_tol == 2:
-                ss = np.copy(ss)[1:-1]
-
     return np.sum(calc_matrix_viol_contig([ss], constraints.n_contig))
 
 
-- 
2.43.0

