From f4865294c37182187f96dce948d0f2558564ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:50 +0000
Subject: [PATCH 01/70] fix: compute report coverage over the covergroups of
 all instances

The overall percentage was overwritten for each instance scope, so only the
covergroups of the last instance counted, and an instance with no covergroup
(or only zero-weight ones) failed with ZeroDivisionError.
---
 src/ucis/report/coverage_report_builder.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0a01b93..55fab71 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -35,22 +35,28 @@ class CoverageReportBuilder(object):
         for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
             self.build_covergroups(iscope)
             
+        # Total coverage considers the covergroups of all instances
+        coverage = 0.0
+        div = 0
+        
+        for cg in self.report.covergroups:
+            if cg.weight > 0:
+                coverage += cg.coverage * cg.weight
+            div += cg.weight
+            
+        if div > 0: coverage /= div
+        
+        self.report.coverage = coverage
+            
         return self.report
             
 
     def build_covergroups(self, iscope):
         
-        coverage = 0.0
-        div = 0
-        
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
             cg = self.build_covergroup(cg_t)
-            if cg.weight > 0:
-                coverage += cg.coverage * cg.weight
-            div += cg.weight
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
-        self.report.coverage = coverage/div
             
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
-- 
2.43.0


From 9506d9204015b79ba918585385a2f8ed35e6e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:06 +0000
Subject: [PATCH 02/70] fix: honour the weight of crosses in coverage reports

Crosses were always given weight 1 when computing covergroup coverage.
---
 src/ucis/report/coverage_report_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 55fab71..c1038b3 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -139,6 +139,7 @@ class CoverageReportBuilder(object):
 
     def build_cross(self, cr_n : Cross):
         cr_r = CoverageReport.Cross(cr_n.getScopeName())
+        cr_r.weight = cr_n.getWeight()
         
         # Read in bins
         num_hit = 0
-- 
2.43.0


From 13862eb88925619441bc26303449e30155c40c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 03/70] fix: use at_least as the goal of cross bins in coverage
 reports

A cross bin was listed as hit against a constant goal of 1, contradicting the
cross coverage, which is computed against at_least.
---
 src/ucis/report/coverage_report_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index c1038b3..6ac7c6e 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -152,7 +152,7 @@ class CoverageReportBuilder(object):
                 
             cr_r.bins.append(CoverageReport.CoverBin(
                     ci_n.getName(),
-                    cvg_data.goal,
+                    cvg_data.at_least,
                     cvg_data.data))
 
             total += 1
-- 
2.43.0


From 1c7823c10127d83166fbbd9bd1517410b098188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:10 +0000
Subject: [PATCH 04/70] fix: populate the name maps of report covergroups

coverpoint_m, cross_m and covergroup_m are documented, but were always empty.
---
 src/ucis/report/coverage_report_builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 6ac7c6e..4238f05 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -66,13 +66,17 @@ class CoverageReportBuilder(object):
         cg_r.weight = cg_n.getWeight()
         
         for cp_in in cg_n.scopes(ScopeTypeT.COVERPOINT):
-            cg_r.coverpoints.append(self.build_coverpoint(cp_in))
+            cg_r.add_coverpoint(self.build_coverpoint(cp_in))
             
         for cr_in in cg_n.scopes(ScopeTypeT.CROSS):
-            cg_r.crosses.append(self.build_cross(cr_in))
+            cr_r = self.build_cross(cr_in)
+            cg_r.crosses.append(cr_r)
+            cg_r.cross_m[cr_r.name] = cr_r
 
         for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):
-            cg_r.covergroups.append(self.build_covergroup(cg_in))
+            cg_i_r = self.build_covergroup(cg_in)
+            cg_r.covergroups.append(cg_i_r)
+            cg_r.covergroup_m[cg_i_r.instname] = cg_i_r
             
         # Determine the covergroup coverage
         coverage = 0.0
-- 
2.43.0


From 322285c315016dd6545f0c3e1894b422771d0590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:43 +0000
Subject: [PATCH 05/70] fix: JSON report of databases with crosses

report_cross called a method that does not exist, so any database with a
cross failed to report. Emit the cross coverage, and declare the crosses of
type covergroups in the report schema.
---
 src/ucis/report/format_rpt_json.py | 4 +---
 src/ucis/schema/covreport.json     | 5 +++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index c16acbf..362371e 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -131,9 +131,7 @@ class FormatRptJson(FormatIfRpt):
         
         cr_j = self._ns.Cross()
         cr_j.name = cr.name
-        cr_j.weight = cr.weight
-        
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        cr_j.coverage = cr.coverage
         
         if self.details:
             if cr.bins is not None:
diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 756c4e1..58e0e1a 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -42,6 +42,11 @@
 					"type": "array",
 					"items": { "$ref": "#/defs/coverpointType" }
 				},
+				"crosses": {
+					"description": "List of cross coverpoints",
+					"type": "array",
+					"items": { "$ref": "#/defs/crossType" }
+				},
 				"covergroups": {
 					"description": "List of instance covergroups",
 					"type": "array",
-- 
2.43.0


From ab3956680d04662b397af9bfd0d9e0fcf6eb6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:45 +0000
Subject: [PATCH 06/70] fix: emit coverpoint names in the JSON report

---
 src/ucis/report/format_rpt_json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index 362371e..9704833 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -100,6 +100,7 @@ class FormatRptJson(FormatIfRpt):
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
         
         cp_j = self._ns.Coverpoint()
+        cp_j.name = cp.name
         cp_j.coverage = cp.coverage
         
         if self.details:
-- 
2.43.0


From 093c6d9e3878702788050a988023c02c08b273c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:47 +0000
Subject: [PATCH 07/70] fix: emit the goal of bins in the JSON report

The report schema documents it, and without it a consumer cannot tell which
bins are covered.
---
 src/ucis/report/format_rpt_json.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index 9704833..9db9511 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -109,6 +109,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.bins.append(b_j)
             if cp.ignore_bins is not None and len(cp.ignore_bins) > 0:
@@ -116,6 +117,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.ignore_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.ignorebins.append(b_j)
             if cp.illegal_bins is not None and len(cp.illegal_bins) > 0:
@@ -123,6 +125,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.illegal_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.illegalbins.append(b_j)
 
@@ -140,6 +143,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cr.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cr_j.bins.append(b_j)
 
-- 
2.43.0


From a6a68266135744500a956eadd125ac2dc0e234c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 08/70] fix: do not round coverpoint and cross percentages to
 integers in text reports

A coverpoint with 99.6% of its bins covered was reported as 100.000000%,
while its covergroup, rounded to two digits, was not.
---
 src/ucis/report/format_rpt_text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/report/format_rpt_text.py b/src/ucis/report/format_rpt_text.py
index 1e017c0..c9d75ab 100644
--- a/src/ucis/report/format_rpt_text.py
+++ b/src/ucis/report/format_rpt_text.py
@@ -54,7 +54,7 @@ class FormatRptText(FormatIfRpt):
                 self.report_covergroup(cg_i, True)
             
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
-        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage))
+        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage, 2))
         
         if self.details:
             self.writeln("Bins:")
@@ -70,7 +70,7 @@ class FormatRptText(FormatIfRpt):
                     self.report_bins(cp.illegal_bins)
 
     def report_cross(self, cr : CoverageReport.Cross):
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage, 2))
         
         if self.details:
             self.writeln("Bins:")
-- 
2.43.0


From 482f101fb3afcc8762b31d7d078844f5f1930b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:14 +0000
Subject: [PATCH 09/70] fix: merge same-named scopes of one source instead of
 dropping all but the last

The merger kept one scope per name and source, so when a source holds several
instances, covergroups, covergroup instances or coverpoints with the same name
(the XML reader creates one covergroup per covergroupCoverage section) the
counts of all but the last were lost.
---
 src/ucis/merge/db_merger.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 1b9ee9b..40d221c 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -33,21 +33,18 @@ class DbMerger(object):
         iscope_m : Dict[str, List[object]] = {}
         iscope_name_l = []
 
-        for i,db in enumerate(src_db_l):
+        for db in src_db_l:
             for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
-                    scope_l = [None]*len(src_db_l)
-                    scope_l[i] = src_iscope
-                    iscope_m[name] = scope_l
+                    iscope_m[name] = []
                     iscope_name_l.append(name)
-                else:
-                    iscope_m[name][i] = src_iscope
+                iscope_m[name].append(src_iscope)
             
         for name in iscope_name_l:
             # We'll create the scope using the first src database
             # that it was in
-            src_scopes = list(filter(lambda e: e is not None, iscope_m[name]))
+            src_scopes = iscope_m[name]
             
             src_iscope = src_scopes[0]
             
@@ -81,18 +78,17 @@ class DbMerger(object):
         cg_name_m : Dict[str,List] = {}
         cg_name_l = []
       
-        for i,src_scope in enumerate(src_scopes): 
+        for src_scope in src_scopes: 
             for src_cg in src_scope.scopes(ScopeTypeT.COVERGROUP):
                 name = src_cg.getScopeName()
                 
                 if name not in cg_name_m.keys():
-                    scope_l = [None]*len(src_scopes)
-                    cg_name_m[name] = scope_l
+                    cg_name_m[name] = []
                     cg_name_l.append(name)
-                cg_name_m[name][i] = src_cg
+                cg_name_m[name].append(src_cg)
 
         for name in cg_name_l:                
-            src_cg_l = list(filter(lambda cg: cg is not None, cg_name_m[name]))
+            src_cg_l = cg_name_m[name]
             
             # Create the destination using the first covergroup
             dst_cg = dst_scope.createCovergroup(
@@ -115,18 +111,18 @@ class DbMerger(object):
         cg_i_m = {}
         cg_n_l = []
         
-        for i,src_cg in enumerate(src_cg_l):
+        for src_cg in src_cg_l:
             
             for src_cg_i in src_cg.scopes(ScopeTypeT.COVERINSTANCE):
                 name = src_cg_i.getScopeName()
                 
                 if name not in cg_i_m.keys():
-                    cg_i_m[name] = [None]*len(src_cg_l)
+                    cg_i_m[name] = []
                     cg_n_l.append(name)
-                cg_i_m[name][i] = src_cg_i
+                cg_i_m[name].append(src_cg_i)
                 
         for name in cg_n_l:
-            src_cg_i_l = list(filter(lambda cg : cg is not None, cg_i_m[name]))
+            src_cg_i_l = cg_i_m[name]
             
             dst_cg_i = dst_cg.createCoverInstance(
                         name,
@@ -142,18 +138,17 @@ class DbMerger(object):
         cp_name_m : Dict[str,List] = {}
         cp_name_l = []
         
-        for i,src_cg in enumerate(src_cg_l):
+        for src_cg in src_cg_l:
             for cp in src_cg.scopes(ScopeTypeT.COVERPOINT):
                 name = cp.getScopeName()
                 
                 if name not in cp_name_m.keys():
-                    scope_l = [None]*len(src_cg_l)
-                    cp_name_m[name] = scope_l
+                    cp_name_m[name] = []
                     cp_name_l.append(name)
-                cp_name_m[name][i] = cp
+                cp_name_m[name].append(cp)
                 
         for name in cp_name_l:
-            src_cp_l = list(filter(lambda cp : cp is not None, cp_name_m[name]))
+            src_cp_l = cp_name_m[name]
             
             dst_cp = dst_cg.createCoverpoint(
                 src_cp_l[0].getScopeName(),
-- 
2.43.0


From a588e20b317f70e3ecb7bc5323ad1bc7b965a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 10/70] fix: report the missing coverpoint by name when a cross
 cannot be merged

The error message was built with a method scopes do not have.
---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 40d221c..b06d580 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -209,7 +209,7 @@ class DbMerger(object):
                     coverpoint_l.append(dst_cp_m[src_cp.getScopeName()])
                 else:
                     raise Exception("Cannot find coverpoint %s when creating cross %s" % (
-                        src_cp.getName(), name))
+                        src_cp.getScopeName(), name))
 
             dst_cr = dst_cg.createCross(
                 name,
-- 
2.43.0


From 1e90ea7a344d4bb5965ea37eaa2ab2c7839d35f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:30 +0000
Subject: [PATCH 11/70] fix: give CoverData a default at_least

Only Coverpoint.createBin set it: reporting on or merging a database whose
bins were created with createNextCover / ucis_CreateNextCover failed with
AttributeError.
---
 src/ucis/cover_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/cover_data.py b/src/ucis/cover_data.py
index 62314ac..2a7f4a4 100644
--- a/src/ucis/cover_data.py
+++ b/src/ucis/cover_data.py
@@ -14,6 +14,7 @@ class CoverData():
         self.flags = flags
         # TODO: determine default data based on flags
         self.data = 0
+        self.at_least = 1
         self.goal = 0 # if UCIS_HAS_GOAL
         self.weight = 0 # if UCIS_HAS_WEIGHT
         self.limit = 0 # if UCIS_HAS_LIMIT
-- 
2.43.0


From dc9eb1c72e030594f9a78fc529062667bd13d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 12/70] fix: copy the cover data passed to createNextCover

The cover item kept the caller's object: items created from one reused
CoverData (as the UCIS examples do) shared a single count.
---
 src/ucis/mem/mem_scope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_scope.py b/src/ucis/mem/mem_scope.py
index 7dde27e..d2b0b7e 100644
--- a/src/ucis/mem/mem_scope.py
+++ b/src/ucis/mem/mem_scope.py
@@ -20,6 +20,7 @@ Created on Jan 8, 2020
 @author: ballance
 '''
 
+import copy
 from typing import Iterator, List
 from ucis.int_property import IntProperty
 from ucis.cover_data import CoverData
@@ -139,7 +140,8 @@ class MemScope(MemObj,Scope):
         name:str, 
         data:CoverData, 
         sourceinfo:SourceInfo)->CoverIndex:
-        ret = MemCoverIndex(name, data, sourceinfo)
+        # Take a copy, so that the caller may reuse its data object
+        ret = MemCoverIndex(name, copy.copy(data), sourceinfo)
         self.m_cover_items.append(ret)
         return ret
 
-- 
2.43.0


From bbfd826e930e58e4dd6b7a58189cded9a097430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 13/70] fix: the comment string property of in-memory
 covergroup scopes

MemObj's placeholder shadowed CvgScope's handling of StrProperty.COMMENT, so
setting it was silently ignored and reading it returned None.
---
 src/ucis/mem/mem_cvg_scope.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ucis/mem/mem_cvg_scope.py b/src/ucis/mem/mem_cvg_scope.py
index 310fde9..7358c93 100644
--- a/src/ucis/mem/mem_cvg_scope.py
+++ b/src/ucis/mem/mem_cvg_scope.py
@@ -5,6 +5,7 @@ Created on Jan 12, 2020
 '''
 from ucis.mem.mem_scope import MemScope
 from ucis.cvg_scope import CvgScope
+from ucis.str_property import StrProperty
 
 class MemCvgScope(MemScope,CvgScope):
     
@@ -56,4 +57,23 @@ class MemCvgScope(MemScope,CvgScope):
     
     def setComment(self, c:str):
         self.m_comment = c
+    
+    def getStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty) -> str:
+        if property == StrProperty.COMMENT:
+            return self.getComment()
+        else:
+            return super().getStringProperty(coverindex, property)
+    
+    def setStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty,
+            value : str):
+        if property == StrProperty.COMMENT:
+            self.setComment(value)
+        else:
+            super().setStringProperty(coverindex, property, value)
         
-- 
2.43.0


From 6f81bfc31008f1c2bdf43296b5f68aeb5a42620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:55 +0000
Subject: [PATCH 14/70] fix: the TEST_STATUS property of in-memory history
 nodes

It is a ucisTestStatusT, but any status read back as 1 (OK), so failing tests
looked as if they passed, and writing it kept only a boolean.
---
 src/ucis/mem/mem_history_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 11fb9f9..a7e20ae 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -67,7 +67,7 @@ class MemHistoryNode(HistoryNode):
         coverindex:int, 
         property:IntProperty)-> int:
         if property == IntProperty.TEST_STATUS:
-            return 1 if self.m_test_status else 0
+            return int(self.m_test_status)
         else:
             return super().getIntProperty(coverindex, property)
         
@@ -77,7 +77,7 @@ class MemHistoryNode(HistoryNode):
         property:IntProperty, 
         value:int):
         if property == IntProperty.TEST_STATUS:
-            self.m_test_status = (value==1)
+            self.m_test_status = TestStatusT(value)
         else:
             super().setIntProperty(coverindex, property, value)
     
-- 
2.43.0


From e791317af1238b290c20b54b8b10cf559d9c9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 15/70] fix: do not write failing tests as passing to XML

All values of TestStatusT are true, so testStatus was always written as true.
---
 src/ucis/xml/xml_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 722670a..e8f7450 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -33,6 +33,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
@@ -108,7 +109,7 @@ class XmlWriter():
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-            self.setAttrBool(histN, "testStatus", h.getTestStatus())
+            self.setAttrBool(histN, "testStatus", h.getTestStatus() == TestStatusT.OK)
             self.setIfNonNeg(histN, "simtime", h.getSimTime())
             self.setIfNonNull(histN, "timeunit", h.getTimeUnit())
             self.setIfNonNull(histN, "runCwd", h.getRunCwd())
-- 
2.43.0


From e49b9cfb67a6bff59e77c7b49bcc25a05554b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 16/70] fix: accept 1 as a true XML boolean

xsd:boolean allows it; a test with testStatus="1" was read as failing.
---
 src/ucis/xml/xml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c51da9a..a48cb25 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -464,7 +464,7 @@ class XmlReader():
             return default
         
     def getAttrBool(self, e, name):
-        if e.attrib[name] == "true":
+        if e.attrib[name] in ("true", "1"):
             return True
         else:
             return False
-- 
2.43.0


From b6f8e823415938cd0b571932b4b96cd69385d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 17/70] fix: do not convert dates through the local time zone
 when writing XML

A date in a daylight-saving gap was shifted by an hour.
---
 src/ucis/xml/xml_writer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index e8f7450..b55125e 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -317,8 +317,7 @@ class XmlWriter():
             e.set(name, "false")
 
     def setAttrDateTime(self, e, name, val):
-        val_i = time.mktime(datetime.strptime(val, "%Y%m%d%H%M%S").timetuple())
-        self.setAttr(e, name, datetime.fromtimestamp(val_i).isoformat())
+        self.setAttr(e, name, datetime.strptime(val, "%Y%m%d%H%M%S").isoformat())
             
     def setIfNonNull(self, n, attr, val):
         if val is not None:
-- 
2.43.0


From 2429c066be82e74dc0911998c5cd1928b77db103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 18/70] fix: read XML dates with fractional seconds or a time
 zone

xsd:dateTime allows them, but a valid document with one was rejected.
---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index a48cb25..a400d2f 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -454,7 +454,8 @@ class XmlReader():
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
         val = e.get(name)
-        dateVal = datetime.strptime(val,"%Y-%m-%dT%H:%M:%S")
+        # xsd:dateTime allows fractional seconds and a time zone
+        dateVal = datetime.fromisoformat(val.strip().replace("Z", "+00:00"))
         return dateVal.strftime("%Y%m%d%H%M%S")
     
     def getAttr(self, node, name, default):
-- 
2.43.0


From 15a856a3e64a633401da36d84beadbad4be6d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 19/70] fix: default date of in-memory history nodes

Dates are strings in UCIS YYYYMMDDHHMMSS format (see ucis_Time and TestData).
The default was an integer timestamp, so writing a database with a history
node whose date was not set explicitly failed.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index a7e20ae..f3fbcc7 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -48,7 +48,7 @@ class MemHistoryNode(HistoryNode):
         self.m_cmd = None
         self.m_args = None
         self.m_compulsory = None
-        self.m_date = int(datetime.timestamp(datetime.now()))
+        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")
         self.m_user_name = None
         self.m_cost = -1
         self.m_tool_category = "unknown"
-- 
2.43.0


From 2054c3bb3742366a026b5bdc8a42e796bd88e570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:50 +0000
Subject: [PATCH 20/70] fix: read back the kind of XML history nodes

The kind was left as the text of the attribute, so historyNodes(TEST) found
none of the tests of a database read from XML.
---
 src/ucis/xml/xml_reader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index a400d2f..aef6f25 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -33,6 +33,7 @@ from ucis import UCIS_ENABLED_STMT, UCIS_ENABLED_BRANCH, UCIS_ENABLED_COND, \
     UCIS_ENABLED_EXPR, UCIS_ENABLED_FSM, UCIS_ENABLED_TOGGLE, UCIS_INST_ONCE, \
     UCIS_SCOPE_UNDER_DU, UCIS_DU_MODULE, UCIS_OTHER, du_scope, UCIS_INSTANCE,\
     UCIS_CVGBIN, UCIS_IGNOREBIN, UCIS_ILLEGALBIN
+from ucis.history_node_kind import HistoryNodeKind
 from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
@@ -96,7 +97,7 @@ class XmlReader():
         parent = None
         logicalname = histN.get("logicalName")
         physicalname = self.getAttr(histN, "physicalName", None)
-        kind = self.getAttr(histN, "kind", None)
+        kind = self.getHistoryNodeKind(histN)
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
         ret.setTestStatus(self.getAttrBool(histN, "testStatus"))
@@ -458,6 +459,14 @@ class XmlReader():
         dateVal = datetime.fromisoformat(val.strip().replace("Z", "+00:00"))
         return dateVal.strftime("%Y%m%d%H%M%S")
     
+    def getHistoryNodeKind(self, histN):
+        """Converts the kind, as written by XmlWriter, to HistoryNodeKind"""
+        val = self.getAttr(histN, "kind", None)
+        for kind in HistoryNodeKind:
+            if val in (str(int(kind)), "HistoryNodeKind." + kind.name):
+                return kind
+        return val
+    
     def getAttr(self, node, name, default):
         if name in node.attrib:
             return node.attrib[name]
-- 
2.43.0


From 2dfefe9c92f34f1e500c2955dbabb8a7bbb1d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:31 +0000
Subject: [PATCH 21/70] fix: preserve weight and at_least in XML

The XML documentation lists weight and at_least as the options PyUCIS
interprets and records. They were neither written nor read, so converting or
merging a database changed its coverage: every bin hit at least once counted
as covered, and all weights became 1.
---
 src/ucis/xml/xml_reader.py | 56 ++++++++++++++++++++++----------------
 src/ucis/xml/xml_writer.py | 10 +++++--
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index aef6f25..fae2afe 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -182,7 +182,7 @@ class XmlReader():
             cg_typescope = inst_scope.createCovergroup(
                 cg_typename,
                 None,
-                1,
+                int(self.getAttr(cg, "weight", 1)),
                 UCIS_OTHER)
 
             # Process all instances of a given covergroup type
@@ -202,7 +202,7 @@ class XmlReader():
             cg_i = cg_t.createCoverInstance(
                 cg_i_name, 
                 srcinfo,
-                1,
+                self.getOptionInt(cg_e, "weight", 1),
                 UCIS_OTHER)
 
             # Build up a map of coverpoint name/inst-handle refs
@@ -217,12 +217,12 @@ class XmlReader():
                     cp_t = cg_t.createCoverpoint(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOptionInt(cp_e, "weight", 1),
                         UCIS_OTHER)
 
-                    # Tuple of coverpoint type and map between
-                    # bin name and count
-                    cp_i = (cp_t, {})
+                    # Tuple of coverpoint type, map between
+                    # bin name and count, and at_least
+                    cp_i = (cp_t, {}, self.getOptionInt(cp_e, "at_least", 1))
                     cp_m[cp_name] = cp_i
                 else:
                     # Already-known coverpoint. Only create
@@ -250,11 +250,11 @@ class XmlReader():
                     cr_t = cg_t.createCross(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOptionInt(cr_e, "weight", 1),
                         UCIS_OTHER,
                         cp_l)
 
-                    cr_i = (cr_t, {})
+                    cr_i = (cr_t, {}, self.getOptionInt(cr_e, "at_least", 1))
                     cr_m[cp_name] = cr_i
                 else:
                     # Already-known crosspoint. Only create
@@ -265,13 +265,11 @@ class XmlReader():
 
         # Now, create the type info
         for cp_name in cp_m.keys():
-            self.populateCoverpointType(cp_m[cp_name][0], cp_m[cp_name][1])
+            self.populateCoverpointType(*cp_m[cp_name])
 
         # Now, create the cross type info
         for cr_name in cr_m.keys():
-            self.populateCrossType(
-                cr_m[cr_name][0],
-                cr_m[cr_name][1])
+            self.populateCrossType(*cr_m[cr_name])
 
         pass
                 
@@ -281,15 +279,16 @@ class XmlReader():
         cp = cg_i.createCoverpoint(
             self.getAttr(cp_e, "name", "<unknown>"),
             srcinfo,
-            1, # weight
+            self.getOptionInt(cp_e, "weight", 1),
             UCIS_OTHER)
+        at_least = self.getOptionInt(cp_e, "at_least", 1)
         
         for cpBin in cp_e.iter("coverpointBin"):
-            self.readCoverpointBin(cpBin, cp, cp_type_i)
+            self.readCoverpointBin(cpBin, cp, cp_type_i, at_least)
             
         return cp
             
-    def readCoverpointBin(self, cpBin : Element, cp, cp_type_i):
+    def readCoverpointBin(self, cpBin : Element, cp, cp_type_i, at_least):
         srcinfo = None
 
         seq = next(cpBin.iter("sequence"),None)
@@ -326,19 +325,19 @@ class XmlReader():
         cp.createBin(
             cp_bin_name,
             srcinfo,
-            1,
+            at_least,
             cp_bin_count,
             self.getAttr(cpBin, "name", "default"),
             kind)
         
-    def populateCoverpointType(self, cp_t, cp_bin_m):
+    def populateCoverpointType(self, cp_t, cp_bin_m, at_least):
         srcinfo = None
 
         for bin_name,(kind,count) in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-                1,
+                at_least,
                 count,
                 bin_name,
                 kind)
@@ -360,16 +359,17 @@ class XmlReader():
         cr = cg_i.createCross(
             name,
             srcinfo,
-            1, # weight
+            self.getOptionInt(cr_e, "weight", 1),
             UCIS_OTHER,
             cp_l)
+        at_least = self.getOptionInt(cr_e, "at_least", 1)
         
         for crb_e in cr_e.iter("crossBin"):
-            self.readCrossBin(crb_e, cr, cr_type_i)
+            self.readCrossBin(crb_e, cr, cr_type_i, at_least)
         
         return cr
 
-    def populateCrossType(self, cr_t, cr_bin_m):
+    def populateCrossType(self, cr_t, cr_bin_m, at_least):
         srcinfo = None
 
         for bin_name,count in cr_bin_m.items():
@@ -377,12 +377,12 @@ class XmlReader():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
-                1, # weight
+                at_least,
                 count,
                 "") # TODO:
         pass
     
-    def readCrossBin(self, crb_e, cr, cr_type_i):
+    def readCrossBin(self, crb_e, cr, cr_type_i, at_least):
         name = self.getAttr(crb_e, "name", "default")
         srcinfo = None
         contentsN = next(crb_e.iter("contents"))
@@ -397,7 +397,7 @@ class XmlReader():
         cr.createBin(
             name,
             srcinfo,
-            1, # weight
+            at_least,
             count,
             "") # TODO:
 
@@ -479,6 +479,14 @@ class XmlReader():
         else:
             return False
         
+    def getOptionInt(self, e, name, default):
+        """Gets the value of an option of a covergroup instance, coverpoint or cross"""
+        options = e.find("options")
+        if options is not None and name in options.attrib:
+            return int(options.attrib[name])
+        else:
+            return default
+        
     def getAttrInt(self, e, name):
         return int(e.attrib[name])
         
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index b55125e..2f90f88 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -173,7 +173,7 @@ class XmlWriter():
     def write_covergroups(self, inst, scope):
         for cg in scope.scopes(ScopeTypeT.COVERGROUP):
             cgElem = self.mkElem(inst, "covergroupCoverage")
-#            self.setAttr(cgElem, "weight", str(scope.getWeight()))
+            self.setAttr(cgElem, "weight", str(cg.getWeight()))
 
             inst_it = cg.scopes(ScopeTypeT.COVERINSTANCE)
             
@@ -290,7 +290,13 @@ class XmlWriter():
             
     
     def write_options(self, parent, opts_item):
-        self.mkElem(parent, "options")
+        optsElem = self.mkElem(parent, "options")
+        self.setAttr(optsElem, "weight", str(opts_item.getWeight()))
+        
+        # Bins hold the at_least value of their coverpoint or cross
+        cov_bin = next(opts_item.coverItems(CoverTypeT.CVGBIN), None)
+        if cov_bin is not None:
+            self.setAttr(optsElem, "at_least", str(cov_bin.getCoverData().at_least))
         
 
     def write_statement_id(self, stmt_id : StatementId, p, name="id"):
-- 
2.43.0


From ed173477935bf4b8393916a8eaa84cb4b204be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 22/70] fix: keep bins of different kinds apart in type
 coverage read from XML

When a coverpoint had, for instance, a regular and an illegal bin of the same
name, the hits of both were counted as hits of the first.
---
 src/ucis/xml/xml_reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index fae2afe..fffe3e3 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -316,11 +316,12 @@ class XmlReader():
         cp_bin_name = self.getAttr(cpBin, "name", "<unknown>")
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
-        if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count)
+        # Bins of different kinds are distinct, even if their names match
+        cp_bin_key = (cp_bin_name, kind)
+        if cp_bin_key not in cp_type_i[1].keys():
+            cp_type_i[1][cp_bin_key] = cp_bin_count
         else:
-            entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)
+            cp_type_i[1][cp_bin_key] += cp_bin_count
         
         cp.createBin(
             cp_bin_name,
@@ -333,7 +334,7 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m, at_least):
         srcinfo = None
 
-        for bin_name,(kind,count) in cp_bin_m.items():
+        for (bin_name,kind),count in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-- 
2.43.0


From 6673252e564283a1083b10f4a9e2a5ba0d6f36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 23/70] fix: preserve ignore and illegal cross bins in XML

All cross bins were written, and read back, as regular bins, so that ignored
and illegal ones counted in the coverage of a converted or merged database.
---
 src/ucis/xml/xml_reader.py | 24 +++++++++++++++++-------
 src/ucis/xml/xml_writer.py |  7 ++++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index fffe3e3..2b11f93 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -373,14 +373,14 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m, at_least):
         srcinfo = None
 
-        for bin_name,count in cr_bin_m.items():
-            cr_t.createBin
+        for (bin_name,kind),count in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
                 at_least,
                 count,
-                "") # TODO:
+                "", # TODO:
+                kind)
         pass
     
     def readCrossBin(self, crb_e, cr, cr_type_i, at_least):
@@ -390,17 +390,27 @@ class XmlReader():
 
         count = self.getAttrInt(contentsN, "coverageCount")
 
-        if name in cr_type_i[1].keys():
-            cr_type_i[1][name] += count
+        # The schema does not restrict the type of cross bins
+        kind_a = self.getAttr(crb_e, "type", "default")
+        if kind_a == "ignore":
+            kind = UCIS_IGNOREBIN
+        elif kind_a == "illegal":
+            kind = UCIS_ILLEGALBIN
+        else:
+            kind = UCIS_CVGBIN
+
+        if (name, kind) in cr_type_i[1].keys():
+            cr_type_i[1][(name, kind)] += count
         else:
-            cr_type_i[1][name] = count
+            cr_type_i[1][(name, kind)] = count
 
         cr.createBin(
             name,
             srcinfo,
             at_least,
             count,
-            "") # TODO:
+            "", # TODO:
+            kind)
 
         
 
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 2f90f88..aa84890 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -280,7 +280,12 @@ class XmlWriter():
             crBinElem = self.mkElem(crossElem, "crossBin")
             self.setAttr(crBinElem, "name", cr_bin.getName())
             self.setAttr(crBinElem, "key", "0")
-            self.setAttr(crBinElem, "type", "default") # TOOD: illegal, ignore
+            if cov_data.type == CoverTypeT.IGNOREBIN:
+                self.setAttr(crBinElem, "type", "ignore")
+            elif cov_data.type == CoverTypeT.ILLEGALBIN:
+                self.setAttr(crBinElem, "type", "illegal")
+            else:
+                self.setAttr(crBinElem, "type", "default")
             
             index = self.mkElem(crBinElem, "index")
             index.text = "-1" # Note: this is a meaningless value
-- 
2.43.0


From 2d97f120113ee09a8a3732e6ffd3b81db501d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 24/70] fix: read crosses of coverpoints with whitespace around
 their name

XmlWriter writes the name of a crossed coverpoint as it is, but the reader
stripped it, and then failed to find the coverpoint. An empty crossExpr
failed with AttributeError.
---
 src/ucis/xml/xml_reader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 2b11f93..76068a8 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -238,7 +238,7 @@ class XmlReader():
                 if cp_name not in cr_m.keys():
                     cp_l = []
                     for crossExpr in cr_e.iter("crossExpr"):
-                        cp_n = crossExpr.text.strip()
+                        cp_n = self.getCrossExpr(crossExpr, cp_m)
                         logging.debug("cp_n=\"" + cp_n + "\"")
                         if cp_n in cp_m.keys():
                             cp_l.append(cp_m[cp_n][0])
@@ -348,7 +348,7 @@ class XmlReader():
         
         cp_l = []
         for crossExpr in cr_e.iter("crossExpr"):
-            cp_n = crossExpr.text.strip()
+            cp_n = self.getCrossExpr(crossExpr, cp_m)
             logging.debug("cp_n=\"" + cp_n + "\"")
             if cp_n in cp_m.keys():
                 cp_l.append(cp_m[cp_n])
@@ -490,6 +490,14 @@ class XmlReader():
         else:
             return False
         
+    def getCrossExpr(self, crossExpr, cp_m):
+        """Gets the name of a crossed coverpoint"""
+        cp_n = crossExpr.text if crossExpr.text is not None else ""
+        
+        # Whitespace around the name is insignificant,
+        # unless it is part of the coverpoint's name 
+        return cp_n if cp_n in cp_m.keys() else cp_n.strip()
+    
     def getOptionInt(self, e, name, default):
         """Gets the value of an option of a covergroup instance, coverpoint or cross"""
         options = e.find("options")
-- 
2.43.0


From b2eb92a4579e587cde3853293185f3411e7477af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:56 +0000
Subject: [PATCH 25/70] fix: let the XML parser determine the encoding of the
 files it reads

Files were decoded with the encoding of the locale, whatever encoding the
document declares, so that e.g. ISO-8859-1 and UTF-16 documents could not be
read, and UTF-8 ones only in a UTF-8 locale.
---
 src/ucis/xml/__init__.py    | 2 +-
 src/ucis/xml/xml_factory.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index a5d41a2..15b7456 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -39,7 +39,7 @@ def validate_ucis_xml(file_or_filename):
     
     if type(file_or_filename) == str:
         logging.debug("open file")
-        fp = open(file_or_filename, "r")
+        fp = open(file_or_filename, "rb")
     else:
         fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 5f9f0d5..343a722 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -38,16 +38,16 @@ class XmlFactory():
             except ImportError:
                 logging.fatal("Cannot read gzip compressed files since module gzip is not available")
             else:
-                return gzip.open(file_path, 'rt')
+                return gzip.open(file_path, 'rb')
         elif magic0 == b'\x04\x22' and magic1 == b'\x4d\x18':
             try:
                 import lz4.frame
             except ImportError:
                 logging.fatal("Cannot read LZ4 compressed files since module lz4.frame is not available")
             else:
-                return lz4.frame.open(file_path, 'rt')
+                return lz4.frame.open(file_path, 'rb')
         else:
-            return open(file_path, "r")
+            return open(file_path, "rb")
 
     @staticmethod
     def read(file_or_filename) -> UCIS:
-- 
2.43.0


From b6a6789b3c891cbd4458cc717462611e2c095e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:58 +0000
Subject: [PATCH 26/70] fix: always write XML files in UTF-8

The document has no XML declaration and hence is UTF-8, but it was encoded
with the encoding of the locale.
---
 src/ucis/xml/xml_factory.py | 2 +-
 src/ucis/xml/xml_ucis.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 343a722..8394d09 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -84,7 +84,7 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w")
+            fp = open(file_or_filename, "w", encoding="utf-8")
         else:
             fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 46eb10e..4bba212 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -8,5 +8,5 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
-        with open(file, "w") as fp:
+        with open(file, "w", encoding="utf-8") as fp:
             writer.write(fp, self)
-- 
2.43.0


From fe940a4c11cd478beb78b96ab796b0c418449a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 27/70] fix: do not truncate the destination of a failing XML
 write

A database that cannot be written as XML (e.g. with control characters in a
name) emptied the existing file before failing.
---
 src/ucis/xml/xml_factory.py | 15 ++++++++-------
 src/ucis/xml/xml_ucis.py    |  7 ++++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 8394d09..4dff83d 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -20,6 +20,7 @@ Created on Jan 5, 2020
 
 @author: ballance
 '''
+from io import StringIO
 from ucis import UCIS
 from ucis.xml.xml_writer import XmlWriter
 from ucis.xml import validate_ucis_xml
@@ -84,12 +85,12 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w", encoding="utf-8")
+            # Don't touch the file until there is something to write
+            buf = StringIO()
+            writer.write(buf, db)
+            
+            with open(file_or_filename, "w", encoding="utf-8") as fp:
+                fp.write(buf.getvalue())
         else:
-            fp = file_or_filename
-        
-        writer.write(fp, db)
-        
-        if type(file_or_filename) == str:
-            fp.close()
+            writer.write(file_or_filename, db)
             
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 4bba212..8a8c7e0 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -1,4 +1,5 @@
 
+from io import StringIO
 from ucis.mem import MemUCIS
 from .xml_writer import XmlWriter
 
@@ -8,5 +9,9 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
+        # Don't touch the file until there is something to write
+        buf = StringIO()
+        writer.write(buf, self)
+
         with open(file, "w", encoding="utf-8") as fp:
-            writer.write(fp, self)
+            fp.write(buf.getvalue())
-- 
2.43.0


From 33c91e17f9da803319931d88d6a5eedafe4d386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 28/70] fix: exit with a non-zero status when a command fails

---
 src/ucis/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/__main__.py b/src/ucis/__main__.py
index a87ca6a..628c5e8 100644
--- a/src/ucis/__main__.py
+++ b/src/ucis/__main__.py
@@ -88,6 +88,7 @@ def main():
     except Exception as e:
         traceback.print_exc()
         print("Error: %s" % "{0}".format(e))
+        sys.exit(1)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From d04be28e297237e240c7de015d767f38f77f7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 29/70] fix: keep ignore and illegal bins out of the regular
 bins of YAML type coverage

They were added to the regular bins of the type coverpoint, and hence counted
in its coverage.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index aba3b0f..acc3fdd 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -163,7 +163,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.ignorebins.append(t_b)
                                 t_b.count += b.count
                                 
                         if cp.illegalbins is not None:
@@ -180,7 +180,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.illegalbins.append(t_b)
                                 t_b.count += b.count
                         
                 if cg_i.crosses is not None:
-- 
2.43.0


From 5e34dd493cbc9e84144b0cc06a53c62d052a234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 30/70] fix: honour atleast in YAML type coverage

The type coverpoints and crosses built from the instances ignored it, so any
bin with a single hit was covered.
---
 src/ucis/yaml/yaml_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index acc3fdd..3ba34d7 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -126,6 +126,8 @@ class YamlReader(object):
                         if str(cp.name) not in cp_t_m.keys():
                             cp_t = self.cvg_ns.Coverpoint()
                             cp_t.name = str(cp.name)
+                            if cp.atleast is not None:
+                                cp_t.atleast = cp.atleast
                             cp_t_m[cp_t.name] = cp_t
                             cp_t_l.append(cp_t)
                         else:
@@ -191,6 +193,8 @@ class YamlReader(object):
                         if str(cr.name) not in cr_t_m.keys():
                             cr_t = self.cvg_ns.Cross()
                             cr_t.name = str(cr.name)
+                            if cr.atleast is not None:
+                                cr_t.atleast = cr.atleast
                             cr_t.coverpoints = []
                             for cr_cp in cr.coverpoints:
                                 cr_t.coverpoints.append(cr_cp)
-- 
2.43.0


From 915e6fdd7864bf3072fffe26c6cd77918853ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:03 +0000
Subject: [PATCH 31/70] fix: read YAML crosses whose first instance has no bins

Adding the bins of a later instance to the type cross failed.
---
 src/ucis/yaml/yaml_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 3ba34d7..59ca23a 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -202,8 +202,7 @@ class YamlReader(object):
                             cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)
                             cr_t_l.append(cr_t)
                             
-                            if cr.bins is not None:
-                                cr_t.bins = []
+                            cr_t.bins = []
                         else:
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
-- 
2.43.0


From 2869d32ccd414de1398f789d064f0bd09bbcaecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 32/70] fix: read YAML covergroups that have no instances

They are valid, and only meant to cause a warning. Also start each instance
with no coverpoints: a cross must not refer to another instance's.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 59ca23a..1e80590 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -248,8 +248,8 @@ class YamlReader(object):
             self.record_cross(cg_t_scope, cp_l, cr)
 
         # Now, write out instances
-        cp_n_scope_m = {}
-        for i in cg_t.instances:
+        for i in (cg_t.instances if cg_t.instances is not None else []):
+            cp_n_scope_m = {}
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0


From c8fb00d5c9437a76ad8097001ef04719d2ca37d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 33/70] fix: record counts read from YAML as integers

The bins held the property objects of the parsed document instead.
---
 src/ucis/yaml/yaml_reader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 1e80590..4beda9b 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -283,7 +283,7 @@ class YamlReader(object):
             
         at_least = 1
         if cp.atleast is not None:
-            at_least = cp.atleast
+            at_least = int(cp.atleast)
             
         cp_scope = cp_parent_s.createCoverpoint(
             str(cp.name),
@@ -297,7 +297,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.CVGBIN)
                 
@@ -307,7 +307,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.IGNOREBIN)
                 
@@ -317,7 +317,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.ILLEGALBIN)
                 
@@ -332,7 +332,7 @@ class YamlReader(object):
             
         at_least = 1
         if cr.atleast is not None:
-            at_least = cr.atleast
+            at_least = int(cr.atleast)
             
         cr_scope = cp_parent_s.createCross(
             str(cr.name),
@@ -347,7 +347,7 @@ class YamlReader(object):
                     str(b.name),
                     cr_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name))
                     
         return cr_scope
-- 
2.43.0


From 5925e488707cad694a60239e0bf3b3942dd48823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 34/70] fix: read YAML documents without a coverage section

The schema does not require it, but reading one failed with AttributeError.
---
 src/ucis/yaml/yaml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 4beda9b..68da978 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -98,7 +98,7 @@ class YamlReader(object):
 
         coverage = coverage.coverage
         
-        if coverage.covergroups is not None:
+        if coverage is not None and coverage.covergroups is not None:
             for cg_t in coverage.covergroups:
                 self.process_covergroup(cg_t)
                 
-- 
2.43.0


From 6723f91fc22bc05a5db8b2f4b355a88fe85dd3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 35/70] fix: let an XmlReader read more than one document

The second database lacked the instances that the first one had: their data
was added to the first database instead.
---
 src/ucis/xml/xml_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 76068a8..cf4f0fb 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -59,6 +59,9 @@ class XmlReader():
         tree = etree.parse(file)
         root = tree.getroot()
         self.db = MemUCIS()
+        self.file_m = {}
+        self.module_scope_m = {}
+        self.inst_scope_m = {}
         
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
-- 
2.43.0


From 239d6a6a7c8cb5157dbd2fd5cea41cc23b021edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 36/70] fix: write the cost of history nodes as a decimal

---
 src/ucis/xml/xml_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index aa84890..cd6284b 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -24,6 +24,7 @@ import time
 import datetime
 from datetime import datetime
 from datetime import date
+from decimal import Decimal
 from typing import Dict, Iterator
 from ucis.cover_index import CoverIndex
 from ucis.cover_type_t import CoverTypeT
@@ -120,7 +121,9 @@ class XmlWriter():
             self.setIfNonNull(histN, "compulsory", h.getCompulsory())
             self.setAttrDateTime(histN, "date", h.getDate())
             self.setIfNonNull(histN, "userName", h.getUserName())
-            self.setIfNonNeg(histN, "cost", h.getCost())
+            if h.getCost() >= 0:
+                # xsd:decimal doesn't allow an exponent
+                self.setAttr(histN, "cost", format(Decimal(str(h.getCost())), "f"))
             self.setAttr(histN, "toolCategory", h.getToolCategory())
             self.setAttr(histN, "ucisVersion", h.getUCISVersion())
             self.setAttr(histN, "vendorId", h.getVendorId())
-- 
2.43.0


From fe643f52b80c6d979f5b6167a789916edbc25c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 37/70] fix: copy the list of coverpoints passed to createCross

---
 src/ucis/mem/mem_cross.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_cross.py b/src/ucis/mem/mem_cross.py
index 9eada40..b9254b0 100644
--- a/src/ucis/mem/mem_cross.py
+++ b/src/ucis/mem/mem_cross.py
@@ -24,7 +24,8 @@ class MemCross(MemCoverpoint,Cross):
         self.m_type = UCIS_CROSS
         Cross.__init__(self)
         
-        self.coverpoints = coverpoints
+        # Take a copy, so that the caller may reuse its list
+        self.coverpoints = list(coverpoints)
         
     def getNumCrossedCoverpoints(self)->int:
         return len(self.coverpoints)
-- 
2.43.0


From 35595c35945b608f22073fd7e8a28b8e8eed29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:01 +0000
Subject: [PATCH 38/70] fix: let the YAML parser determine the encoding of the
 files it reads

---
 src/ucis/yaml/db_format_if_yaml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/yaml/db_format_if_yaml.py b/src/ucis/yaml/db_format_if_yaml.py
index 1a3213d..27dfd07 100644
--- a/src/ucis/yaml/db_format_if_yaml.py
+++ b/src/ucis/yaml/db_format_if_yaml.py
@@ -18,7 +18,8 @@ class DbFormatIfYaml(FormatIfDb):
     def read(self, filename) -> 'UCIS':
         reader = YamlReader()
 
-        with open(filename, "r") as fp:
+        # The parser determines the encoding
+        with open(filename, "rb") as fp:
             db = reader.load(fp)
 
         return db
-- 
2.43.0


From bf2b42f72867d468c0d095a59aaf51c26d467c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:29 +0000
Subject: [PATCH 39/70] fix: initialise the format registry once when several
 threads use it first

---
 src/ucis/rgy/format_rgy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ucis/rgy/format_rgy.py b/src/ucis/rgy/format_rgy.py
index 5df669d..928eda7 100644
--- a/src/ucis/rgy/format_rgy.py
+++ b/src/ucis/rgy/format_rgy.py
@@ -3,6 +3,7 @@ Created on Jun 22, 2022
 
 @author: mballance
 '''
+import threading
 from typing import Dict
 from .format_if_db import FormatDescDb
 from ucis.rgy.format_if_rpt import FormatDescRpt
@@ -20,6 +21,7 @@ class FormatRgy(object):
 
     _in_inst = False    
     _inst = None
+    _inst_lock = threading.RLock()
     
     def __init__(self):
         if not FormatRgy._in_inst:
@@ -74,11 +76,12 @@ class FormatRgy(object):
     
     @classmethod
     def inst(cls):
-        if cls._inst is None:
-            cls._in_inst = True
-            cls._inst = cls()
-            cls._in_inst = False
-            cls._inst._init_rgy()
+        with cls._inst_lock:
+            if cls._inst is None:
+                cls._in_inst = True
+                cls._inst = cls()
+                cls._in_inst = False
+                cls._inst._init_rgy()
         return cls._inst
     
     
\ No newline at end of file
-- 
2.43.0


From b8e1cc340c04f08c74372341aad96b6fec6d7091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 40/70] fix: pass the strings of test data to native libraries
 as char strings

---
 src/ucis/lib/lib_test_data.py | 37 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index 6be02d4..4ef6e86 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -5,24 +5,27 @@ Created on Mar 12, 2020
 '''
 
 from _ctypes import Structure
-from ctypes import c_int, c_ulonglong, c_uint, c_wchar_p, c_double, c_wchar
+from ctypes import c_int, c_ulonglong, c_uint, c_char_p, c_double
 from ucis.test_data import TestData
 
+def _encode(s : str):
+    return None if s is None else str.encode(s)
+
 class LibTestData(Structure):
     _fields_ = [
         ("teststatus", c_uint),
         ("simtime", c_double),
-        ("timeunit", c_wchar_p),
-        ("runcwd", c_wchar_p),
+        ("timeunit", c_char_p),
+        ("runcwd", c_char_p),
         ("cputime", c_double),
-        ("seed", c_wchar_p),
-        ("cmd", c_wchar_p),
-        ("args", c_wchar_p),
+        ("seed", c_char_p),
+        ("cmd", c_char_p),
+        ("args", c_char_p),
         ("compulsory", c_int),
-        ("date", c_wchar_p),
-        ("username", c_wchar_p),
+        ("date", c_char_p),
+        ("username", c_char_p),
         ("cost", c_double),
-        ("toolcategory", c_wchar_p)
+        ("toolcategory", c_char_p)
     ]
 
     @staticmethod
@@ -31,17 +34,17 @@ class LibTestData(Structure):
         ret = LibTestData(
             td.teststatus,
             td.simtime,
-            td.timeunit,
-            td.runcwd,
+            _encode(td.timeunit),
+            _encode(td.runcwd),
             td.cputime,
-            td.seed,
-            td.cmd,
-            td.args,
+            _encode(td.seed),
+            _encode(td.cmd),
+            _encode(td.args),
             td.compulsory,
-            td.date,
-            td.user,
+            _encode(td.date),
+            _encode(td.user),
             td.cost,
-            td.toolcategory
+            _encode(td.toolcategory)
             )        
         
 #         ret = LibTestData(
-- 
2.43.0


From 2ffa4e6458d38f13f548368ee3d95f68f9e3f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 41/70] fix: get test data from native libraries instead of
 overwriting it

---
 src/ucis/lib/lib_history_node.py |  6 +++---
 src/ucis/lib/lib_test_data.py    | 21 ++++++++++++---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index b3630f5..cfd7ef3 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -30,12 +30,12 @@ class LibHistoryNode(LibObj, HistoryNode):
             lib_td)
         
     def getTestData(self):
-        lib_td = pointer(LibTestData())
+        lib_td = LibTestData()
         
-        get_lib().ucis_SetTestData(
+        get_lib().ucis_GetTestData(
             self.db,
             self.obj,
-            lib_td)
+            pointer(lib_td))
         
         return lib_td.to_testdata()
     
diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index 4ef6e86..5b52569 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -11,6 +11,9 @@ from ucis.test_data import TestData
 def _encode(s : str):
     return None if s is None else str.encode(s)
 
+def _decode(s : bytes):
+    return None if s is None else s.decode()
+
 class LibTestData(Structure):
     _fields_ = [
         ("teststatus", c_uint),
@@ -68,18 +71,18 @@ class LibTestData(Structure):
     def to_testdata(self):
         ret = TestData(
             self.teststatus,
+            _decode(self.toolcategory),
+            _decode(self.date),
             self.simtime,
-            self.timeunit,
-            self.runcwd,
+            _decode(self.timeunit),
+            _decode(self.runcwd),
             self.cputime,
-            self.seed,
-            self.cmd,
-            self.args,
+            _decode(self.seed),
+            _decode(self.cmd),
+            _decode(self.args),
             self.compulsory,
-            self.date,
-            self.username,
-            self.cost,
-            self.toolcategory)
+            _decode(self.username),
+            self.cost)
         
         return ret
 
-- 
2.43.0


From 199bde6068cf16dd462b6b15d6d7f9d7dae47e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 42/70] fix: return file names of native libraries as strings

---
 src/ucis/lib/lib_file_handle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_file_handle.py b/src/ucis/lib/lib_file_handle.py
index 36a5b06..fc63859 100644
--- a/src/ucis/lib/lib_file_handle.py
+++ b/src/ucis/lib/lib_file_handle.py
@@ -32,4 +32,5 @@ class LibFileHandle(FileHandle):
         self.fh = fh
         
     def getFileName(self)->str:
-        return get_lib().ucis_GetFileName(self.db, self.fh)
\ No newline at end of file
+        name = get_lib().ucis_GetFileName(self.db, self.fh)
+        return None if name is None else name.decode()
\ No newline at end of file
-- 
2.43.0


From 8b59cfc6d8275d968d1e01608591c8967fb0c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 43/70] fix: iterate over the history nodes of native libraries

---
 src/ucis/lib/lib_history_node_iterator.py | 6 +++++-
 src/ucis/lib/lib_ucis.py                  | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 9a792d1..4c50cc0 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -17,10 +17,14 @@ class LibHistoryNodeIterator(object):
         return self
     
     def __next__(self):
+        if self.iter is None:
+            raise StopIteration
+        
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
-            get_lib().ucis_FreeIterator(self.iter)
+            get_lib().ucis_FreeIterator(self.db, self.iter)
+            self.iter = None
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 5672837..6b6abe9 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -29,6 +29,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.int_property import IntProperty
 from ucis.lib.lib_file_handle import LibFileHandle
 from ucis.lib.lib_history_node import LibHistoryNode
+from ucis.lib.lib_history_node_iterator import LibHistoryNodeIterator
 from ucis.lib.lib_scope import LibScope
 from ucis.lib.libucis import _lib, get_ucis_library, get_lib
 from ucis.ucis import UCIS
@@ -92,11 +93,10 @@ class LibUCIS(LibScope,UCIS):
         return LibHistoryNode(self.db, hn)
     
     def getHistoryNodes(self, kind:HistoryNodeKind)->List[HistoryNode]:
-        
-        UCIS.getHistoryNodes(self, kind)
+        return list(self.historyNodes(kind))
         
     def historyNodes(self, kind:HistoryNodeKind)->Iterator[HistoryNode]:
-        UCIS.historyNodes(self, kind)
+        return LibHistoryNodeIterator(self.db, None, kind)
         
     def write(self, file, scope=None, recurse=True, covertype=-1):
         logging.debug("file=" + file)
-- 
2.43.0


From daea242327ccac6becfdfb73c6bbdf0b80d56951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 44/70] fix: do not use native scope iterators after they were
 freed

---
 src/ucis/lib/lib_scope_iterator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index bb5f439..ffa5326 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -17,10 +17,14 @@ class LibScopeIterator(object):
     
     def __next__(self):
         from .lib_scope import LibScope
+        if self.iter is None:
+            raise StopIteration
+        
         next = get_lib().ucis_ScopeScan(self.db, self.iter)
         
         if next is None:
             get_lib().ucis_FreeIterator(self.db, self.iter)
+            self.iter = None
             raise StopIteration
         
         return LibScope(self.db, next)
-- 
2.43.0


From f4a290b40809cd3b0762a809e4c8a093a2e555a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 45/70] fix: create native history nodes with a parent or
 without a physical name

---
 src/ucis/lib/lib_ucis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 6b6abe9..66e6880 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -84,9 +84,9 @@ class LibUCIS(LibScope,UCIS):
         
         hn = get_lib().ucis_CreateHistoryNode(
             self.db,
-            parent,
+            None if parent is None else parent.obj,
             str.encode(logicalname),
-            str.encode(physicalname),
+            None if physicalname is None else str.encode(physicalname),
             kind)
         logging.debug("hn=" + str(hn))
         logging.debug("<-- createHistoryNode")
-- 
2.43.0


From 09e18c4b777d89e7777383570420fa77b68a6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 46/70] fix: report failing writes of native libraries, and
 write single scopes

---
 src/ucis/lib/lib_ucis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 66e6880..fede220 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -103,10 +103,12 @@ class LibUCIS(LibScope,UCIS):
         ret = get_lib().ucis_Write(
             self.db, 
             str.encode(file),
-            scope,
+            None if scope is None else scope.obj,
             1 if recurse else 0,
             covertype)
         logging.debug("ret=" + str(ret))
+        if ret != 0:
+            raise Exception("Error: failed to write UCIS file \"" + file + "\"")
         
     def close(self):
         ret = get_lib().ucis_Close(self.db)
-- 
2.43.0


From 6c34814507de4add0ce1f578d6038b9b9e69589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 47/70] fix: pass 64-bit scope masks and cover types to native
 libraries

---
 src/ucis/lib/libucis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/libucis.py b/src/ucis/lib/libucis.py
index 52e0aad..64687bf 100644
--- a/src/ucis/lib/libucis.py
+++ b/src/ucis/lib/libucis.py
@@ -50,7 +50,7 @@ fspec = {
         CFUNCTYPE(c_void_p, c_char_p),
         ((1,"file"),)),
     "ucis_Write" : (
-        CFUNCTYPE(c_int, c_void_p, c_char_p, c_void_p, c_int, c_uint),
+        CFUNCTYPE(c_int, c_void_p, c_char_p, c_void_p, c_int, c_ulonglong),
         ((1,"db"),(1,"file"),(1,"scope"),(1,"recurse"),(1,"covertype"))),
     "ucis_Close" : (
         CFUNCTYPE(c_int, c_void_p),
@@ -98,7 +98,7 @@ fspec = {
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
         ((1,"db"), (1,"iterator"))),
     "ucis_ScopeIterate" : (
-        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_uint32),
+        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_ulonglong),
         ((1,"db"), (1,"scope"), (1,"scopemask"))),
     "ucis_ScopeScan" : (
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
-- 
2.43.0


From 01e31de9d66f0d3baf4c99abac420f7325c887fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 48/70] fix: do not overwrite the goals of native scopes that
 are only visited

---
 src/ucis/lib/lib_scope.py          | 6 ++++--
 src/ucis/lib/lib_scope_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py           | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index 028a540..b8a18e8 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -44,9 +44,11 @@ from ucis.toggle_type_t import ToggleTypeT
 
 class LibScope(LibObj, Scope):
     
-    def __init__(self, db, obj):
+    def __init__(self, db, obj, is_new=True):
         LibObj.__init__(self, db, obj)
-        Scope.__init__(self)
+        if is_new:
+            # Establish defaults
+            Scope.__init__(self)
         logging.debug("LibScope::init - db=" + str(self.db) + " " + str(self.obj))
         
     def getGoal(self)->int:
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index ffa5326..c9f8deb 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -27,6 +27,6 @@ class LibScopeIterator(object):
             self.iter = None
             raise StopIteration
         
-        return LibScope(self.db, next)
+        return LibScope(self.db, next, False)
         
         
\ No newline at end of file
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index fede220..72571fa 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -38,6 +38,7 @@ from ucis.ucis import UCIS
 class LibUCIS(LibScope,UCIS):
     
     def __init__(self, file : str=None, db=None):
+        is_new = db is None and file is None
         if db is None:
             db = get_lib().ucis_Open(
                 str.encode(file) if file is not None else None)
@@ -47,7 +48,7 @@ class LibUCIS(LibScope,UCIS):
                     raise Exception("Error: failed to open UCIS file \"" + file + "\"")
                 else:
                     raise Exception("Error: failed to create UCIS DB")
-        super().__init__(db, None)
+        super().__init__(db, None, is_new)
         
     def isModified(self):
         return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.IS_MODIFIED) == 1
-- 
2.43.0


From dcc408a81c1fc1af90605e2eb4e1af6fce30a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 49/70] fix: create native scopes without a source file or
 design unit

---
 src/ucis/lib/lib_scope.py       | 4 ++--
 src/ucis/lib/lib_source_info.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index b8a18e8..afa4ebf 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -107,11 +107,11 @@ class LibScope(LibObj, Scope):
             weight,
             source,
             type,
-            du_scope.obj,
+            None if du_scope is None else du_scope.obj,
             flags)
         
         if sh is None:
-            logging.error("ucis_CreateInstance failed: du=" + str(du_scope) + " du.obj=" + str(du_scope.obj))
+            logging.error("ucis_CreateInstance failed: du=" + str(du_scope) + " name=" + str(name))
             raise Exception("ucis_CreateInstance failed")
         
         return LibScope(self.db, sh)
diff --git a/src/ucis/lib/lib_source_info.py b/src/ucis/lib/lib_source_info.py
index 2b029de..08213f3 100644
--- a/src/ucis/lib/lib_source_info.py
+++ b/src/ucis/lib/lib_source_info.py
@@ -37,7 +37,7 @@ class _LibSourceInfo(Structure):
     @staticmethod
     def ctor(srcinfo : SourceInfo):
         return _LibSourceInfo(
-            srcinfo.file.fh,
+            None if srcinfo.file is None else srcinfo.file.fh,
             srcinfo.line,
             srcinfo.token)
         
-- 
2.43.0


From e54ebdd756c5c70caefa1887821db0346f8e1125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 50/70] fix: pass vector cover data to native libraries as
 bytes

---
 src/ucis/lib/lib_cover_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cover_data.py b/src/ucis/lib/lib_cover_data.py
index 9ed6a8c..eb8dafc 100644
--- a/src/ucis/lib/lib_cover_data.py
+++ b/src/ucis/lib/lib_cover_data.py
@@ -4,7 +4,7 @@ Created on Jan 11, 2020
 @author: ballance
 '''
 from _ctypes import Structure, Union
-from ctypes import c_int, c_ulonglong, c_uint, c_wchar_p, c_ulong
+from ctypes import c_int, c_ulonglong, c_uint, c_char_p, c_ulong
 from builtins import staticmethod
 from ucis.cover_data import CoverData
 from ucis.cover_flags_t import CoverFlagsT
@@ -13,7 +13,7 @@ class LibCoverDataValue(Union):
     _fields_ = [
         ("int64", c_ulonglong),
         ("int32", c_uint),
-        ("bytevector", c_wchar_p)
+        ("bytevector", c_char_p)
         ]
     
 class LibCoverData(Structure):
-- 
2.43.0


From 4c422917f988da7ba24a566b82ac8e5e36069a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 51/70] fix: create ignore and illegal bins in native crosses

---
 src/ucis/lib/lib_cross.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 9e4ef5a..8c3e0d3 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -23,9 +23,10 @@ class LibCross(LibCvgScope, Cross):
         srcinfo:SourceInfo, 
         at_least:int, 
         count:int,
-        binrhs) -> CoverIndex:
+        binrhs,
+        kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
-            UCIS_CVGBIN,
+            kind,
             (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
-- 
2.43.0


From 8e38277e388eb083be42b4ff0b62bfb73690f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 52/70] fix: report creation calls that native libraries reject

---
 src/ucis/lib/lib_covergroup.py |  5 +++++
 src/ucis/lib/lib_scope.py      | 10 ++++++++++
 src/ucis/lib/lib_ucis.py       |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/src/ucis/lib/lib_covergroup.py b/src/ucis/lib/lib_covergroup.py
index 5cabbda..eec13c4 100644
--- a/src/ucis/lib/lib_covergroup.py
+++ b/src/ucis/lib/lib_covergroup.py
@@ -85,6 +85,9 @@ class LibCovergroup(LibCvgScope, Covergroup):
             len(points_l),
             byref(points))
         
+        if cr_o is None:
+            raise Exception("Failed to create cross")
+        
         return LibCross(self.db, cr_o)
         raise NotImplementedError()
     
@@ -106,5 +109,7 @@ class LibCovergroup(LibCvgScope, Covergroup):
             UCIS_COVERINSTANCE,
             0)
         
+        if ci_obj is None:
+            raise Exception("Failed to create cover instance")
         
         return LibCovergroup(self.db, ci_obj)
diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index afa4ebf..e923047 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -134,6 +134,9 @@ class LibScope(LibObj, Scope):
             ScopeTypeT.COVERGROUP,
             0)
         
+        if cg_obj is None:
+            raise Exception("Failed to create covergroup")
+        
         return LibCovergroup(self.db, cg_obj)
     
     def createToggle(self,
@@ -152,6 +155,10 @@ class LibScope(LibObj, Scope):
             toggle_metric,
             toggle_type,
             toggle_dir)
+        
+        if th is None:
+            raise Exception("Failed to create toggle")
+        
         return LibScope(self.db, th)
     
     def createNextCover(self,
@@ -168,6 +175,9 @@ class LibScope(LibObj, Scope):
             data_p,
             sourceinfo_p)
         
+        if index < 0:
+            raise Exception("Failed to create cover item")
+        
         return LibCoverIndex(self.db, self.obj, index)
     
     def getSourceInfo(self)->SourceInfo:
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 72571fa..d183918 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -72,6 +72,9 @@ class LibUCIS(LibScope,UCIS):
             str.encode(filename),
             None if workdir is None else str.encode(workdir))
         
+        if fh is None:
+            raise Exception("Failed to create file handle")
+        
         return LibFileHandle(self.db, fh)
         
     
@@ -90,6 +93,8 @@ class LibUCIS(LibScope,UCIS):
             None if physicalname is None else str.encode(physicalname),
             kind)
         logging.debug("hn=" + str(hn))
+        if hn is None:
+            raise Exception("Failed to create history node")
         logging.debug("<-- createHistoryNode")
         return LibHistoryNode(self.db, hn)
     
-- 
2.43.0


From 3313ad7ffacd2da799f802c3005d493da698f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 53/70] fix: read YAML documents whose additional keys hold
 dates

---
 src/ucis/yaml/yaml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 68da978..b8ab8c1 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -69,7 +69,8 @@ class YamlReader(object):
         jsonschema.validate(instance=cov_yml, schema=schema)
             
         coverage = self.cvg_ns.CoverageData()
-        coverage = coverage.from_json(json.dumps(cov_yml))
+        # Additional keys may hold values, such as dates, that JSON lacks
+        coverage = coverage.from_json(json.dumps(cov_yml, default=str))
         
         self.db = MemUCIS()
 
-- 
2.43.0


From 494867339b01477fc363b239e21302cef8a44afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:49 +0000
Subject: [PATCH 54/70] fix: keep the weight of instances in a merge

---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index b06d580..e7a9cc0 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -65,7 +65,7 @@ class DbMerger(object):
             dst_iscope = self.dst_db.createInstance(
                 src_iscope.getScopeName(),
                 src_iscope.getSourceInfo(),
-                1, # weight
+                src_iscope.getWeight(), # weight
                 UCIS_OTHER, # query SourceType
                 UCIS_INSTANCE,
                 dst_du,
-- 
2.43.0


From 00f8cab0109748903b9df2d7339de2cd764b7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:49 +0000
Subject: [PATCH 55/70] fix: take a copy of source locations handed to the
 in-memory database

---
 src/ucis/mem/mem_scope.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ucis/mem/mem_scope.py b/src/ucis/mem/mem_scope.py
index d2b0b7e..dd224d5 100644
--- a/src/ucis/mem/mem_scope.py
+++ b/src/ucis/mem/mem_scope.py
@@ -55,7 +55,8 @@ class MemScope(MemObj,Scope):
         super().__init__()
         self.m_parent = parent
         self.m_name = name
-        self.m_srcinfo = srcinfo if srcinfo is not None else SourceInfo(None, -1, -1)
+        # Take a copy, so that the caller may reuse its source-info object
+        self.m_srcinfo = copy.copy(srcinfo) if srcinfo is not None else SourceInfo(None, -1, -1)
         self.m_weight = weight
         self.m_source = source
         self.m_type = type
@@ -140,8 +141,8 @@ class MemScope(MemObj,Scope):
         name:str, 
         data:CoverData, 
         sourceinfo:SourceInfo)->CoverIndex:
-        # Take a copy, so that the caller may reuse its data object
-        ret = MemCoverIndex(name, copy.copy(data), sourceinfo)
+        # Take a copy, so that the caller may reuse its data objects
+        ret = MemCoverIndex(name, copy.copy(data), copy.copy(sourceinfo))
         self.m_cover_items.append(ret)
         return ret
 
-- 
2.43.0


From 56c76322f279057f3a2be06d54a8e5e7a7081079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 56/70] fix: do not hide errors while grouping covergroup
 instances by type

---
 src/ucis/xml/xml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index cf4f0fb..df8d3e5 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -170,7 +170,7 @@ class XmlReader():
             try:
                 cgId_l = next(i.iter("cgId"))
                 typename = self.getAttr(cgId_l, "cgName", "xxx")
-            except:
+            except StopIteration:
                 typename = "default"
 
             if typename in cg_type_m.keys():
-- 
2.43.0


From 1e71766d4b58ad31a5053653e7cd1bfa35099dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 57/70] fix: hand bin counts beyond 32 bits to native libraries
 uncut

---
 src/ucis/lib/lib_coverpoint.py | 5 +++--
 src/ucis/lib/lib_cross.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_coverpoint.py b/src/ucis/lib/lib_coverpoint.py
index d0baaaa..ad4d64d 100644
--- a/src/ucis/lib/lib_coverpoint.py
+++ b/src/ucis/lib/lib_coverpoint.py
@@ -3,7 +3,7 @@ Created on Mar 12, 2020
 
 @author: ballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.coverpoint import Coverpoint
 from ucis.lib.lib_scope import LibScope
@@ -29,7 +29,8 @@ class LibCoverpoint(LibCvgScope, Coverpoint):
         kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
             kind,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            (UCIS_IS_32BIT if count < 2**32 else UCIS_IS_64BIT)
+            | UCIS_HAS_GOAL | UCIS_HAS_WEIGHT)
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = 1
diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 8c3e0d3..226f9c6 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -3,7 +3,7 @@ Created on Feb 1, 2021
 
 @author: mballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.cover_index import CoverIndex
 from ucis.cross import Cross
@@ -27,7 +27,8 @@ class LibCross(LibCvgScope, Cross):
         kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
             kind,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            (UCIS_IS_32BIT if count < 2**32 else UCIS_IS_64BIT)
+            | UCIS_HAS_GOAL | UCIS_HAS_WEIGHT)
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = 1
-- 
2.43.0


From 481b0659bca0d232b8ac85296c6e072fc4da8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 58/70] fix: let reports be written to a directory

---
 src/ucis/cmd/cmd_report.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 3bc2051..91fe154 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -46,13 +46,13 @@ def report(args):
                 if os.path.isdir(args.out):
                     print("Note: removing existing report directory (%s)" % args.out)
                     shutil.rmtree(args.out)
-                    os.makedirs(args.out)
-                    fp = args.out
                 else:
-                    raise Exception("Output format %s requires a directory, but specified destination is a file" % (
+                    raise Exception("Output format %s requires a directory, but specified destination is a file (%s)" % (
                         args.output_format,
                         args.out
                     ))
+            os.makedirs(args.out)
+            fp = args.out
         else:
             raise Exception("Output format %s is ambiguous about output location: %s" % (
                 args.output_format,
@@ -62,7 +62,7 @@ def report(args):
 
     output_if.report(in_db, fp, [])
 
-    if args.out is not None:
+    if args.out is not None and fp is not args.out:
         fp.close()
 
     in_db.close()
-- 
2.43.0


From e35990959fc4bc2365147e372646cf557d678a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 59/70] fix: read a test status with surrounding whitespace
 (XmlReader)

xsd:boolean allows whitespace around the value. A passed test was read as failed.
---
 src/ucis/xml/xml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index df8d3e5..f978879 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -488,7 +488,7 @@ class XmlReader():
             return default
         
     def getAttrBool(self, e, name):
-        if e.attrib[name] in ("true", "1"):
+        if e.attrib[name].strip() in ("true", "1"):
             return True
         else:
             return False
-- 
2.43.0


From b20e9efeb5d3bef2863e444c1491677e7cdae376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 60/70] fix: keep the leading zeros of years before 1000
 (XmlReader)

---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index f978879..8fbe437 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -471,7 +471,8 @@ class XmlReader():
         val = e.get(name)
         # xsd:dateTime allows fractional seconds and a time zone
         dateVal = datetime.fromisoformat(val.strip().replace("Z", "+00:00"))
-        return dateVal.strftime("%Y%m%d%H%M%S")
+        # strftime doesn't pad the year
+        return "%04d" % dateVal.year + dateVal.strftime("%m%d%H%M%S")
     
     def getHistoryNodeKind(self, histN):
         """Converts the kind, as written by XmlWriter, to HistoryNodeKind"""
-- 
2.43.0


From f67d1f55b4c603c233accb8d45e673cfd1e45b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 61/70] fix: read 24:00:00, the end of a day (XmlReader)

---
 src/ucis/xml/xml_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 8fbe437..73d73b7 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -20,7 +20,7 @@ Created on Jan 6, 2020
 @author: ballance
 '''
 
-from datetime import datetime
+from datetime import datetime, timedelta
 import logging
 from io import StringIO
 from logging import _srcfile
@@ -469,8 +469,11 @@ class XmlReader():
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
         val = e.get(name)
-        # xsd:dateTime allows fractional seconds and a time zone
-        dateVal = datetime.fromisoformat(val.strip().replace("Z", "+00:00"))
+        # xsd:dateTime allows fractional seconds, a time zone, and 24:00:00 for the end of a day
+        val = val.strip().replace("Z", "+00:00")
+        dateVal = datetime.fromisoformat(val.replace("T24:", "T00:"))
+        if "T24:" in val:
+            dateVal += timedelta(days=1)
         # strftime doesn't pad the year
         return "%04d" % dateVal.year + dateVal.strftime("%m%d%H%M%S")
     
-- 
2.43.0


From 76bff0261827e1d38871018f657d230fbacae32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 62/70] fix: read YAML documents with any additional keys
 (YamlReader)

Additional keys were handed to the schema classes, and so documents with
keys that are dates, or named like members of those classes, were rejected.
---
 src/ucis/yaml/yaml_reader.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index b8ab8c1..e513b78 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -69,8 +69,7 @@ class YamlReader(object):
         jsonschema.validate(instance=cov_yml, schema=schema)
             
         coverage = self.cvg_ns.CoverageData()
-        # Additional keys may hold values, such as dates, that JSON lacks
-        coverage = coverage.from_json(json.dumps(cov_yml, default=str))
+        coverage = coverage.from_json(json.dumps(YamlReader._known(cov_yml, schema, schema)))
         
         self.db = MemUCIS()
 
@@ -106,6 +105,23 @@ class YamlReader(object):
         return self.db
                 
                 
+    @staticmethod
+    def _known(data, schema, root):
+        """
+        Selects what the schema defines. Additional keys may be, or hold, 
+        what JSON or the schema classes lack (eg dates)
+        """
+        if "$ref" in schema.keys():
+            schema = root["defs"][schema["$ref"].split("/")[-1]]
+            
+        if schema["type"] == "object":
+            return {k: YamlReader._known(data[k], s, root) 
+                    for k,s in schema["properties"].items() if k in data.keys()}
+        elif schema["type"] == "array":
+            return [YamlReader._known(d, schema["items"], root) for d in data]
+        else:
+            return data
+                
     def process_covergroup(self, cg_t):
         
         cg_location = None
-- 
2.43.0


From e75c42922e1ca4525e3a34c4b2c58f9199bbaa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 63/70] fix: read crossExpr interrupted by comments (XmlReader)

---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 73d73b7..5e48196 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -499,7 +499,8 @@ class XmlReader():
         
     def getCrossExpr(self, crossExpr, cp_m):
         """Gets the name of a crossed coverpoint"""
-        cp_n = crossExpr.text if crossExpr.text is not None else ""
+        # The name may be interrupted by comments
+        cp_n = str(crossExpr.xpath("string()"))
         
         # Whitespace around the name is insignificant,
         # unless it is part of the coverpoint's name 
-- 
2.43.0


From 12fb53c85b00804b95c1e46a0df8343ec82c05c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 64/70] fix: describe JSON reports as they are in their schema
 (covreport.json)

---
 src/ucis/schema/covreport.json | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 58e0e1a..ddf65a6 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -1,25 +1,18 @@
 {
 	"$schema": "http://json-schema.org/draft-04/schema#",
 	"$id": "https://fvutils.github.io/pyucis/covreport.json",
-	"title": "PyUCIS JSON Coverage Report",
+	"title": "Coverage Report",
 	"description": "Validation schema for the PyUCIS machine-readable coverage report",
 	"type": "object",
 	"properties": {
-		"covreport": { 
-			"title": "Coverage Report",
-			"description": "Root of the coverage report",
-			"type": "object",
-			"properties": {
-				"covergroups": {
-					"description": "List of (type) covergroups",
-					"type": "array",
-					"items": { "$ref": "#/defs/typeCovergroupType" }
-				},
-				"coverage": {
-					"description": "Coverage percentage achieved by all covergroups",
-					"type": "number"
-				}
-			}
+		"covergroups": {
+			"description": "List of (type) covergroups",
+			"type": "array",
+			"items": { "$ref": "#/defs/typeCovergroupType" }
+		},
+		"coverage": {
+			"description": "Coverage percentage achieved by all covergroups",
+			"type": "number"
 		}
 	},
 	"additionalProperties": false,
-- 
2.43.0


From 794a3d48d9f43e7be3856d2c009b73102ed8480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 65/70] fix: emit auto_bin_max=0, as documented (XmlWriter)

---
 src/ucis/xml/xml_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index cd6284b..e37604e 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -301,6 +301,10 @@ class XmlWriter():
         optsElem = self.mkElem(parent, "options")
         self.setAttr(optsElem, "weight", str(opts_item.getWeight()))
         
+        # All bins are explicit: keep consumers from creating auto-bins
+        if opts_item.getScopeType() != ScopeTypeT.CROSS:
+            self.setAttr(optsElem, "auto_bin_max", "0")
+        
         # Bins hold the at_least value of their coverpoint or cross
         cov_bin = next(opts_item.coverItems(CoverTypeT.CVGBIN), None)
         if cov_bin is not None:
-- 
2.43.0


From 75cc4cf31a237e5fef5f75fccd3a3d2360c9ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 66/70] fix: merge instances without design unit (DbMerger)

---
 src/ucis/merge/db_merger.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index e7a9cc0..5422fd7 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -51,16 +51,18 @@ class DbMerger(object):
             # Create a representation of the scope in the destination
             # database                
             src_du = src_iscope.getInstanceDu()
-            dst_du = self.dst_db.createScope(
-                src_du.getScopeName(),
-                src_du.getSourceInfo(),
-                src_du.getWeight(), # weight
-                UCIS_OTHER, # TODO: must query SourceType
-                UCIS_DU_MODULE, # TODO: must query GetScopeType
-                UCIS_ENABLED_STMT | UCIS_ENABLED_BRANCH
-                | UCIS_ENABLED_COND | UCIS_ENABLED_EXPR
-                | UCIS_ENABLED_FSM | UCIS_ENABLED_TOGGLE
-                | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU) # TODO: GetScopeFlags
+            dst_du = None
+            if src_du is not None:
+                dst_du = self.dst_db.createScope(
+                    src_du.getScopeName(),
+                    src_du.getSourceInfo(),
+                    src_du.getWeight(), # weight
+                    UCIS_OTHER, # TODO: must query SourceType
+                    UCIS_DU_MODULE, # TODO: must query GetScopeType
+                    UCIS_ENABLED_STMT | UCIS_ENABLED_BRANCH
+                    | UCIS_ENABLED_COND | UCIS_ENABLED_EXPR
+                    | UCIS_ENABLED_FSM | UCIS_ENABLED_TOGGLE
+                    | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU) # TODO: GetScopeFlags
                     
             dst_iscope = self.dst_db.createInstance(
                 src_iscope.getScopeName(),
-- 
2.43.0


From c223598e9144f0aeb7192fe22183245c65bc63ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 67/70] fix: keep the threshold of coverpoints and crosses with
 only ignore and illegal bins (XmlWriter)

---
 src/ucis/xml/xml_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index e37604e..fba40bc 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -307,6 +307,9 @@ class XmlWriter():
         
         # Bins hold the at_least value of their coverpoint or cross
         cov_bin = next(opts_item.coverItems(CoverTypeT.CVGBIN), None)
+        if cov_bin is None:
+            cov_bin = next(opts_item.coverItems(
+                CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN), None)
         if cov_bin is not None:
             self.setAttr(optsElem, "at_least", str(cov_bin.getCoverData().at_least))
         
-- 
2.43.0


From 3e36dfcca7de2d26287cce0ae5412c2feeb69179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:52 +0000
Subject: [PATCH 68/70] fix: state the design units of instances and
 covergroups (XmlWriter)

---
 src/ucis/xml/xml_writer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index fba40bc..e7b0839 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -164,16 +164,20 @@ class XmlWriter():
             # TODO: userAttr
             
     def write_instance_coverages(self, s):
-        # TODO: determine the du_scope associated with this instance
         inst = self.mkElem(self.root, "instanceCoverages")
         inst.set("name", s.getScopeName())
         inst.set("key", "0") # TODO:
+        du = s.getInstanceDu()
+        if du is not None:
+            self.setAttr(inst, "moduleName", du.getScopeName())
         self.addId(inst, None)
         
         self.write_covergroups(inst, s)
         
         
     def write_covergroups(self, inst, scope):
+        du = scope.getInstanceDu()
+
         for cg in scope.scopes(ScopeTypeT.COVERGROUP):
             cgElem = self.mkElem(inst, "covergroupCoverage")
             self.setAttr(cgElem, "weight", str(cg.getWeight()))
@@ -184,14 +188,14 @@ class XmlWriter():
             
             # If there is only type coverage (no instances), write only that
             if cg_inst is None:
-                self.write_coverinstance(cgElem, cg.getScopeName(), cg)
+                self.write_coverinstance(cgElem, cg.getScopeName(), cg, du)
             else:
                 # If there is instance coverage, write only that
                 while cg_inst is not None:
-                    self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst)
+                    self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst, du)
                     cg_inst = next(inst_it, None)
     
-    def write_coverinstance(self, cgElem, cgName, cg : Covergroup):
+    def write_coverinstance(self, cgElem, cgName, cg : Covergroup, du):
         cgInstElem = self.mkElem(cgElem, "cgInstance")
         self.setAttr(cgInstElem, "name", cg.getScopeName())
         self.setAttr(cgInstElem, "key", "0")
@@ -200,7 +204,7 @@ class XmlWriter():
         
         cgIdElem = self.mkElem(cgInstElem, "cgId")
         self.setAttr(cgIdElem, "cgName", cgName)
-        self.setAttr(cgIdElem, "moduleName", cgName)
+        self.setAttr(cgIdElem, "moduleName", du.getScopeName() if du is not None else cgName)
         
         # Instance source information
         cgSourceIdElem = self.mkElem(cgIdElem, "cginstSourceId")
-- 
2.43.0


From 537075bf6ab94c448e7155ea93885609093271aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:21 +0000
Subject: [PATCH 69/70] fix: keep the YAML reader's warning out of standard
 output

---
 src/ucis/yaml/yaml_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index e513b78..8853fad 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -15,6 +15,7 @@ from ucis.source_t import SourceT
 from ucis.ucis import UCIS
 
 import os
+import sys
 import json
 import python_jsonschema_objects as pjs
 import yaml
@@ -237,7 +238,8 @@ class YamlReader(object):
                                     cr_t_bins_m[str(b.name)] = b_t
                 
         else:
-            print("Warning: Covergroup type %s has no instances" % str(cg_t.name))
+            print("Warning: Covergroup type %s has no instances" % str(cg_t.name),
+                  file=sys.stderr)
 
         # Now, convert to UCIS
         cg_t_scope = self.cg_default_inst.createCovergroup(
-- 
2.43.0


From fd4a47bf942ce782e0c63b8fedaef62062234d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:13 +0000
Subject: [PATCH 70/70] fix: show cover items of instances when iterating
 (MemInstanceScope)

---
 src/ucis/mem/mem_instance_scope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/mem/mem_instance_scope.py b/src/ucis/mem/mem_instance_scope.py
index ddfba52..831f615 100644
--- a/src/ucis/mem/mem_instance_scope.py
+++ b/src/ucis/mem/mem_instance_scope.py
@@ -67,6 +67,9 @@ class MemInstanceScope(MemScope,InstanceScope):
         ret = len(self.m_cover_item_l)
         ci = MemCoverItem(self, name, data, sourceinfo)
         self.m_cover_item_l.append(ci)
+
+        # The item is one of the scope's cover items as well
+        MemScope.createNextCover(self, name, data, sourceinfo)
         
         return ret
     
-- 
2.43.0

