From a9eddfd6c614c167d5e2a1cb2eccac355f0f24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 01/31] fix: hour: an hour without any short area must not
 raise IndexError

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index c001c67..62fddd2 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -138,7 +138,6 @@ def hour(
         FLAG = 0
         MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
         FLAG += sum(MARGIN < 0)
-        IT = np.where(MARGIN < 0)[0][-1]
 
         if FLAG == 0:
             # print('Returning: No Loss')
@@ -149,6 +148,7 @@ def hour(
                 JHOURT,
             )
 
+        IT = np.where(MARGIN < 0)[0][-1]
         NSHRT = FLAG
         LNCAP = np.zeros(NLINES)
 
-- 
2.43.0


From 70727dccfdd4f6a2f8a908ccff1efd00a234b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 02/31] fix: hour: the last hour of a year is hour 8759, not
 -1, so its daily peak is recognised

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 62fddd2..0387de2 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -87,7 +87,7 @@ def hour(
 
     # ..............UPDATE HOUR NUMBER.............
     DXX = 8760
-    JHOUR = -1 + int(CLOCK % DXX)  # DMOD(CLOCK,DXX) in original Fortran
+    JHOUR = (int(CLOCK) - 1) % DXX  # DMOD(CLOCK,DXX) in original Fortran
     # need to minus 1 due to 0-based index in Python!
 
     # need to double check
-- 
2.43.0


From 6bc6435c0542413a3f7cbe072b46e06a0f48bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 03/31] fix: week: JHOUR is the 0-based last simulated hour, so
 planned outages were applied one week late

---
 reliabilityassessment/monte_carlo/week.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 2625ab9..db38925 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -38,7 +38,7 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
     PLNDST[:] = 1.0
 
     # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
-    JWEEK = JHOUR // 168
+    JWEEK = (JHOUR + 1) // 168
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From b875a0b94a852f638ba322e3017f044c8108c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 04/31] fix: quartr: the simulation starts in season 0, so its
 capacities must be applied first

---
 reliabilityassessment/monte_carlo/quartr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/quartr.py b/reliabilityassessment/monte_carlo/quartr.py
index 2e0a791..a27d28e 100644
--- a/reliabilityassessment/monte_carlo/quartr.py
+++ b/reliabilityassessment/monte_carlo/quartr.py
@@ -28,8 +28,8 @@ def quartr(IQ, RATES, CLOCK, ATRIB, NHRSYR, MFA, NUMINQ, IPOINT, EVNTS):
 
     .. note:: ATRIB, EVNTS are modified in place
     """
-    IQ = (IQ + 1) % 4
     RATING = RATES[:, IQ].copy()
+    IQ = (IQ + 1) % 4
     ATRIB[0] = CLOCK + NHRSYR
     NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
 
-- 
2.43.0


From a7a9d8017b660dd203f8c70b355e513ef90ab661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 05/31] fix: year: annual area statistics are (area, forecast)
 arrays and were only partly reset

---
 reliabilityassessment/monte_carlo/year.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 45f622d..e1ab26a 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -634,14 +634,14 @@ def year(
     WGNTPP = 0.0
     WOLTPP = 0.0
 
-    LOLTHA[:NFCST, :NOAREA] = 0
-    LOLGHA[:NFCST, :NOAREA] = 0
-    MGNTHA[:NFCST, :NOAREA] = 0
-    MGNGHA[:NFCST, :NOAREA] = 0
-    LOLTPA[:NFCST, :NOAREA] = 0
-    LOLGPA[:NFCST, :NOAREA] = 0
-    MGNTPA[:NFCST, :NOAREA] = 0
-    MGNGPA[:NFCST, :NOAREA] = 0
+    LOLTHA[:NOAREA, :NFCST] = 0
+    LOLGHA[:NOAREA, :NFCST] = 0
+    MGNTHA[:NOAREA, :NFCST] = 0
+    MGNGHA[:NOAREA, :NFCST] = 0
+    LOLTPA[:NOAREA, :NFCST] = 0
+    LOLGPA[:NOAREA, :NFCST] = 0
+    MGNTPA[:NOAREA, :NFCST] = 0
+    MGNGPA[:NOAREA, :NFCST] = 0
 
     LOLTHP[:NFCST] = 0
     LOLGHP[:NFCST] = 0
-- 
2.43.0


From aa34e1107bb0107b73d89d7b24ebffa5753b0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 06/31] fix: year: pool XLOL of a replication without
 generation shortage was unassigned or stale

---
 reliabilityassessment/monte_carlo/year.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index e1ab26a..ffcffa4 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -485,13 +485,13 @@ def year(
         for N in range(NFCST):
             if LOLGHP[N] > 0:
                 XMGNH = (MGNGHP[N]) / (LOLGHP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNH = 0.0
 
             if LOLGPP[N] > 0:
                 XMGNP = (MGNGPP[N]) / (LOLGPP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNP = 0.0
 
             if INDX != 1:
                 f.write(
-- 
2.43.0


From 09f2f36df5ab4584d151e3fcca5b7cb9f0d3d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 07/31] fix: year: the total row of the daily-peak replication
 table was labelled TC instead of GT

---
 reliabilityassessment/monte_carlo/year.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index ffcffa4..c2527d4 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -414,7 +414,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLSPA[J, N], XMGNP, XT)
+                        % (J, N, LOLSPA[J, N], XMGNP, XS)
                     )
 
             if WOLGHA[J] > 0.0:
-- 
2.43.0


From 61e5bff42e8a9cffe4825c63233294b04a74d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 08/31] fix: narpMain: an EUE limit below 20 MWh gave a zero
 histogram step and a division by zero

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index cdaa8b6..e79cffc 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -83,7 +83,7 @@ def narpMain(TEST_DIR):
         NAMA,
     ) = dataf1(filepaths)
 
-    LSTEP = int(MAXEUE // 20)
+    LSTEP = max(1, int(MAXEUE // 20))
     NUNITS = PROBG.shape[0]
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
-- 
2.43.0


From 95fc4f5d1819688fdee04bf87179b9fbde045ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 09/31] fix: narpMain: pool weighted sums were immutable
 scalars, so every year's contribution was lost

---
 reliabilityassessment/monte_carlo/narpMain.py | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index e79cffc..3ca08eb 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -156,29 +156,29 @@ def narpMain(TEST_DIR):
     SOLTPA = np.zeros((NOAREA, 5))
     SOLTPP = np.zeros(5)
     SWLGHA = np.zeros(NOAREA)
-    SWLGHP = 0
+    SWLGHP = np.zeros(())
     SWLGPA = np.zeros(NOAREA)
-    SWLGPP = 0
+    SWLGPP = np.zeros(())
     SWLSHA = np.zeros(NOAREA)
-    SWLSHP = 0
+    SWLSHP = np.zeros(())
     SWLSPA = np.zeros(NOAREA)
-    SWLSPP = 0
+    SWLSPP = np.zeros(())
     SWLTHA = np.zeros(NOAREA)
-    SWLTHP = 0
+    SWLTHP = np.zeros(())
     SWLTPA = np.zeros(NOAREA)
-    SWLTPP = 0
+    SWLTPP = np.zeros(())
     SWNGHA = np.zeros(NOAREA)
-    SWNGHP = 0
+    SWNGHP = np.zeros(())
     SWNGPA = np.zeros(NOAREA)
-    SWNGPP = 0
+    SWNGPP = np.zeros(())
     SWNSHA = np.zeros(NOAREA)
-    SWNSHP = 0
+    SWNSHP = np.zeros(())
     SWNSPA = np.zeros(NOAREA)
-    SWNSPP = 0
+    SWNSPP = np.zeros(())
     SWNTHA = np.zeros(NOAREA)
-    SWNTHP = 0
+    SWNTHP = np.zeros(())
     SWNTPA = np.zeros(NOAREA)
-    SWNTPP = 0
+    SWNTPP = np.zeros(())
     XNEWA = np.zeros((NOAREA, 3))
     XNEWP = np.zeros(3)
 
-- 
2.43.0


From 093442c580aa0c516990790ec68e0af249a172af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 10/31] fix: report: the pool reserve was computed from the
 last area instead of the pool totals

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index b7e95a5..ec2dec3 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -534,8 +534,8 @@ def report(
         SUSTAT[NO1, 0] += SUSTAT[i, 0]
         SUSTAT[NO1, 1] += SUSTAT[i, 1]
 
-    if SUSTAT[i, 0] > 0:
-        SUSTAT[NO1, 2] = (SUSTAT[i, 1] - SUSTAT[i, 0]) / SUSTAT[i, 0] * 100
+    if SUSTAT[NO1, 0] > 0:
+        SUSTAT[NO1, 2] = (SUSTAT[NO1, 1] - SUSTAT[NO1, 0]) / SUSTAT[NO1, 0] * 100
 
     if INDX != 1:
         SSHL = 0.0
-- 
2.43.0


From 419ac985331c6ba7c304b01a5e6bf4a453f80a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 11/31] fix: report: the daily-peak distribution was normalised
 by the hourly total

---
 reliabilityassessment/monte_carlo/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index ec2dec3..afb3a6d 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -595,7 +595,7 @@ def report(
     for j in range(22):
         for i in range(NOAREA):
             PHL[i, j] = HLOLE[i, j] / SUMHL[i]
-            PDP[i, j] = DPLOLE[i, j] / SUMHL[i]
+            PDP[i, j] = DPLOLE[i, j] / SUMDP[i]
             PEUE[i, j] = EUES[i, j] / SUMEUE[i]
 
     for i in range(NOAREA):
-- 
2.43.0


From 0690be9cb53f6bd9ca52ccb0a300dfe647b4735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 12/31] fix: initl: season changes were hard-coded and ignored
 the season end weeks of the input

---
 reliabilityassessment/monte_carlo/initl.py    | 9 +++++----
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/initl.py b/reliabilityassessment/monte_carlo/initl.py
index d94c98c..cc1f507 100644
--- a/reliabilityassessment/monte_carlo/initl.py
+++ b/reliabilityassessment/monte_carlo/initl.py
@@ -74,13 +74,14 @@ def _initl(JSTEP, EVNTS, IPOINT, MFA, NUMINQ, QTR):
     return ATRIB, CLOCK, IPOINT, MFA, NUMINQ
 
 
-def initl(JSTEP, EVNTS):
+def initl(JSTEP, EVNTS, QTR=(2184.5, 4368.5, 6552.5)):
     """
     Initialization for the Monte Carlo Simulation
 
     :param int JSTEP: frequency of simulation statistics collection, 1: hourly 24:
         daily, i.e. only peak stats are collected
     :param numpy.ndarray EVNTS: 1D array of events
+    :param numpy.ndarray QTR: first hour index of the last three quarters of a year
     :return: (*tuple*) -- ATRIB: events attribute vector of length 2
                                  ATRIB[0] -- global simulation clock (in unit: hour)
                                  ATRIB[1] -- int, simulation type
@@ -102,9 +103,9 @@ def initl(JSTEP, EVNTS):
     EVNTS[:28] = np.array(
         [
             24,   0.5,    3, 0.0,  # noqa: E241 1st quarterly state change
-            8.0,  2184.5, 3, 0.0,  # noqa: E241 2nd quarterly state change
-            12.0, 4368.5, 3, 0.0,  # noqa: E241 3rd quarterly state change
-            16.0, 6552.5, 3, 0.0,  # noqa: E241 4th quarterly state change
+            8.0,  QTR[0], 3, 0.0,  # noqa: E241 2nd quarterly state change
+            12.0, QTR[1], 3, 0.0,  # noqa: E241 3rd quarterly state change
+            16.0, QTR[2], 3, 0.0,  # noqa: E241 4th quarterly state change
             -1.0, 8760.0, 4, 0.0,  # noqa: E241 first call to subroutine "year"
             0,    0.5,    2, 0.0,  # noqa: E241 first call to subroutine "week"
             4.0,  JSTEP,  1, 0.0,  # noqa: E241 first Monte Carlo draw
diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 3ca08eb..e87e148 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -93,7 +93,7 @@ def narpMain(TEST_DIR):
     # ----------------------------Finish data processing part--------------------------
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
-    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
+    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS, QTR)
     IQ = 0  # initialize the quarter index to be 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
-- 
2.43.0


From 5943e0431181953b924482637bb3bb85ef62e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 13/31] fix: tm2: the unit outage table of the transmission
 trace crashed and was shifted by one

---
 reliabilityassessment/monte_carlo/tm2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index f76c144..db62660 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -191,18 +191,18 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
-            for i in range[JXX]:
+            for i in range(JXX):
                 f.write("%4d\n " % (NNTAB[i]))
 
             if JFLAG != 1:
@@ -266,15 +266,15 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
             for i in range(JXX):
-- 
2.43.0


From e849309df5700469942a6444ec189f1437f59d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 14/31] fix: tm2: load-loss sharing called conls with a surplus
 argument

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index db62660..85f4a61 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -234,7 +234,7 @@ def tm2(
                 )
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
-            BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
+            BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
         # NXT = NX + 1 defined but not used in original Fortran
-- 
2.43.0


From 0efaebd333a7c03d50092eac86c1b33bcc79489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 15/31] fix: tm2: the impedance matrix was overwritten by the
 admittance matrix after a curtailment

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 85f4a61..a729916 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -302,6 +302,6 @@ def tm2(
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-    ZB[:NX, :NX] = BT[:NX, :NX].copy()
+    ZB[:NX, :NX] = ZT[:NX, :NX].copy()
 
     return FLOW, INDIC
-- 
2.43.0


From 34ef2b122e5a607cf51fc0cb8934b7c71c214cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 16/31] fix: tm2: removing a line to the reference area added
 its outage admittance a second time

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index a729916..303f6ec 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -103,7 +103,7 @@ def tm2(
         for bij in [BIJ, -BLP0[i]]:
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
-            admref(BB, NII, BIJ)
+            admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From d67e7d25e80f874890cabba59cb75a5169fbf110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 17/31] fix: transm: an area with several lines kept only the
 last line's flow in its flow limits

---
 reliabilityassessment/monte_carlo/transm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index de0446c..6ef0855 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -112,10 +112,11 @@ def transm(
         BLP[:NL, 1] -= FLOW[:NL]
         BLP[:NL, 2] += FLOW[:NL]
         BLP[:NL, [1, 2]] = BLP[:NL, [1, 2]].clip(min=0.0)
-        BN[LP[:NL, 1], 3] += FLOW[:NL]
-        BN[LP[:NL, 1], 4] -= FLOW[:NL]
-        BN[LP[:NL, 2], 3] += FLOW[:NL]
-        BN[LP[:NL, 2], 4] -= FLOW[:NL]
+        for i in range(NL):
+            BN[LP[i, 1], 3] += FLOW[i]
+            BN[LP[i, 1], 4] -= FLOW[i]
+            BN[LP[i, 2], 3] += FLOW[i]
+            BN[LP[i, 2], 4] -= FLOW[i]
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From 0bcc4c069756076528ff50d5d89057b6e60ae426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 18/31] fix: transm: a first-stage flow uses up the flow limit
 of the area it enters instead of raising it

---
 reliabilityassessment/monte_carlo/transm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index 6ef0855..256c8c3 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -115,8 +115,8 @@ def transm(
         for i in range(NL):
             BN[LP[i, 1], 3] += FLOW[i]
             BN[LP[i, 1], 4] -= FLOW[i]
-            BN[LP[i, 2], 3] += FLOW[i]
-            BN[LP[i, 2], 4] -= FLOW[i]
+            BN[LP[i, 2], 3] -= FLOW[i]
+            BN[LP[i, 2], 4] += FLOW[i]
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From 2f92dde81715892675b22ef18a9951481b8a63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 19/31] fix: datax: any firm contract crashed, and its days
 were shifted by one

---
 reliabilityassessment/data_processing/datax.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index cb83588..f719e79 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -119,15 +119,16 @@ def datax(inputB_dict):
     INTCHR = np.zeros((MAX_CONTRACTS, 2))
     if inputB_dict["ZZFC"] and len(inputB_dict["ZZFC"]["SNRI"]) > 0:
         for i, (src, dst) in enumerate(
-            dict.fromkeys(zip(inputB_dict["ZZFC"]["NAR"]), inputB_dict["ZZFC"]["NAE"])
+            zip(inputB_dict["ZZFC"]["NAR"], inputB_dict["ZZFC"]["NAE"])
         ):
-            JENT[src, dst] = i
-            INTCHR[i, :] = src, dst
+            if JENT[src, dst] == -1:
+                JENT[src, dst] = i
+                INTCHR[i, :] = src, dst
             beg_day, end_day = (
-                inputB_dict["ZZFC"]["BEG DAY"][i],
-                inputB_dict["ZZFC"]["END DAY"][i],
+                inputB_dict["ZZFC"]["BEG DAY"][i] - 1,  # 0-based index in Python
+                inputB_dict["ZZFC"]["END DAY"][i] - 1,
             )
-            INTCH[i, beg_day : end_day + 1] = inputB_dict["ZZFC"]["MW"][i]
+            INTCH[JENT[src, dst], beg_day : end_day + 1] += inputB_dict["ZZFC"]["MW"][i]
 
     # --------------------------------------------------------------
     # Read ownership of units and create appropriate arrays.
-- 
2.43.0


From 02c7e4a2910a668faa1a65f6eaefc37323c803f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 20/31] fix: readInputB: ownership percentages of a unit are
 one comma-separated number per area

---
 reliabilityassessment/data_processing/readInputB.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index f7ef13a..99bc81a 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -473,7 +473,9 @@ def read_card_ZZOD(filepath):
     """
     Percentage ownership by each area
     """
-    data["PERCENT"] = df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+    data["PERCENT"] = np.array(
+        [list(map(float, str(p).split(","))) for p in df_ZZOD["PERCENT OWNED BY AREA"]]
+    )
 
     return data
 
-- 
2.43.0


From 4ce8985e0f9c0473af4753dbd599b51333e44efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 21/31] fix: smaint: the last week of the year was never marked
 as a planned outage week

---
 reliabilityassessment/data_processing/smaint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index de2f88b..611cf17 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -89,8 +89,8 @@ def smaint(
         for wi in {3, 5}:
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
-                # the index of last week of a simulation year is 51
-                j2 = min(51, j1 + ID[i, wi + 1])
+                # the index of last week of a simulation year is 51 (j2 is exclusive)
+                j2 = min(52, j1 + ID[i, wi + 1])
                 # increase total number of units under maintenance for the weeks
                 JPLOUT[j1:j2, 0] += 1
                 JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
-- 
2.43.0


From 99b0a7c506f826016b7e91df71f09f7ea2e624dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 22/31] fix: resca: a peak day in the fourth season used the
 capacities of the first season

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 02b6437..80d8250 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.argmax(QTR > IDAY * 24)
+        IPER = np.sum(IDAY * 24 > QTR)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From 5a82cb0746943859453df52eb3145c3a01a1aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 23/31] fix: xldnew: area numbers above nine were truncated to
 their first digit

---
 reliabilityassessment/data_processing/xldnew.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index 9d4f510..a0d8ff4 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -27,7 +27,7 @@ def xldnew(FileNameAndPath, PKLOAD):
 
     for line in Lines:
         if line[:4] == "AREA":
-            areaIdx = int(line[6]) - 1
+            areaIdx = int(line[6:]) - 1
             hourIdx = 0
         else:
             HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-- 
2.43.0


From 606ad5b1379336fd0fde7fbac4372ed9a74daa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 24/31] fix: cvchk: a rounding error below zero made the
 variance's root complex and the test crash

---
 reliabilityassessment/monte_carlo/cvchk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/cvchk.py b/reliabilityassessment/monte_carlo/cvchk.py
index 75cb245..547c739 100644
--- a/reliabilityassessment/monte_carlo/cvchk.py
+++ b/reliabilityassessment/monte_carlo/cvchk.py
@@ -34,7 +34,7 @@ def cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
 
     XX = CVTEST * XMEAN if CVTEST else 0.025 * XMEAN
 
-    STDERR = pow(((SSQ / IYEAR) - XMEAN**2) / IYEAR, 0.5)
+    STDERR = pow(max((SSQ / IYEAR) - XMEAN**2, 0.0) / IYEAR, 0.5)
 
     # how many multiples of our "COV" to the given threshold
     XKCPXX = STDERR / XX if XX else 0.0
-- 
2.43.0


From 60111a8f801b4f843563be237e3d868b31c32867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 25/31] fix: hrstat: a shortage with a balanced pool was
 charged to generation for areas but transmission for the pool

---
 reliabilityassessment/monte_carlo/hrstat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/hrstat.py b/reliabilityassessment/monte_carlo/hrstat.py
index b4bdef8..4b93d88 100644
--- a/reliabilityassessment/monte_carlo/hrstat.py
+++ b/reliabilityassessment/monte_carlo/hrstat.py
@@ -56,7 +56,7 @@ def hrstat(
     for j, X in enumerate(MARGIN):
         if X < 0.0:
             LSFLG[j] += 1
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTHA[j, NST] += 1
                 MGNTHA[j, NST] += int(-X)
                 MGNTHP[NST] += int(-X)
@@ -122,7 +122,7 @@ def _hrstat(
         LOLGHP[NST] += 1
 
     LSFLG[MARGIN < 0] += 1
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTHA[:, NST][MARGIN < 0] += 1
         MGNTHA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTHP[NST] -= int(MARGIN[MARGIN < 0].sum())
-- 
2.43.0


From f5bb7e7dcdc194c08d0afeefa3a6cdb5dd94acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 26/31] fix: pkstat: a peak shortage with a balanced pool was
 charged to generation for areas but transmission for the pool

---
 reliabilityassessment/monte_carlo/pkstat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/pkstat.py b/reliabilityassessment/monte_carlo/pkstat.py
index c5a6d11..49da100 100644
--- a/reliabilityassessment/monte_carlo/pkstat.py
+++ b/reliabilityassessment/monte_carlo/pkstat.py
@@ -53,7 +53,7 @@ def _pkstat(
 
     for j, X in enumerate(MARGIN):
         if X < 0.0:
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTPA[j, NST] += 1
                 MGNTPA[j, NST] -= int(X)
                 MGNTPP[NST] -= int(X)
@@ -114,7 +114,7 @@ def pkstat(NST, MARGIN, LOLGPA, LOLGPP, LOLTPA, LOLTPP, MGNGPA, MGNGPP, MGNTPA,
     else:
         LOLGPP[NST] += 1
 
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTPA[:, NST][MARGIN < 0] += 1
         MGNTPA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTPP[NST] -= MARGIN[MARGIN < 0].sum().astype(int)
-- 
2.43.0


From 034a4ee51d1a58e598a9b27ec536575fc06dfb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 27/31] fix: resca: a peak on the first day of a season used
 the capacities of the season before

---
 reliabilityassessment/data_processing/resca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 80d8250..5d2c627 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.sum(IDAY * 24 > QTR)
+        IPER = np.sum((IDAY + 1) * 24 > QTR)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
@@ -81,7 +81,7 @@ def _resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IHR = IDAY * 24
+        IHR = (IDAY + 1) * 24
         IPER = 0
 
         if IHR > QTR[0]:
-- 
2.43.0


From ab0cc419027ed6b434b005dd9b3c8595c7ec9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 28/31] fix: net: the first curtailment variable kept the wrong
 sign when it was in the basis

---
 reliabilityassessment/monte_carlo/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/net.py b/reliabilityassessment/monte_carlo/net.py
index 298b0cf..b80531e 100644
--- a/reliabilityassessment/monte_carlo/net.py
+++ b/reliabilityassessment/monte_carlo/net.py
@@ -36,7 +36,7 @@ def _net(B, B1, RES, IBAS, BS, M, N):
 
     for i in range(M):
         k = IBAS[i]
-        if k > NX1:
+        if k >= NX1:
             RES[k, 0] = -BS[i]
             continue
         RES[k, 0] = BS[i]
@@ -80,7 +80,7 @@ def net(B, B1, RES, IBAS, BS, M, N):
     RES[:N, :3] = 0
 
     RES[IBAS[:M], 0] = BS[:M]
-    RES[IBAS[:M][IBAS[:M] > N - M], 0] *= -1
+    RES[IBAS[:M][IBAS[:M] >= N - M], 0] *= -1
 
     RES[N - M : N, 1][B1[:M] < 0] = 1
     RES[N - M : N, 0] += B[:M]
-- 
2.43.0


From 3787afde67880952bbdce513f6c07bb38d9a4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 29/31] fix: conls: an area's import and export limits were
 exchanged in the optimisation

---
 reliabilityassessment/monte_carlo/conls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/conls.py b/reliabilityassessment/monte_carlo/conls.py
index a8a18e5..e3d5544 100644
--- a/reliabilityassessment/monte_carlo/conls.py
+++ b/reliabilityassessment/monte_carlo/conls.py
@@ -182,9 +182,9 @@ def conls(BC, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS):
         for j in range(NXD):
             K = LT[i]
             A[i + M, j] = A[i, j]
-            B[i + M] = BN[K, 3]
+            B[i + M] = BN[K, 4]
             A[i + M + NX1, j] = -A[i, j]
-            B[i + M + NX1] = BN[K, 4]
+            B[i + M + NX1] = BN[K, 3]
         A[i + M, i + N] = 1.0
         A[i + M + NX1, i + N + NX1] = 1.0
 
-- 
2.43.0


From 162c6c1184d48b59f065e992fe9c4decc6b2c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 30/31] fix: tm2: a line to the reference area that is
 completely out of service stayed in the matrices

---
 reliabilityassessment/monte_carlo/tm2.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 303f6ec..ae825b8 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -97,10 +97,9 @@ def tm2(
         NII = IEQ[NI]
         BIJ = BLP[i, 0]
 
-        if BIJ == 0.0:
-            continue
-
         for bij in [BIJ, -BLP0[i]]:
+            if bij == 0.0:
+                continue
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
             admref(BB, NII, bij)
-- 
2.43.0


From aa908c5471c2b099b913ef83087f5ced216b189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 31/31] fix: report: a rounding error below zero made a
 standard deviation NaN

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index afb3a6d..96a4a31 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -451,10 +451,10 @@ def report(
 
     for IAR in range(NOAREA):
         for J in range(3):
-            SSQA[IAR, J] = (SSQA[IAR, J] / XYEAR) ** 0.5
+            SSQA[IAR, J] = (max(0.0, SSQA[IAR, J]) / XYEAR) ** 0.5
 
     for J in range(3):
-        SSQP[J] = (SSQP[J] / XYEAR) ** 0.5
+        SSQP[J] = (max(0.0, SSQP[J]) / XYEAR) ** 0.5
 
     SUSTAT[NOAREA, 3] = XLOL
     SUSTAT[NOAREA, 4] = XLOLP
-- 
2.43.0

