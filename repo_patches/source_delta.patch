From 3fd14e037f7c2636aceee37bf04c3343d3cd952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:04 +0000
Subject: [PATCH 1/5] fix: djcl, djcal: 32-bit overflow for accepted dates
 beyond about MJD 5.3e8

---
 src/djcal.cc | 8 ++++----
 src/djcl.cc  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/djcal.cc b/src/djcal.cc
index e891a62..aff29ed 100644
--- a/src/djcal.cc
+++ b/src/djcal.cc
@@ -56,12 +56,12 @@ bool djcal(int ndp, double mjd, Date& date) {
         const double d = (df - f) / fd;
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001; // intermediate results may not fit into 32 bits
 
-        const int n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const long long n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = (int) (n4 / 1461 - 4712);
         date.d_month =  ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_ifraction = f_nint(f);
diff --git a/src/djcl.cc b/src/djcl.cc
index 2482bf1..0991427 100644
--- a/src/djcl.cc
+++ b/src/djcl.cc
@@ -46,12 +46,12 @@ bool djcl(double mjd, Date& date) {
         const double d = f_anint(mjd - f);
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001; // intermediate results may not fit into 32 bits
 
-        const int n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const long long n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = (int) (n4 / 1461 - 4712);
         date.d_month = ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_fraction = f;
-- 
2.43.0


From 6607810f759837b13fba26099491da12e18b2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:04 +0000
Subject: [PATCH 2/5] fix: epco: accept 'j' as the requested and 'b' as the
 given epoch type, as documented

---
 src/epco.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/epco.cc b/src/epco.cc
index e080738..7b444c5 100644
--- a/src/epco.cc
+++ b/src/epco.cc
@@ -34,12 +34,16 @@ namespace sla {
 double epco(char result, char given, double epoch) {
     if (result == 'b') {
         result = 'B';
+    } else if (result == 'j') {
+        result = 'J';
     }
     if (result != 'B' && result != 'J') {
         return 0.0;
     }
     if (given == 'j') {
         given = 'J';
+    } else if (given == 'b') {
+        given = 'B';
     }
     if (given != 'B' && given != 'J') {
         return 0.0;
-- 
2.43.0


From 069101368f35fd81d9bbd4485732ceb7e120c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:24 +0000
Subject: [PATCH 3/5] fix: fitxy: report no solution when a two-sample
 solid-body fit is singular

---
 src/fitxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitxy.cc b/src/fitxy.cc
index 9367044..fcfc1f8 100644
--- a/src/fitxy.cc
+++ b/src/fitxy.cc
@@ -66,7 +66,7 @@ FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSample
     double b_old = 0.0;
     double c_old = 0.0;
     double d_old = 0.0;
-    double sdr2_old = 0.0;
+    double sdr2_old = -1.0; // no non-singular first solution yet
 
     // get floating-point value of the number of samples
     auto num_samples = (const double) nsamples;
-- 
2.43.0


From 9bb003a681f932e5f0409051fb456efb624152a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:54 +0000
Subject: [PATCH 4/5] fix: dpav: return zero for coincident points whatever
 their rounding

---
 src/dpav.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/dpav.cc b/src/dpav.cc
index 74690d0..d08dba8 100644
--- a/src/dpav.cc
+++ b/src/dpav.cc
@@ -35,23 +35,19 @@ namespace sla {
  *   coincident, zero is returned.
  */
 double dpav(const Vector<double> va, const Vector<double> vb) {
-    // unit vector to point 1
-    double x1 = va[0];
-    double y1 = va[1];
-    double z1 = va[2];
+    // vector to point 1, and its length
+    const double x1 = va[0];
+    const double y1 = va[1];
+    const double z1 = va[2];
     const double length = std::sqrt(x1 * x1 + y1 * y1 + z1 * z1);
-    if (length != 0.0) {
-        x1 = x1 / length;
-        y1 = y1 / length;
-        z1 = z1 / length;
-    }
+
     // vector to point 2
     const double x2 = vb[0];
     const double y2 = vb[1];
     const double z2 = vb[2];
 
-    // position angle
-    const double sq = y2 * x1 - x2 * y1;
+    // position angle; the vectors are not normalized, so that the terms cancel exactly if the points are coincident
+    const double sq = (y2 * x1 - x2 * y1) * length;
     double cq = z2 * (x1 * x1 + y1 * y1) - z1 * (x2 * x1 + y2 * y1);
     if (sq == 0.0 && cq == 0.0) {
         cq = 1.0;
-- 
2.43.0


From 9707d3609920751764e2a3fcfd202b5441c63a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:06 +0000
Subject: [PATCH 5/5] fix: polmo: finite azimuth correction for a site exactly
 on the celestial pole

---
 src/polmo.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polmo.cc b/src/polmo.cc
index a61911e..6a60942 100644
--- a/src/polmo.cc
+++ b/src/polmo.cc
@@ -104,9 +104,12 @@ void polmo(double m_long, double m_phi, double x_pm, double y_pm, double& t_long
     cos_phi = std::sqrt(xt * xt + yt * yt);
     if (cos_phi == 0.0) {
         xt = 1.0;
+        sin_long = 0.0;
+        cos_long = 1.0;
+    } else {
+        sin_long = yt / cos_phi;
+        cos_long = xt / cos_phi;
     }
-    sin_long = yt / cos_phi;
-    cos_long = xt / cos_phi;
 
     // return true longitude and true geodetic latitude of site
     t_long = (xt != 0.0 || yt != 0.0)? std::atan2(yt, xt): 0.0;
-- 
2.43.0

