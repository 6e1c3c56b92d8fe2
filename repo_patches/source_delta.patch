From 073226586255ae96c71e10c51922d81aa1bd7c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 01/21] fix: U_shape places both legs of the U

---
 ghedt/coordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/coordinates.py b/ghedt/coordinates.py
index 7f0b7a2..59dcfe1 100644
--- a/ghedt/coordinates.py
+++ b/ghedt/coordinates.py
@@ -67,6 +67,7 @@ def U_shape(Nx, Ny, Bx, By):
             U.append((i * Bx, 0.))
         for j in range(1, Ny):
             U.append((0., j * By))
+            U.append(((Nx-1) * Bx, j * By))
     else:
         nbh = Nx * Ny
         U = rectangle(Nx, Ny, Bx, By)
-- 
2.43.0


From 276421b72c8edeed7995e62b11de66398ef1be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 02/21] fix: bi_rectangle_zoned_nested spaces its first fields
 along the matching sides

The row counts N_min_1 and N_min_2 belong to the longer and the shorter side,
but the spacings were taken from length_x and length_y, so that boreholes left
the land whenever length_x < length_y.
---
 ghedt/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index f9018f6..9a8926b 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -288,8 +288,8 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
     for i in range(len(n_1_values) + len(n_2_values)-1):
         domain = []
         if l == 0:
-            b_x = length_x / (N_min_1 - 1)
-            b_y = length_y / (N_min_2 - 1)
+            b_x = length_1 / (N_min_1 - 1)
+            b_y = length_2 / (N_min_2 - 1)
 
             # go from one borehole to a line
             for l in range(1, N_min_1 + 1):
-- 
2.43.0


From c0a778af9c097f8ce1e80ef25d56dfef3825f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 03/21] fix: zoned_rectangle_domain transposes its first field
 like the others

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 9a8926b..2300ce0 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -212,6 +212,8 @@ def zoned_rectangle_domain(length_x, length_y, n_x, n_y, transpose=False):
     n_i2 = 1
 
     z = dt.coordinates.zoned_rectangle(n_1, n_2, b_1, b_2, n_i1, n_i2)
+    if transpose:
+        z = dt.coordinates.transpose_coordinates(z)
     zoned_rectangle_domain.append(z)
 
     while n_i1 < (n_1 - 2) or n_i2 < (n_2 - 2):
-- 
2.43.0


From 7645b10eaa7dd47399545cf27bef9f8091807682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 04/21] fix: bi_rectangle_nested hands its row count to
 bi_rectangular

Recovering the count as ceil(length_2 / (length_2 / (n_2 - 1)) + 1) can give one
row too many by round-off, and with it a spacing below the minimum.
---
 ghedt/domains.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 2300ce0..12c644f 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -90,7 +90,7 @@ def rectangular(length_x, length_y, B_min, B_max, disp=False):
 
 def bi_rectangular(
         length_x, length_y, B_min, B_max_x, B_max_y, transpose=False,
-        disp=False):
+        disp=False, n_2=None):
     # Make this work for the transpose
     if length_x >= length_y:
         length_1 = length_x
@@ -118,9 +118,13 @@ def bi_rectangular(
 
     N_min = int(np.ceil(n_1_min).tolist())
     N_max = int(np.floor(n_1_max).tolist())
+    # The number of rows along the shorter side can be given, because it can
+    # not always be recovered from the spacing (floating point round-off)
+    if n_2 is None:
+        n_2 = int(np.ceil((length_2 / B_max_2) + 1))
+
     for n_1 in range(N_min, N_max + 1):
 
-        n_2 = int(np.ceil((length_2 / B_max_2) + 1))
         b_2 = length_2 / (n_2 - 1)
 
         b_1 = length_1 / (n_1 - 1)
@@ -184,7 +188,7 @@ def bi_rectangle_nested(length_x, length_y, B_min, B_max_x, B_max_y,
         b_2 = length_2 / (n_2 - 1)
         bi_rectangle_domain = dt.domains.bi_rectangular(
             length_1, length_2, B_min, B_max_1, b_2, transpose=transpose,
-            disp=disp)
+            disp=disp, n_2=n_2)
         bi_rectangle_nested_domain.append(bi_rectangle_domain)
 
     return bi_rectangle_nested_domain
-- 
2.43.0


From 6dcb1d7927e006fec6f56486ca46d8b67964c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 05/21] fix: reorder_domain keeps every field of equal size

Fields with the same number of boreholes were replaced by copies of the first
of them.
---
 ghedt/domains.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 12c644f..a545823 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -411,21 +411,7 @@ def verify_excess(domain):
 
 def reorder_domain(domain):
     # Reorder the domain so that the number of boreholes successively grow
-    numbers = {}
-    for i in range(len(domain)):
-        numbers[i] = len(domain[i])
-
-    sorted_values = sorted(numbers.values())
-
-    reordered_domain = []
-
-    for i in sorted_values:
-        for j in numbers.keys():
-            if numbers[j] == i:
-                reordered_domain.append(domain[j])
-                break
-
-    return reordered_domain
+    return sorted(domain, key=len)
 
 
 def visualize_domain(domain, output_folder_name):
-- 
2.43.0


From 78cfaf471f470ae7d9e4f893187193ff28b0a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 06/21] fix: polygonal_land_constraint works without a building
 and drops empty fields

An absent building description reached cv2.pointPolygonTest as an empty contour
and crashed; a field lying wholly on the building was kept as an empty list.
---
 ghedt/domains.py             | 2 ++
 ghedt/feature_recognition.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index a545823..54ce795 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -382,6 +382,8 @@ def polygonal_land_constraint(property_boundary, B_min, B_max_x, B_max_y,
             new_coordinates = dt.feature_recognition.remove_cutout(
                 new_coordinates, boundary=building_description,
                 remove_inside=True, keep_contour=False)
+            if len(new_coordinates) == 0:
+                continue
             new_coordinates_domain.append(new_coordinates)
         coordinates_domain_nested_cutout.append(new_coordinates_domain)
 
diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 14a41c3..8b919c7 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -16,8 +16,9 @@ def scale_coordinates(coordinates, scale):
 
 def remove_cutout(coordinates, boundary=None, remove_inside=True,
                   keep_contour=True):
-    if boundary is None:
-        boundary = []
+    if boundary is None or len(boundary) == 0:
+        # There is nothing to cut out
+        return list(coordinates)
 
     # cv2.pointPolygonTest only takes integers, so we scale by 10000 and then
     # scale back to keep precision
-- 
2.43.0


From 6d9969109825ff664972d7eebe0a571a2360ec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 07/21] fix: the peak day of a month is the calendar day of its
 peak hour

ceil(hour / 24) put a peak in the first hour of a day on the day before (and on
day 0 for the first hour of the month), so that the two-day profile kept for the
month did not contain the peak.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b66ba95..214fd97 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -188,9 +188,13 @@ class Loads:
             # Average monthly load in kW
             self.monthly_average[i] = self.monthly_total[i] / len(month_loads)
 
-            # Day of month the peak load occurs (e.g. 1-31)
-            self.monthly_peak_day[i] = math.ceil(month_loads.index(
-                self.monthly_peak[i]) / hours_in_day)
+            # Day of month the peak load occurs (e.g. 1-31), 0 if there is no
+            # load in the month
+            if self.monthly_peak[i] > 0.0:
+                self.monthly_peak_day[i] = month_loads.index(
+                    self.monthly_peak[i]) // hours_in_day + 1
+            else:
+                self.monthly_peak_day[i] = 0
 
             hours_in_previous_months += hours_in_month
 
-- 
2.43.0


From 990730e50771a903f9ba535ad8a2986ab15b034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 08/21] fix: process_monthly_loads takes out of the average
 only the peaks it places

Peaks that are left out because both fall on the same day were still subtracted
from the month's energy and duration, as was the duration of a peak of zero, so
that the month's energy was not conserved.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 214fd97..c9e2dab 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -571,21 +571,22 @@ class HybridLoad:
             # There may be a more sophisticated way to do this, but I will loop
             # through the lists mduration is the number of hours over which to
             # calculate the average value for the month (edited)
+            mduration = monthdays(mi) * 24
+            mload = cl.monthly_total[mi] - hl.monthly_total[mi]
             if include_peak:
-                mduration = \
-                    monthdays(mi) * 24 - cl.monthly_peak_duration[mi] - \
-                    hl.monthly_peak_duration[mi]
-                mpeak_cl = cl.peak_energy(mi)  # peak clg energy
-                mpeak_hl = hl.peak_energy(mi)  # peak htg energy
-                mload = cl.monthly_total[mi] - hl.monthly_total[mi] - mpeak_cl + mpeak_hl
-                mrate = mload / mduration
                 peak_day_diff = cl.monthly_peak_day[mi] - hl.monthly_peak_day[mi]
             else:
                 # peak load not used this month
-                mduration = monthdays(mi) * 24
-                mload = cl.monthly_total[mi] - hl.monthly_total[mi]
-                mrate = mload / mduration
                 peak_day_diff = 0
+            # Only the peaks that will be placed are taken out of the average
+            if peak_day_diff != 0:
+                if cl.monthly_peak[mi] > 0:
+                    mduration -= cl.monthly_peak_duration[mi]
+                    mload -= cl.peak_energy(mi)  # peak clg energy
+                if hl.monthly_peak[mi] > 0:
+                    mduration -= hl.monthly_peak_duration[mi]
+                    mload += hl.peak_energy(mi)  # peak htg energy
+            mrate = mload / mduration
 
             if peak_day_diff < 0:
                 order = [cl, hl]
-- 
2.43.0


From dbd2a3400b10177d134b3301bb039a498073a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 09/21] fix: a month's peak window stays inside of the month

A long peak on the first or last day of a month reached into the month before or
after it, and the hours of the hybrid sequence were no longer increasing.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index c9e2dab..19743d3 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -363,15 +363,20 @@ class Loads:
         # Place the peaks roughly midway through the day they occur on.
         # (In JDS's opinion, this should be amply accurate for the
         # hybrid time step.)
-        # Catch the first and last peak hours to make sure they aren't 0
-        # Could only be 0 when the first month has no load.
+        # Catch the first and last peak hours to make sure they are inside of
+        # the month, a long peak on its first or last day could reach out of it
         _hours_to_mid_day = (self.monthly_peak_day[m_idx] - 1) * 24 + 12
         _half_peak_duration = (self.monthly_peak_duration[m_idx] / 2)
         first_hour_peak = \
             firstmonthhour(total_months) + _hours_to_mid_day - _half_peak_duration
-        if first_hour_peak < 0.:
-            first_hour_peak = 1.0e-6
+        month_start = firstmonthhour(total_months) - 1
+        month_end = lastmonthhour(total_months)
+        if first_hour_peak <= month_start:
+            first_hour_peak = month_start + 1.0e-6
         last_hour_peak = first_hour_peak + self.monthly_peak_duration[m_idx]
+        if last_hour_peak >= month_end:
+            last_hour_peak = month_end - 1.0e-6
+            first_hour_peak = last_hour_peak - self.monthly_peak_duration[m_idx]
         return first_hour_peak, last_hour_peak
 
 
-- 
2.43.0


From f62d9e673cded8fd2156d80ec75925deb75ae4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 10/21] fix: find_peak_durations uses the maximum of the
 two-day profile

With a load up to 0.1 kW above the month's peak on the day before, the peak
response stayed below the nominal response and interpolation raised ValueError.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 26 +++++--------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 19743d3..907c368 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -260,27 +260,13 @@ class Loads:
             # two day cooling loads (or heat rejection) in kWh
             current_two_day_load = [0.] + self.monthly_two_day_hourly_peak[i]
 
-            # This tolerance applies to the difference between the current
-            # months peak load and the maximum of the two-day load. If the
-            # absolute value of the difference between the current months
-            # peak load and the current two-day peak load is within this
-            # tolerance, then the maximum of the two-day load is equal to the
-            # maximum of the current month. If the absolute difference is
-            # greater than the tolerance, then the two-day peak load contains
-            # a load greater than the current months peak load. The tolerance
-            # could ONLY be exceeded when the first 24 hours is located in the
-            # previous month.
-            tol = 0.1
-
-            # Ensure the peak load for the two-day load profile is the same or
-            # greater than the monthly peak load. This check is done in case
-            # the previous month contains a higher load than the current month.
-            load_diff = self.monthly_peak[i] - max(current_two_day_load)
+            # The two-day load profile contains the current months peak load.
+            # Its maximum is greater than the current months peak load ONLY
+            # when the first 24 hours are located in the previous month and
+            # contain a higher load. The greater of the two is used, so that the
+            # peak load response is never below the nominal load response.
             # monthly peak cooling load (or heat rejection) in kW
-            if abs(load_diff) < tol:
-                current_month_peak_cl = self.monthly_peak[i]
-            else:
-                current_month_peak_cl = max(current_two_day_load)
+            current_month_peak_cl = max(current_two_day_load)
 
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
-- 
2.43.0


From b1f62bb57189103fe8a7d514df8f75d53ff0e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 11/21] fix: round-off does not stop the peak duration of a
 peak lasting two days

With the peak load present for 48 hours the nominal response equals the peak
response, and round-off put it out of the interpolation range (ValueError).
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 907c368..1cf1747 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -331,7 +331,9 @@ class Loads:
             hour_time, q_nominal, g_sts, Rb, two_pi_k, ts)
         two_day_fluid_temps_nm.append(dT_fluid_nm)
 
-        dT_fluid_nm_max = max(dT_fluid_nm)
+        # When the peak load lasts for the two days both maximums are the same,
+        # do not let round-off take the nominal one out of the peak's range
+        dT_fluid_nm_max = min(max(dT_fluid_nm), max(dT_fluid_pk))
 
         if dT_fluid_nm_max > 0.0:
             f = scipy.interpolate.interp1d(dT_fluid_pk, hour_time)
-- 
2.43.0


From 8c12ebf2533104674b2cd975850b5ba68a5414e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 12/21] fix: combine_sts_lts stops before a short-time point at
 the first long-time point

Such a point was kept as well (duplicate abscissa), or ran off the end of the
list if it was the last short-time point.
---
 ghedt/ground_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d0dc134..e854d68 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -95,7 +95,7 @@ class BaseGHE:
             # find where to stop in sts
             i = 0
             value = log_time_sts[i]
-            while value <= min_log_time_lts:
+            while value < min_log_time_lts:
                 i += 1
                 value = log_time_sts[i]
             log_time = log_time_sts[0:i] + log_time_lts
-- 
2.43.0


From d25492dbfdc54b56c1ce6267ac8a11532fb2d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 13/21] fix: the hourly simulation takes only the requested
 hours

A span that is not a whole number of years left more loads than hours
(IndexError).
---
 ghedt/ground_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index e854d68..7c7519a 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -306,7 +306,7 @@ class GHE(BaseGHE):
             Q_dot = copy.deepcopy(self.hourly_extraction_ground_loads)
             # How many times does q need to be repeated?
             n_years = int(np.ceil(n_hours / 8760))
-            Q_dot = Q_dot * n_years
+            Q_dot = (Q_dot * n_years)[:n_hours]
             Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection
             t = np.arange(1, n_hours + 1, 1)
 
-- 
2.43.0


From 50c8f4a97d0c122ad86d8ebe641cff93f3d7d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 14/21] fix: an excess temperature of exactly zero does not
 stop the search

sign(0) raised ZeroDivisionError. Zero excess meets the limits, so it counts as
not positive.
---
 ghedt/search_routines.py | 2 +-
 ghedt/utilities.py       | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f6d259a..c66363a 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -147,7 +147,7 @@ class Bisection1D:
             pass
         else:
             # This domain does not bracked the solution
-            if T_0_upper < 0.0 and T_m1 < 0.0:
+            if T_0_upper <= 0.0 and T_m1 <= 0.0:
                 msg = 'Based on the loads provided, the excess temperatures ' \
                       'for the minimum and maximum number of boreholes falls ' \
                       'below 0. This means that the loads are "miniscule" or ' \
diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 8433034..e960fee 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -98,8 +98,10 @@ def sign(x: float) -> int:
     Determine the sign of a value, pronounced "sig-na"
     :param x: the input value
     :type x: float
-    :return: a 1 or a -1
+    :return: a 1 or a -1, where 0 counts as not positive (-1)
     """
+    if x == 0:
+        return -1
     return int(abs(x) / x)
 
 
-- 
2.43.0


From e3028749dd82c9bf69913ee2b8ccfe6e9fc7a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 15/21] fix: solve_root accepts a root at one of its bounds

An objective of exactly zero at a bound raised ZeroDivisionError.
---
 ghedt/peak_load_analysis_tool/equivalance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 8aab8ce..d7704c3 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -1,6 +1,6 @@
 import pygfunction as gt
 from copy import deepcopy
-from numpy import pi, log, sqrt
+from numpy import pi, log, sqrt, sign
 from scipy.optimize import brentq
 from . import borehole_heat_exchangers
 import ghedt.peak_load_analysis_tool as plat
@@ -39,11 +39,11 @@ def solve_root(x, objective_function, lower=None, upper=None,
     minus = objective_function(lower)
     plus = objective_function(upper)
     # get signs of upper and lower thermal conductivity bounds
-    kg_minus_sign = int(minus / abs(minus))
-    kg_plus_sign = int(plus / abs(plus))
+    kg_minus_sign = int(sign(minus))
+    kg_plus_sign = int(sign(plus))
 
     # Solve the root if we can, if not, take the higher value
-    if kg_plus_sign != kg_minus_sign:
+    if kg_plus_sign != kg_minus_sign or kg_plus_sign == 0:
         x = brentq(objective_function, lower, upper,
                    xtol=xtol, rtol=rtol, maxiter=maxiter)
     elif kg_plus_sign == -1 and kg_minus_sign == -1:
-- 
2.43.0


From 3ce34869b681cdd16710b98b4776941e4e558486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 16/21] fix: size leaves the heat exchanger at the height it
 found

The result of the root solver was dropped: the height left behind was the last
one tried, which is the maximum height when the limits are met at all heights.
---
 ghedt/ground_heat_exchangers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 7c7519a..ffd3615 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -333,11 +333,17 @@ class GHE(BaseGHE):
         # Make the initial guess variable the average of the heights given
         self.bhe.b.H = \
             (self.sim_params.max_Height + self.sim_params.min_Height) / 2.
-        # bhe.b.H is updated during sizing
-        plat.equivalance.solve_root(
-            self.bhe.b.H, local_objective, lower=self.sim_params.min_Height,
+        # The excess temperature decreases with height, it is negated so that
+        # the minimum height is taken if the limits are met at all heights, and
+        # the maximum height if they are met at none of them
+        H = plat.equivalance.solve_root(
+            self.bhe.b.H, lambda H: -local_objective(H),
+            lower=self.sim_params.min_Height,
             upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
             maxiter=50)
+        # Leave the heat exchanger at, and simulated for, the height found
+        if self.bhe.b.H != H:
+            local_objective(H)
         if self.bhe.b.H == self.sim_params.min_Height:
             warnings.warn('The minimum height provided to size this ground heat'
                           ' exchanger is not shallow enough. Provide a '
-- 
2.43.0


From 207aa511b797233b063f62c2a465ea841944874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 17/21] fix: Bisection2D searches the first domain if its
 single borehole is selected

Index 0 - 1 selected the last domain.
---
 ghedt/search_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index c66363a..24eedb5 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -251,8 +251,8 @@ class Bisection2D(Bisection1D):
             copy.deepcopy(self.calculated_temperatures))
 
         # We tacked on one borehole to the beginning, so we need to subtract 1
-        # on the index
-        inner_domain = coordinates_domain_nested[selection_key-1]
+        # on the index (the tacked on borehole belongs to the first domain)
+        inner_domain = coordinates_domain_nested[max(selection_key-1, 0)]
         self.coordinates_domain = inner_domain
 
         # Reset calculated temperatures
-- 
2.43.0


From 6431e7015d69d43d78a6dce381f7a4dd27849062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 18/21] fix: updating the mass flow rate updates the flow in
 the pipes

The convection coefficients of single and multiple U-tubes are computed from
m_flow_pipe, which kept the value of the first mass flow rate.
---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 1a90f24..2db1776 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -9,6 +9,8 @@ class BasePipe(object):
                  config=None):
         # borehole mass flow rate
         self.m_flow_borehole = m_flow_borehole
+        # flow configuration of the pipes
+        self.config = config
         # mass flow rate to each pipe
         self.m_flow_pipe = self.compute_mass_flow_rate_pipe(m_flow_borehole,
                                                             config)
@@ -63,6 +65,9 @@ class BasePipe(object):
         return output
 
     def compute_resistances(self):
+        # The mass flow rate of the borehole may have been updated
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            self.m_flow_borehole, self.config)
         # Convection heat transfer coefficient of a single pipe
         self.h_f = \
             gt.pipes.convective_heat_transfer_coefficient_circular_pipe(
@@ -334,6 +339,8 @@ class CoaxialBase(object):
         return output
 
     def compute_resistances(self):
+        # The mass flow rate of the borehole may have been updated
+        self.m_flow_pipe = self.m_flow_borehole
         # Inner pipe thermal resistance
         self.R_p_in = gt.pipes. \
             conduction_thermal_resistance_circular_pipe(self.r_in_in,
-- 
2.43.0


From 392700098c5b208b34d9f71e3f0dd42e391f3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 19/21] fix: the search selects the smallest of the fields with
 the same excess

When several evaluated fields tie (an excess limited by the ground temperature
does not change with the field) the first evaluated one was taken, which can be
the largest field of the list.
---
 ghedt/search_routines.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 24eedb5..18e9c7a 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -199,8 +199,9 @@ class Bisection1D:
         # Make sure the field being returned pertains to the index which is the
         # closest to 0 but also negative (the maximum of all 0 or negative
         # excess temperatures)
-        keys = list(self.calculated_temperatures.keys())
-        values = list(self.calculated_temperatures.values())
+        # (the smallest field of those with the same excess)
+        keys = sorted(self.calculated_temperatures.keys())
+        values = [self.calculated_temperatures[key] for key in keys]
 
         negative_excess_values = [values[i] for i in range(len(values))
                                   if values[i] <= 0.0]
@@ -344,8 +345,9 @@ class BisectionZD(Bisection1D):
             copy.deepcopy(self.calculated_temperatures_nested[
                               selection_key_outer])
 
-        keys = list(self.calculated_temperatures.keys())
-        values = list(self.calculated_temperatures.values())
+        # (the smallest field of those with the same excess)
+        keys = sorted(self.calculated_temperatures.keys())
+        values = [self.calculated_temperatures[key] for key in keys]
 
         negative_excess_values = [values[i] for i in range(len(values))
                                   if values[i] <= 0.0]
-- 
2.43.0


From 0b98a75635ff5f43f6f75f819b287ca6d8e9160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:10 +0000
Subject: [PATCH 20/21] fix: heights sharing whole metres are sorted by their
 value

---
 ghedt/gfunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 99f1e5b..da6b054 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -473,7 +473,7 @@ class GFunction:
         # every B-spacing should be the same for each file
         B = float(list(g_values.keys())[0].split('_')[0])
 
-        keys = sorted(list(g_tmp.keys()), key=int)  # sort the heights in order
+        keys = sorted(g_tmp.keys())  # sort the heights in order
         # fill the g-function dictionary with sorted heights
         g = {key: g_tmp[key] for key in keys}
         # fill the burial depth dictionary with sorted heights
-- 
2.43.0


From c719fac46ebcc3361830a43d0913da0c2ae62cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 21/21] fix: a single g-function is only used at its own height

---
 ghedt/gfunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index da6b054..5bb31af 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -176,12 +176,12 @@ class GFunction:
             elif num_curves == 2:
                 kind = 'linear'
             else:
-                if (H_eq-height_values[0]) / height_values[0] < 0.001:
+                if abs(H_eq-height_values[0]) / height_values[0] < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
                     return g_function, rb, D, H_eq
-                elif min(height_values) - H_eq < 0.001:
+                elif abs(min(height_values) - H_eq) < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
-- 
2.43.0

