From 00846d688df2c3d0f90519b3e1ef572b75a39653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 01/77] fix: validate edits to Points before starting an update

A rejected set, append_list or replace raised after begin_update, which left
the series and everything derived from it updating forever: later edits were
applied, but dependents were not told and the domain was not refreshed.
---
 curvepy/points.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f51ad21..2206b40 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,10 +76,11 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        self.begin_update(domain)
-        self._is_equally_spaced = self._points_equally_spaced(self._points, points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
+        self.begin_update(domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points += points
         self._did_change_points()
         self.end_update(domain)
@@ -91,17 +92,17 @@ class Points(Curve):
             else:
                 raise Exception('Attempting to replace point outside of bounds')
 
+        nearest_i = int(math.ceil(self.x_index(point[0])))
+        nearest_p = self._points[nearest_i]
+        if self._force_equally_spaced and point[0] != nearest_p[0]:
+            raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
+
         update_domain = Interval.point(point[0])
         self.begin_update(update_domain)
 
-        nearest_i = int(math.ceil(self.x_index(point[0])))
-        nearest_p = self._points[nearest_i]
         if point[0] != nearest_p[0]:
-            if self._force_equally_spaced:
-                raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
-            else:
-                self._points.insert(nearest_i, point)
-                self._is_equally_spaced = False
+            self._points.insert(nearest_i, point)
+            self._is_equally_spaced = False
         else:
             self._points[nearest_i] = point
 
@@ -166,10 +167,11 @@ class Points(Curve):
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        self.begin_update(update_domain)
-        self._is_equally_spaced = self._points_equally_spaced([], points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced([], points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
+        self.begin_update(update_domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points = list(points)
         self._did_change_points()
         self.end_update(update_domain)
-- 
2.43.0


From a81409514b3a7ef63818e514e702316fe639c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 02/77] fix: check every point of a uniform series, not only
 the last

A uniform series indexes its points by x arithmetic, but set and append_list
only compared the last new x with the grid, so data with gaps or an irregular
interior was accepted and then looked up at the wrong index.
---
 curvepy/points.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 2206b40..d655fa8 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -6,6 +6,9 @@ PREVIOUS_INTERPOLATION = -1
 LINEAR_INTERPOLATION = 0
 NEXT_INTERPOLATION = 1
 
+# Maximum offset of a point from a uniform grid relative to the grid interval
+UNIFORM_TOL_REL = 1e-6
+
 ALL_INTERPOLATIONS = [
     PREVIOUS_INTERPOLATION,
     LINEAR_INTERPOLATION,
@@ -224,7 +227,16 @@ class Points(Curve):
             interval = new_points[1][0] - new_points[0][0]
 
         expected_last_x = start + interval * steps
-        return new_points[-1][0] == expected_last_x
+        if new_points[-1][0] != expected_last_x:
+            return False
+
+        # Every point must lie on the grid, not only the last one
+        tol = abs(interval) * UNIFORM_TOL_REL
+        first_step = steps - new_points_len + 1
+        for i in range(new_points_len - 1):
+            if abs(new_points[i][0] - (start + interval * (first_step + i))) > tol:
+                return False
+        return True
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From 3491269f1c28bbb38c4f106b5fba10ea2b8a453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 03/77] fix: keep an irregular series irregular when points are
 appended

Appending at the average interval of an irregular series made it switch to
the uniform lookup, which returned values of the wrong points.
---
 curvepy/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index d655fa8..45662cf 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -79,7 +79,7 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        is_equally_spaced = self._is_equally_spaced and self._points_equally_spaced(self._points, points)
         if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
         self.begin_update(domain)
@@ -231,7 +231,7 @@ class Points(Curve):
             return False
 
         # Every point must lie on the grid, not only the last one
-        tol = abs(interval) * UNIFORM_TOL_REL
+        tol = abs(interval) * UNIFORM_TOL_REL if self._force_equally_spaced else 0
         first_step = steps - new_points_len + 1
         for i in range(new_points_len - 1):
             if abs(new_points[i][0] - (start + interval * (first_step + i))) > tol:
-- 
2.43.0


From 8080b5faa32666c1c3e52fdf6e9ac4cb4de1c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 04/77] fix: report every x affected when a point of a series
 is replaced

Replacing or inserting a point changes the interpolated values up to both
neighbours, but observers were only told about the x of the point, so
derived curves sampled between points kept stale values.
---
 curvepy/points.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 45662cf..41f0a1b 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -100,7 +100,18 @@ class Points(Curve):
         if self._force_equally_spaced and point[0] != nearest_p[0]:
             raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
 
-        update_domain = Interval.point(point[0])
+        # Values between the point and its neighbours change as well
+        has_point = point[0] == nearest_p[0]
+        previous_i = nearest_i - 1
+        next_i = nearest_i + 1 if has_point else nearest_i
+        has_previous = previous_i >= 0
+        has_next = next_i < len(self._points)
+        update_domain = Interval(
+            self._points[previous_i][0] if has_previous else point[0],
+            self._points[next_i][0] if has_next else point[0],
+            start_open=has_previous,
+            end_open=has_next
+        )
         self.begin_update(update_domain)
 
         if point[0] != nearest_p[0]:
-- 
2.43.0


From 97800c3a84908c0cb1fcb3694884c95b2b4babb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 05/77] fix: allow observers to be removed during a
 notification

begin_update iterated the live list, so an observer removing itself made the
next one miss the update, and end_update raised KeyError when a callback
removed an observer which had not been called yet.
---
 curvepy/curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3bc1a4a..1d69a33 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -434,7 +434,10 @@ class Curve:
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
-        for token in self._ordered_observer_tokens:
+        for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by another observer
+                continue
             _, callback_interval, callback, _, callback_with_interval, _ = self._observer_data[token]
             if callback_interval is None or domain.intersects(callback_interval):
                 if callback is not None:
@@ -457,6 +460,9 @@ class Curve:
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
         for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by another observer
+                continue
             _, callback_interval, _, callback, _, callback_with_interval = self._observer_data[token]
             if callback_interval is None or update_interval.intersects(callback_interval):
                 if callback is not None:
-- 
2.43.0


From e66beb685ff5db0d6eedf13a504894335fb79ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 06/77] fix: leave the end of an open domain out of sampled
 points

sample_points honoured an open start but returned the end of an end-open
domain, so a trailing period window over a derived curve counted the current
value twice.
---
 curvepy/curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 1d69a33..9e5ae5f 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -202,11 +202,15 @@ class Curve:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-            if not domain.end_open and points[-1][0] != x_end:
+            if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
                 points.append((x_end, self.y(x_end)))
         else:
             raise Exception("Bad functions sample parameters.")
 
+        if domain.end_open:
+            while len(points) != 0 and points[-1][0] >= x_end:
+                del points[-1]
+
         return points
 
     def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
-- 
2.43.0


From 6839f8576de5f1982367421107be78fdd8943d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 07/77] fix: sample at half-integer multiples of the minimum
 step

The progress guard in sample_points compared rounded multiples of the step.
Rounding is to even, so 1.5 and 2.5 steps both became 2 and sampling raised.
---
 curvepy/curve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 9e5ae5f..fb4f89d 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -197,8 +197,7 @@ class Curve:
                     break
                 x1 = self.x_next(x, min_step=min_step, limit=x_end)
                 if x1 is not None:
-                    x1_bin = round(x1 / min_step) if min_step is not None else x1
-                    if x1_bin <= x_bin:
+                    if x1 < x_end and x1 - x < 0.5 * min_step:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-- 
2.43.0


From 5af2deba222a1ea95ee45d0ceb9bd72d37940770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 08/77] fix: include the first point in sample_points_from_x

With open=False the point at x was counted but not returned, and without an
explicit min_step the method raised TypeError on a series.
---
 curvepy/curve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index fb4f89d..ccce57b 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -212,7 +212,7 @@ class Curve:
 
         return points
 
-    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
+    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=MIN_STEP):
         assert limit is not None
         if limit < 0:
             limit = -limit
@@ -222,12 +222,13 @@ class Curve:
         x1 = x
         i = 0
 
-        if not open:
+        if not open and limit != 0:
             if x is None:
                 return points
             y = self.y(x)
             if y is None:
                 return points
+            points.append((x, y))
             i += 1
 
         while limit is None or i < limit:
-- 
2.43.0


From 868221415205e42596aada3eee8fab15d5033f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 09/77] fix: step aggregates on the grid of their sampled
 operands

A constant or a line has no grid and steps straight to the limit, so an
aggregate with one stepped to wherever it was queried: scans over it (ema,
integral, trailing windows) raised or depended on the order of queries.
---
 curvepy/aggregate.py | 21 +++++++++++++++++++--
 curvepy/offset.py    |  2 ++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 74ecb87..8661faa 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 from collections.abc import Sequence
@@ -17,6 +18,8 @@ class Aggregate(Curve):
             funcs = [funcs] + list(args)
         super().__init__()
         self.funcs = Curve.parse_many(funcs)
+        if len(self.funcs) != 0 and all(map(has_infinite_step, self.funcs)):
+            self.min_step = math.inf
         self.tfm = tfm
         self.is_union = union
         self.operator = operator
@@ -56,10 +59,24 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        return max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = self._x_step(max_or_none, lambda f: f.x_previous(x, min_step=min_step, limit=limit), x)
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        return min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = self._x_step(min_or_none, lambda f: f.x_next(x, min_step=min_step, limit=limit), x)
+        return x1
+
+    def _x_step(self, best, step, x):
+        # Functions with an infinite step have no points of their own and step
+        # straight to the limit, so only use them when no other function steps.
+        x1 = best(map(step, filter(lambda f: not has_infinite_step(f), self.funcs)), x)
+        if x1 is None:
+            x1 = best(map(step, filter(has_infinite_step, self.funcs)), x)
+        return x1
+
+
+def has_infinite_step(func):
+    return func.min_step is not None and math.isinf(func.min_step)
 
 
 def min_or_none(iterable, gt):
diff --git a/curvepy/offset.py b/curvepy/offset.py
index b800bbf..a3a51dc 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -22,6 +22,8 @@ class Offset(Curve):
             self.duration = Duration.parse(duration)
             if type(self.offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
+        else:
+            self.min_step = self.curve.min_step
         self._observer_token = self.curve.add_observer(
             begin=self.begin_offset_update, end=self.end_offset_update, prioritize=True)
 
-- 
2.43.0


From 0f1f8de2aab8a436b4640be1d72dc2d40e2c603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 10/77] fix: do not step an aggregate past the end of its
 domain

x_next and x_previous of an intersection returned x values of a longer
operand at which the aggregate itself has no value.
---
 curvepy/aggregate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 8661faa..8a8ee69 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -60,10 +60,14 @@ class Aggregate(Curve):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         x1 = self._x_step(max_or_none, lambda f: f.x_previous(x, min_step=min_step, limit=limit), x)
+        if x1 is None or not self.domain.contains(x1, enforce_end=False):
+            return None
         return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         x1 = self._x_step(min_or_none, lambda f: f.x_next(x, min_step=min_step, limit=limit), x)
+        if x1 is None or not self.domain.contains(x1, enforce_start=False):
+            return None
         return x1
 
     def _x_step(self, best, step, x):
-- 
2.43.0


From 27e34c865cea90effe683e1663983824b50f4a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 11/77] fix: step accumulators on the underlying curve

x_next and x_previous of an accumulator looked at the points accumulated so
far, so the result depended on which values had been read before, and
averages over a partly scanned accumulator were wrong.
---
 curvepy/accumulator.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 8b711e6..39cff07 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -25,14 +25,6 @@ class Accumulator(Scan):
         super().reset_scan()
         self.accumulated_points.reset()
 
-    def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
-
-    def x_next(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
-
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
         super().begin_update(domain)
-- 
2.43.0


From 8c92d0d1227fcd4e3f417a323b5648af5c86ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 12/77] fix: weight the moving average between steps by the
 right neighbour

Between two steps the average was interpolated backwards: just after a step
it returned the value of the next step and vice versa.
---
 curvepy/sma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 5f81533..8bdd1e3 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -107,7 +107,7 @@ class SMA(Integral):
             if sma01 is None:
                 return None
             u = (x - x01) / (x1 - x01)
-            sma = u * sma01 + (1 - u) * sma1
+            sma = u * sma1 + (1 - u) * sma01
             return sma
         return sma
 
-- 
2.43.0


From af1e29b389f2a1d57df0764bebeffa40b2490b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 13/77] fix: do not average past x on an irregular curve

A moving average with a period used the last point within a period of the
first one, so on irregular data the value at x depended on later points.
---
 curvepy/sma.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 8bdd1e3..8b93d70 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -77,6 +77,14 @@ class SMA(Integral):
             # SMA step is smaller than or equal to the underlying step
             return self.curve.y(x)
 
+        # On an irregular curve, there may be more than one point
+        # after x within the period. Do not look past x.
+        while x1 > x:
+            x01 = self.curve.x_previous(x1, min_step=self.min_step)
+            if x01 is None or x01 < x:
+                break
+            x1 = x01
+
         # Values must be accessed in ascending order
         y0 = super().y(x0)
         if y0 is None:
-- 
2.43.0


From a99dfcd8273e3ec33e455014baf75ff04202c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 14/77] fix: keep moving average steps inside its domain

x_next and x_previous of a moving average returned points before its first
value, so an average of an average was None at the start of its own domain.
---
 curvepy/scan.py |  2 +-
 curvepy/sma.py  | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 32b0b7c..4932d8c 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -58,7 +58,7 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                current = self.x_next(self.current, min_step=self.min_step, limit=x0)
+                current = self.curve.x_next(self.current, min_step=self.min_step, limit=x0)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
diff --git a/curvepy/sma.py b/curvepy/sma.py
index 8b93d70..cc3319f 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -119,6 +119,18 @@ class SMA(Integral):
             return sma
         return sma
 
+    def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        x1 = super().x_previous(x, min_step=min_step, limit=limit)
+        if x1 is None or not self.domain.contains(x1, enforce_end=False):
+            return None
+        return x1
+
+    def x_next(self, x, min_step=MIN_STEP, limit=None):
+        x1 = super().x_next(x, min_step=min_step, limit=limit)
+        if x1 is None or not self.domain.contains(x1, enforce_start=False):
+            return None
+        return max(x1, self.domain.start)
+
     def _sma_start(self, x):
         if self.period is not None:
             x0 = self.curve.x_next(x - self.period, min_step=self.min_step)
-- 
2.43.0


From a3cbfb01a3f7cbae7b5f6e860b48cadb7d5e2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 15/77] fix: refresh extensions whenever the extended curve
 changes

A one-sided extension only noticed updates inside its own half of the x axis,
so replacing the last point (or the one before it, which sets the tangent)
left it stale, its domain depended on when it was first read, and dependents
were told too little. With raise_on_empty even a valid extension raised.
---
 curvepy/extension/constant.py  |  2 --
 curvepy/extension/extension.py | 32 ++++++++++++++++----------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 73dbf24..2a36e55 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -12,8 +12,6 @@ class ConstantExtension(Extension):
 
     def update_extension(self):
         if self.curve.domain.is_empty:
-            self.start_func.value = None
-            self.end_func.value = None
             return
 
         if self.start:
diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 739f9df..d4ce878 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -36,10 +36,8 @@ class Extension(Curve):
         self.end_func = None
         if self.start:
             self.start_func = self.create_extension_func(start=True)
-            self.start_func.add_observer(self, begin=self.begin_update, end=self.end_update)
         if self.end:
             self.end_func = self.create_extension_func(start=False)
-            self.end_func.add_observer(self, begin=self.begin_update, end=self.end_update)
 
     def __del__(self):
         self.curve.remove_observer(self)
@@ -118,18 +116,21 @@ class Extension(Curve):
             (self.end and domain >= self.extension_interval)
 
     def begin_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self.begin_update(self.extension_interval)
-        else:
-            self.begin_update(domain)
+        self.begin_update(self._extension_update_interval(domain))
 
     def end_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self._extension_stale = True
-            self._update_extension_interval()
-            self.end_update(self.extension_interval)
-        else:
-            self.end_update(domain)
+        self._extension_stale = True
+        self._extension_interval_stale = True
+        self.end_update(self._extension_update_interval(domain))
+
+    def _extension_update_interval(self, domain):
+        # Any change may affect the edge values or tangents
+        # and therefore the whole extension.
+        if self.start:
+            domain = domain.get_lte()
+        if self.end:
+            domain = domain.get_gte()
+        return domain
 
     def _update_extension_interval(self):
         if not self._extension_interval_stale:
@@ -138,7 +139,9 @@ class Extension(Curve):
         if self._extension_stale:
             self._update_extension_if_needed()
 
-        if self.start and self.start_valid and self.end and self.end_valid:
+        if self.curve.domain.is_empty:
+            self.extension_interval = Interval.empty()
+        elif self.start and self.start_valid and self.end and self.end_valid:
             self.extension_interval = Interval.union([self.start_func.domain, self.end_func.domain])
         elif self.start and self.start_valid:
             self.extension_interval = Interval.intersection([self.start_func.domain, self.curve.domain.get_lt()])
@@ -158,7 +161,4 @@ class Extension(Curve):
         self._extension_interval_stale = True
 
         self.update_extension()
-        if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-            if self.raise_on_empty:
-                raise Exception('Unable to extend func')
         self._update_extension_interval()
-- 
2.43.0


From a094f3eb3a5f469d414210ef38208f5d6f4d6ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 16/77] fix: tangent extension of a curve shorter than its
 regression degree

It raised TypeError; fit the points there are, as regression_period does.
---
 curvepy/extension/tangent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 2aa6eb4..1efe445 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -32,7 +32,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x1 = x
                 for i in range(self.regression_degree):
-                    x1 = self.curve.x_next(x1, min_step=self.min_step)
+                    x2 = self.curve.x_next(x1, min_step=self.min_step)
+                    if x2 is None:
+                        break
+                    x1 = x2
                 domain = Interval(x, x1)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
@@ -61,7 +64,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x0 = x
                 for i in range(self.regression_degree):
-                    x0 = self.curve.x_previous(x0, min_step=self.min_step)
+                    x_1 = self.curve.x_previous(x0, min_step=self.min_step)
+                    if x_1 is None:
+                        break
+                    x0 = x_1
                 domain = Interval(x0, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
-- 
2.43.0


From 3bf56090090267fe862e24a1fa590b0d8e1695f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 17/77] fix: rescan values which were read during an update

A begin observer which read a scanned curve (ema, integral, moving average,
trailing window) made it accumulate the values from before the update, and
it kept them after the update.
---
 curvepy/scan.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 4932d8c..cfa1380 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -97,6 +97,16 @@ class Scan(Curve):
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
+        self._reset_stale_scan(domain)
+        self.begin_update(domain)
+
+    def end_scan_update(self, domain):
+        domain = self._update_interval(domain)
+        # Values may have been read while the update was in progress
+        self._reset_stale_scan(domain)
+        self.end_update(domain)
+
+    def _reset_stale_scan(self, domain):
         if self.current is not None:
             if domain.start < self.current or (domain.start == self.current and not domain.start_open):
                 self.reset_scan()
@@ -104,11 +114,5 @@ class Scan(Curve):
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
 
-        self.begin_update(domain)
-
-    def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
-        self.end_update(domain)
-
     def _update_interval(self, domain):
         return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 1c6265d995dddb65243426caaed75946e9f50299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 18/77] fix: restart an ema when its initial value curve
 changes

The init curve was read once and not observed.
---
 curvepy/ema.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/ema.py b/curvepy/ema.py
index 1a6479c..1dcccab 100644
--- a/curvepy/ema.py
+++ b/curvepy/ema.py
@@ -19,6 +19,8 @@ class EMA(Accumulator):
         else:
             self.alpha = degree
         super().__init__(func, self._ema_scan, min_step=min_step, uniform=uniform)
+        if self.init_func is not None:
+            self.init_func.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __repr__(self):
         try:
-- 
2.43.0


From 88eaaadd6c85149167d0ef2775c2230d6f10060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 19/77] fix: rescan extremas after a change

An update kept the extremas before it although a later point may have replaced
or confirmed them: after an append the last one was listed twice, a change of
the reference curve was not rescanned, and values between the last extrema and
the appended points changed without observers being told.
---
 curvepy/extremas.py | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a4fd89..fb22846 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -17,7 +17,7 @@ class Extremas(Scan):
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_update, end=self.end_update)
+        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
         self.ref_func.remove_observer(self._ref_observer_token)
@@ -62,26 +62,21 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
+    def reset_scan(self):
+        super().reset_scan()
+        # An extrema depends on all points until the next phase inflection,
+        # so an earlier change may affect any of them.
+        self.extremas = []
+        self.extrema_xs = []
+        self._did_update_extremas()
+
     def begin_update(self, domain):
-        super().begin_update(domain)
-        # remove stale points
-        for i in reversed(range(len(self.extremas))):
-            x = self.extrema_xs[i]
-            if domain.contains(x):
-                self._remove_extrema_index(i)
-            elif domain.start > x:
-                break
-
-        # scan from last extrema
-        extrema_count = len(self.extremas)
-        if extrema_count == 0:
-            self.current = None
-        else:
-            last_extrema = self.extremas[-1]
-            x = last_extrema[0]
-            self.current = x
-            self.possible_extrema = last_extrema
-            self.possible_extrema_phase = last_extrema[1] - self.ref_func(x)
+        # A change may confirm an extrema and then affects
+        # the values before it as well.
+        super().begin_update(Interval.infinite())
+
+    def end_update(self, domain):
+        super().end_update(Interval.infinite())
 
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         points = super().sample_points(domain=domain, min_step=min_step, step=step)
@@ -113,11 +108,6 @@ class Extremas(Scan):
             self.possible_extrema = (x, y)
             self.possible_extrema_phase = phase
     
-    def _remove_extrema_index(self, i):
-        del self.extremas[i]
-        del self.extrema_xs[i]
-        self._did_update_extremas()
-
     def _confirm_extrema(self):
         extrema = self.possible_extrema
 
-- 
2.43.0


From de24103f8e1ad07a4bc45afe5887bfad4433d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 20/77] fix: scan before stepping through extremas

x_next and x_previous returned an extrema or a point of the underlying curve
depending on how far the curve had been read before.
---
 curvepy/extremas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index fb22846..1d0b349 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -44,6 +44,7 @@ class Extremas(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self.scan(x - min_step)
         if self.extrema_interval.contains(x - min_step):
             i = bisect.bisect_left(self.extrema_xs, x - min_step)
             x1 = self.extremas[i][0]
@@ -54,6 +55,7 @@ class Extremas(Scan):
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self.scan(x + min_step)
         if self.extrema_interval.contains(x + min_step):
             i = bisect.bisect_left(self.extrema_xs, x + min_step)
             x1 = self.extremas[i][0]
-- 
2.43.0


From 7cbd828336eb731f1f6adf5f1b2b6705d035b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 21/77] fix: derivative of a sine with a frequency other than 1
 / 2 pi

The chain rule factor was missing.
---
 curvepy/sin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9af1e9a..0045b71 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -40,5 +40,5 @@ class Sin(Curve):
         return self.amplitude * math.sin(self.x_coef * x + self.phase)
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-        return self.amplitude * math.cos(self.x_coef * x + self.phase)
+        return self.amplitude * self.x_coef * math.cos(self.x_coef * x + self.phase)
         
\ No newline at end of file
-- 
2.43.0


From 08976593422ace9d12a594180c7c560ef56d7b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 22/77] fix: constant with a domain has no value outside of it

---
 curvepy/constant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/constant.py b/curvepy/constant.py
index 2efa67b..34819eb 100644
--- a/curvepy/constant.py
+++ b/curvepy/constant.py
@@ -39,6 +39,8 @@ class Constant(Curve):
             return super().__repr__() + f'({e})'
 
     def y(self, x):
+        if not self.domain.contains(x):
+            return None
         return self.value
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-- 
2.43.0


From 9ef32636aa6c1509d7dee0d24b8383a76474ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 23/77] fix: trailing low of quotes is the lowest low, not the
 highest

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 77bf383..411d5e7 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -175,7 +175,7 @@ class Quotes(Curve):
         return self.high.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def trailing_low(self, degree, is_period=False):
-        return self.low.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
+        return self.low.trailing_min(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def append(self, quote_point):
         """
-- 
2.43.0


From 75e56b9711d34fdd32df931557e2853a177f8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 24/77] fix: range of quotes given as [open, high, low, close]

get_range read attributes which quotes in the documented form do not have.
---
 curvepy/quotes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 411d5e7..bc51bf3 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -139,10 +139,10 @@ class Quotes(Curve):
         low = None
         high = None
         for q in quotes:
-            if low is None or q.low < low:
-                low = q.low
-            if high is None or q.high > high:
-                high = q.high
+            if low is None or q[LOW] < low:
+                low = q[LOW]
+            if high is None or q[HIGH] > high:
+                high = q[HIGH]
         if low is None or high is None:
             return Interval.empty()
         return Interval(low, high)
-- 
2.43.0


From 62bf3ade167f025573ee8d890747da12b136f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 25/77] fix: subset of a curve follows changes of the curve

A generic curve wrapping another curve did not observe it, so dependents of a
subset were not told about changes.
---
 curvepy/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/generic.py b/curvepy/generic.py
index 6d85f5f..1c041c8 100644
--- a/curvepy/generic.py
+++ b/curvepy/generic.py
@@ -4,12 +4,14 @@ from intervalpy import Interval
 class Generic(Curve):
 
     def get_domain(self):
-        return self._domain
+        return self._func_domain
 
     def __init__(self, y_func, domain=None, min_step=MIN_STEP):
         super().__init__(min_step=min_step)
         self.y_func = y_func
-        self._domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        self._func_domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        if isinstance(y_func, Curve):
+            y_func.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True)
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From 9c1b196b3f401e8c56dbc7706d8f29e0a268a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 26/77] fix: offset the step limit of an offset curve

The limit was passed to the underlying curve as is, so x_next could return a
value past it and sampling an offset curve stopped early or overran.
---
 curvepy/offset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index a3a51dc..f73cb45 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -68,7 +68,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.previous(x)
         else:
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=self._unoffset_x(limit))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
@@ -80,7 +80,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.next(x)
         else:
-            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+            x1 = self.curve.x_next(x, min_step=min_step, limit=self._unoffset_x(limit))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
-- 
2.43.0


From 4fc5c3c821db30d7048e3d32ea0a031dc6b21fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 27/77] fix: step a piecewise curve on the points of its pieces

x_next and x_previous found the next point but did not return it, so sampling
a piecewise or blended curve gave only its end points.
---
 curvepy/piecewise.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index e43c5e9..3277307 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -34,31 +34,24 @@ class Piecewise(Curve):
         return None
     
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
         if not self.domain.contains(x - min_step, enforce_end=False):
             return None
-        x_map = map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_previous_f(z):
-            x, d = z
-            return d.contains(x)
-        z = max(filter(x_previous_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[0].contains(x):
-            return self.domains[0].start
+        xs = map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs)
+        xs = [x1 for x1, d in zip(xs, self.domains) if x1 is not None and d.contains(x1)]
+        xs += [x1 for x1 in self._bounds() if x1 <= x - min_step]
+        return max(xs, default=None)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x + min_step, enforce_end=False):
+        if not self.domain.contains(x + min_step, enforce_start=False):
             return None
-        x_map = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_next_f(z):
-            x, d = z
-            return d.contains(x)
-        z = min(filter(x_next_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[-1].contains(x):
-            return self.domains[-1].end
+        xs = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
+        xs = [x1 for x1, d in zip(xs, self.domains) if x1 is not None and d.contains(x1)]
+        xs += [x1 for x1 in self._bounds() if x1 >= x + min_step]
+        return min(xs, default=None)
+
+    def _bounds(self):
+        domain = self.domain
+        bounds = [d.start for d in self.domains] + [d.end for d in self.domains]
+        return filter(lambda x: domain.contains(x), bounds)
-- 
2.43.0


From 7f250fad259261c7b233f1d34a08c6538e0e56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 28/77] fix: validate sine parameters before starting an update

An invalid set raised after begin_update and after overwriting some of the
parameters, leaving the curve broken and updating forever.
---
 curvepy/sin.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 0045b71..af1248a 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -20,20 +20,21 @@ class Sin(Curve):
         self.set(amplitude=amplitude, frequency=frequency, period=period, phase=phase, phase_x=phase_x)
     
     def set(self, amplitude=None, frequency=None, period=None, phase=0, phase_x=None):
-        self.begin_update(self.domain)
-        self.amplitude = amplitude
-        self.phase = phase
-
-        self.x_coef = None
+        x_coef = None
         if period is not None:
             frequency = 1.0 / period
         if frequency is not None:
-            self.x_coef = frequency * math.pi * 2.0
-        if phase_x is not None:
-            self.phase = phase_x * self.x_coef
+            x_coef = frequency * math.pi * 2.0
+        if phase_x is not None and x_coef is not None:
+            phase = phase_x * x_coef
 
-        if self.amplitude is None or self.x_coef is None or self.phase is None:
+        if amplitude is None or x_coef is None or phase is None:
             raise Exception("Invalid sin function description")
+
+        self.begin_update(self.domain)
+        self.amplitude = amplitude
+        self.phase = phase
+        self.x_coef = x_coef
         self.end_update(self.domain)
 
     def y(self, x):
-- 
2.43.0


From a406144c0a4b63984c66011bd6904a14e39df014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 29/77] fix: apply min_point_distance of a trend to its lines

The parameter was accepted but never passed on.
---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3128a5b..88ed045 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -222,6 +222,7 @@ class Trend(Scan):
         return TrendLine(self.min_width,
             is_upper_trend=is_upper_trend,
             min_points=self.min_points, 
+            min_point_distance=self.min_point_distance,
             search_length_rel=self.search_length_rel, 
             search_length_int_rel=self.search_length_int_rel, 
             x_tol_rel=self.x_tol_rel, 
-- 
2.43.0


From 4a9542104440de13f8fadf0b1b521f681f84255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 30/77] fix: find the points of a uniform series despite
 rounding

At its own points (x - start) / interval is off by a rounding error for
intervals such as 0.1, so previous and next interpolation returned the value
of a neighbour and replace refused to replace an existing point.
---
 curvepy/points.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 41f0a1b..283c919 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -310,7 +310,13 @@ class Points(Curve):
         if self.is_uniform:
             if self.interval is None:
                 return 0
-            return (x - self._points[0][0]) / self.interval
+            i = (x - self._points[0][0]) / self.interval
+            if math.isfinite(i):
+                # Division may be off by a rounding error at the points
+                i_point = int(round(i))
+                if 0 <= i_point < len(self._points) and self._points[i_point][0] == x:
+                    return i_point
+            return i
         else:
             i1 = _bisect_points(self._points, x)
             i0 = i1 - 1
-- 
2.43.0


From 77f226a65a6e09b171d74116db2e826d644d20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 31/77] fix: accept evenly spaced points with rounding errors

The last x of a uniform series was compared with the grid exactly, so points
at multiples of intervals such as 0.1 were rejected.
---
 curvepy/points.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 283c919..fda2ec9 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -237,14 +237,10 @@ class Points(Curve):
         else:
             interval = new_points[1][0] - new_points[0][0]
 
-        expected_last_x = start + interval * steps
-        if new_points[-1][0] != expected_last_x:
-            return False
-
         # Every point must lie on the grid, not only the last one
         tol = abs(interval) * UNIFORM_TOL_REL if self._force_equally_spaced else 0
         first_step = steps - new_points_len + 1
-        for i in range(new_points_len - 1):
+        for i in range(new_points_len):
             if abs(new_points[i][0] - (start + interval * (first_step + i))) > tol:
                 return False
         return True
-- 
2.43.0


From 27bec9f09aa8b403be53886d41c51b38f33922f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 32/77] fix: sample an irregular series by its average interval

A step equal to the average interval returned the points themselves.
---
 curvepy/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index fda2ec9..b65c9ca 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -196,7 +196,7 @@ class Points(Curve):
         if self.domain.is_empty:
             return []
 
-        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and step != self.interval)):
+        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and (step != self.interval or not self.is_uniform))):
             # Irregular sampling
             return super().sample_points(domain=domain, min_step=min_step, step=step)
 
-- 
2.43.0


From e5bc5724ecae19e5c3341e975277b59dfb26866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 33/77] fix: encode an appended quote once

append encoded the quote and passed it to append_list, which encoded it again.
---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index bc51bf3..1649901 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -183,7 +183,7 @@ class Quotes(Curve):
         or in a suitable form for `encoder`, in strict ascending order with no gaps
         and with the same duration as the receiver.
         """
-        self.append_list([self.encode_one(quote_point)])
+        self.append_list([quote_point])
 
     def append_list(self, quote_points):
         """
-- 
2.43.0


From 263faffab42d3fb7bc4942525e8ba39afcf95b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 34/77] fix: extremas about a reference curve which crosses
 zero

The relative deviation divided by the reference value and raised
ZeroDivisionError where it is zero.
---
 curvepy/extremas.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 1d0b349..3d93b7e 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -90,8 +90,7 @@ class Extremas(Scan):
         y0 = self.ref_func(x)
         if y0 is None:
             return
-        div = y / y0 - 1
-        if abs(div) <= self.min_deviation:
+        if abs(y - y0) <= self.min_deviation * abs(y0):
             # function is too close to reference function
             return
         phase = y - y0
-- 
2.43.0


From 9e21491370317563ed2c36b56dd8a8a3ff5051a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 35/77] fix: area below a line far from the origin lost
 precision

---
 curvepy/line.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/curvepy/line.py b/curvepy/line.py
index e576585..694812e 100644
--- a/curvepy/line.py
+++ b/curvepy/line.py
@@ -73,12 +73,6 @@ class Line(Curve):
         return self.ref_point[0] + (y - self.ref_point[1]) / self.slope
 
     def partial_integration(self, a, b):
-        # f(x) = slope / 2 * x ^ 2 + const * x + K
-        # integral = f(b) - f(a)
-        if a is not None and a == b:
-            return 0
-        const = self.const
-        slope = self.slope
-        ia = slope * 0.5 * a ** 2 + const * a
-        ib = slope * 0.5 * b ** 2 + const * b
-        return ib - ia
+        # The mean value times the width, which unlike the difference of
+        # antiderivatives does not lose precision far from the origin.
+        return (b - a) * 0.5 * (self.y(a) + self.y(b))
-- 
2.43.0


From c9af58e3081092daf21cf5e1d567dd8a43d7c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 36/77] fix: extend the tangent of a curve without a domain

---
 curvepy/extension/tangent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 1efe445..1581674 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -23,6 +23,9 @@ class TangentExtension(Extension):
         super().__init__(func, **kwargs)
 
     def update_extension(self):
+        if self.curve.domain.is_empty:
+            return
+
         if self.start:
             x = self.curve.domain.start
             if x is not None and self.curve.domain.start_open and self.curve.domain.contains(x + self.min_step):
-- 
2.43.0


From 2a56f35d47d83bbbbdcf81c80068a43ebb9f4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 37/77] fix: blend curves with missing values

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index ccce57b..78ae395 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -543,6 +543,8 @@ class Curve:
         
         x_blend_period = x_blend_stop - x_blend_start
         def blend_f(x, ys):
+            if ys[0] is None or ys[1] is None:
+                return None
             u = (x - x_blend_start) / x_blend_period
             return (1.0 - u) * ys[0] + u * ys[1]
         c = Aggregate([self, func], tfm=blend_f, name='blend')
-- 
2.43.0


From 061a9adcfb2b3ff9b2036a14c6e9220ea1378078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 38/77] fix: a differential changes at the points next to a
 changed point

---
 curvepy/curve.py |  6 ++----
 curvepy/map.py   | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 78ae395..082664a 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -681,10 +681,8 @@ class Curve:
         )
 
     def differential(self, forward=False):
-        from .map import Map
-        d = Map(self, lambda x, y: self.d_y(x, forward=forward))
-        d.name = 'diff'
-        return d
+        from .map import Differential
+        return Differential(self, forward=forward)
 
     def subset(self, domain):
         from .generic import Generic
diff --git a/curvepy/map.py b/curvepy/map.py
index cda4fbd..9b17505 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -50,4 +50,21 @@ class Map(Curve):
         if self._map_tfm_with_x:
             return self.map_tfm(x, y)
         else:
-            return self.map_tfm(y)
\ No newline at end of file
+            return self.map_tfm(y)
+
+
+class Differential(Map):
+
+    """
+    The slope to an adjacent point. A change of a point changes
+    the slope at the points next to it as well.
+    """
+
+    def __init__(self, func, forward=False):
+        super().__init__(func, lambda x, y: func.d_y(x, forward=forward), name='diff')
+
+    def begin_update(self, domain):
+        super().begin_update(domain.as_closed())
+
+    def end_update(self, domain):
+        super().end_update(domain.as_closed())
-- 
2.43.0


From 4bc0ed757de86e19ea8a6443a18cf50ae42a8733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 39/77] fix: regression of points far from the origin

---
 curvepy/curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 082664a..4dc94c9 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -376,14 +376,16 @@ class Curve:
         xy = np.vstack(points)
         x = xy[:,0]
         y = xy[:,1]
-        A = np.array([x, np.ones(count)])
+        # Center the points as the regression is ill-conditioned far from the origin
+        x0 = np.mean(x)
+        A = np.array([x - x0, np.ones(count)])
 
         # Regression
         w = np.linalg.lstsq(A.T, y, rcond=None)[0]
         m = w[0]
         c = w[1]
 
-        return Line(const=c, slope=m)
+        return Line(const=c - m * x0, slope=m)
 
     def add_observer(self, *obj, domain=None, begin=None, end=None, autoremove=False, prioritize=False):
         if begin is None and end is None:
-- 
2.43.0


From 2a6fddf319e8339bc3f49a1b7716f1be1c4b7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 40/77] fix: sine extension of a curve which ends at zero

---
 curvepy/extension/sin.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/curvepy/extension/sin.py b/curvepy/extension/sin.py
index fb3264c..1e98e0a 100644
--- a/curvepy/extension/sin.py
+++ b/curvepy/extension/sin.py
@@ -28,10 +28,12 @@ class SinExtension(TangentExtension):
         den = x_coef * y * math.sin(angle) + dy * math.cos(angle)
         phase = math.atan2(num, den)
 
-        # amplitude
-        if (angle + phase) % math.pi != 0:
-            amplitude = y / math.sin(angle + phase)
+        # amplitude (from the value or the slope, whichever is not close to zero)
+        sin_angle = math.sin(angle + phase)
+        cos_angle = math.cos(angle + phase)
+        if abs(sin_angle) >= abs(cos_angle):
+            amplitude = y / sin_angle
         else:
-            amplitude = dy / (x_coef * math.cos(angle + phase))
+            amplitude = dy / (x_coef * cos_angle)
 
         sin.set(amplitude=amplitude, period=self.period, phase=phase)
-- 
2.43.0


From 1a6da2be4b00abda447a4738ff28af862953addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 41/77] fix: offset an offset curve

---
 curvepy/offset.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index f73cb45..95bb393 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -16,11 +16,11 @@ class Offset(Curve):
     def __init__(self, func, offset, duration=None):
         super().__init__()
         self.curve = Curve.parse(func)
-        self.offset = offset
+        self.x_offset = offset
         self.duration = None
         if duration is not None:
             self.duration = Duration.parse(duration)
-            if type(self.offset) != int:
+            if type(self.x_offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
         else:
             self.min_step = self.curve.min_step
@@ -32,7 +32,7 @@ class Offset(Curve):
 
     def __repr__(self):
         try:
-            return f'{self.curve}.offset({self.offset})'
+            return f'{self.curve}.offset({self.x_offset})'
         except Exception as e:
             return super().__repr__() + f'({e})'
 
@@ -95,17 +95,17 @@ class Offset(Curve):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x + self.offset
+            return x + self.x_offset
         else:
-            return self._res_step(x, self.offset, floor=floor)
+            return self._res_step(x, self.x_offset, floor=floor)
 
     def _unoffset_x(self, x, floor=False):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x - self.offset
+            return x - self.x_offset
         else:
-            return self._res_step(x, -self.offset, floor=floor)
+            return self._res_step(x, -self.x_offset, floor=floor)
 
     def _res_step(self, x, count, floor=False):
         if count == 0:
-- 
2.43.0


From 5051b62a3966c5d22df42a7faa1da3e653b20b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 42/77] fix: sample an SMA of a single step from between its
 points

---
 curvepy/sma.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index cc3319f..eb73134 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -63,7 +63,13 @@ class SMA(Integral):
         # return x0
 
     def offset_scan(self, x):
-        return self._sma_start(x)
+        x0 = self._sma_start(x)
+        if x0 == x:
+            # x may be between points, but the scan must start at a point
+            x_point = self.curve.x_previous(x + self.min_step, min_step=self.min_step)
+            if x_point is not None:
+                return x_point
+        return x0
 
     def y(self, x):
         # Return the average slope as the SMA
-- 
2.43.0


From 8ea32c62d2d4198b42df5b52349f3bc94dc412ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 43/77] fix: step a piecewise curve by its points, not by the
 scan limit

---
 curvepy/piecewise.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index 3277307..fbcf07a 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -1,3 +1,4 @@
+from .aggregate import has_infinite_step
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -37,19 +38,26 @@ class Piecewise(Curve):
         min_step = self.resolve_min_step(min_step)
         if not self.domain.contains(x - min_step, enforce_end=False):
             return None
-        xs = map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs)
-        xs = [x1 for x1, d in zip(xs, self.domains) if x1 is not None and d.contains(x1)]
-        xs += [x1 for x1 in self._bounds() if x1 <= x - min_step]
-        return max(xs, default=None)
+        bounds = [x1 for x1 in self._bounds() if x1 <= x - min_step]
+        return max(self._x_steps(lambda f: f.x_previous(x, min_step=min_step, limit=limit), bounds), default=None)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
         if not self.domain.contains(x + min_step, enforce_start=False):
             return None
-        xs = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
-        xs = [x1 for x1, d in zip(xs, self.domains) if x1 is not None and d.contains(x1)]
-        xs += [x1 for x1 in self._bounds() if x1 >= x + min_step]
-        return min(xs, default=None)
+        bounds = [x1 for x1 in self._bounds() if x1 >= x + min_step]
+        return min(self._x_steps(lambda f: f.x_next(x, min_step=min_step, limit=limit), bounds), default=None)
+
+    def _x_steps(self, step, bounds):
+        # Functions with an infinite step have no points of their own and step
+        # straight to the limit, so only use them when there is no other step.
+        pieces = list(zip(self.funcs, self.domains))
+        xs = [(step(f), d) for f, d in pieces if not has_infinite_step(f)]
+        xs = [x1 for x1, d in xs if x1 is not None and d.contains(x1)] + bounds
+        if len(xs) == 0:
+            xs = [(step(f), d) for f, d in pieces if has_infinite_step(f)]
+            xs = [x1 for x1, d in xs if x1 is not None and d.contains(x1)]
+        return xs
 
     def _bounds(self):
         domain = self.domain
-- 
2.43.0


From c9be135391fdce739123e75f32c162861722e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 44/77] fix: sample an SMA of a single step within the minimum
 step of a point

---
 curvepy/sma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index eb73134..3f038a6 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -67,6 +67,9 @@ class SMA(Integral):
         if x0 == x:
             # x may be between points, but the scan must start at a point
             x_point = self.curve.x_previous(x + self.min_step, min_step=self.min_step)
+            if x_point is None and not self.curve.domain.is_negative_infinite:
+                # A large minimum step of the curve may skip that point
+                x_point = self.curve.domain.start
             if x_point is not None:
                 return x_point
         return x0
-- 
2.43.0


From a8c23cab654a26807acb6b05917ec2ceaacfaef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 45/77] fix: sample a function over a single point once

---
 curvepy/curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 4dc94c9..d15dd0f 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -188,7 +188,9 @@ class Curve:
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
-            x = self.x_next(x_start, min_step=min_step, limit=x_end)
+            x = None
+            if x_start < x_end:
+                x = self.x_next(x_start, min_step=min_step, limit=x_end)
             while x is not None and x <= x_end:
                 y = self.y(x)
                 points.append((x, y))
-- 
2.43.0


From dcc55901fc23695f89b172fa69c15b466db369b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 46/77] fix: an SMA counted the open start of its curve as a
 point

---
 curvepy/sma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 3f038a6..0944cc1 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -22,7 +22,8 @@ class SMA(Integral):
                 p = x - d.start
         elif self.degree is not None:
             x = d.start
-            for _ in range(self.degree - 1):
+            # An open start is not a point
+            for _ in range(self.degree if d.start_open else self.degree - 1):
                 x = self.curve.x_next(x, min_step=self.min_step)
                 if x is None:
                     return Interval.empty()
@@ -32,7 +33,7 @@ class SMA(Integral):
         d_start = d.start + p
         if math.isnan(d_start) or d_start > d.end:
             return Interval.empty()
-        return Interval.closed(d_start, d.end)
+        return Interval(d_start, d.end, start_open=False, end_open=d.end_open)
 
     def __init__(self, func, degree, is_period=True, uniform=True, min_step=MIN_STEP):
         super().__init__(func, uniform=uniform, min_step=min_step)
-- 
2.43.0


From ee46354cf6b17326970417398cd99d20bfadee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 47/77] fix: a differential of a differential missed changes
 two points away

---
 curvepy/map.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/curvepy/map.py b/curvepy/map.py
index 9b17505..2b219ef 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -62,9 +63,23 @@ class Differential(Map):
 
     def __init__(self, func, forward=False):
         super().__init__(func, lambda x, y: func.d_y(x, forward=forward), name='diff')
+        self._is_forward = forward
 
     def begin_update(self, domain):
-        super().begin_update(domain.as_closed())
+        super().begin_update(self._affected_domain(domain))
 
     def end_update(self, domain):
-        super().end_update(domain.as_closed())
+        super().end_update(self._affected_domain(domain))
+
+    def _affected_domain(self, domain):
+        if domain.is_empty:
+            return domain
+        # When the value at the edge of the domain itself changes, then so
+        # does the slope up to the adjacent point outside of the domain.
+        start, end = domain.start, domain.end
+        if self._is_forward:
+            if not domain.start_open:
+                start = -math.inf
+        elif not domain.end_open:
+            end = math.inf
+        return Interval(start, end)
-- 
2.43.0


From a5a80746f28b323c2a9b5cb65931b50cc93252ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 48/77] fix: a scan missed changes before the first changed
 point

---
 curvepy/scan.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index cfa1380..3bcb1fd 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -115,4 +115,10 @@ class Scan(Curve):
             self.reset_scan()
 
     def _update_interval(self, domain):
-        return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
+        if domain.is_empty:
+            return domain
+        if not domain.start_open:
+            # The values between the start and the point before it are
+            # interpolated, so they change with the value at the start
+            return Interval.infinite()
+        return Interval(domain.start, math.inf, start_open=True, end_open=True)
-- 
2.43.0


From 70118b766eee72392c9893ee97531665ceb7d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 49/77] fix: curves kept updating after changes of which one
 reached further than the other

---
 curvepy/map.py  | 4 +++-
 curvepy/scan.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/curvepy/map.py b/curvepy/map.py
index 2b219ef..b6976f6 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -69,7 +69,9 @@ class Differential(Map):
         super().begin_update(self._affected_domain(domain))
 
     def end_update(self, domain):
-        super().end_update(self._affected_domain(domain))
+        # The slopes of several changes may reach further than those of
+        # the interval which they span
+        super().end_update(Interval.union([self.update_interval, self._affected_domain(domain)]))
 
     def _affected_domain(self, domain):
         if domain.is_empty:
diff --git a/curvepy/scan.py b/curvepy/scan.py
index 3bcb1fd..fa880f8 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -102,6 +102,9 @@ class Scan(Curve):
 
     def end_scan_update(self, domain):
         domain = self._update_interval(domain)
+        if self.is_updating and self.update_interval.is_negative_infinite:
+            # One of the changes affects all values
+            domain = Interval.infinite()
         # Values may have been read while the update was in progress
         self._reset_stale_scan(domain)
         self.end_update(domain)
-- 
2.43.0


From d71095ef35a8aad9894f52ea02d304767cd1ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 50/77] fix: an SMA started its scan at the open start of its
 curve

---
 curvepy/sma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 0944cc1..6957b18 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -68,9 +68,10 @@ class SMA(Integral):
         if x0 == x:
             # x may be between points, but the scan must start at a point
             x_point = self.curve.x_previous(x + self.min_step, min_step=self.min_step)
-            if x_point is None and not self.curve.domain.is_negative_infinite:
+            start = self.curve.domain.start
+            if x_point is None and not math.isinf(start) and self.curve.domain.contains(start):
                 # A large minimum step of the curve may skip that point
-                x_point = self.curve.domain.start
+                x_point = start
             if x_point is not None:
                 return x_point
         return x0
-- 
2.43.0


From f3de5874c2c54d6eca450c871a0e6a942d7ce626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 51/77] fix: an EMA over a period used steps which its scan had
 not visited

---
 curvepy/ema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/ema.py b/curvepy/ema.py
index 1dcccab..84d021c 100644
--- a/curvepy/ema.py
+++ b/curvepy/ema.py
@@ -48,7 +48,8 @@ class EMA(Accumulator):
                 return y
         if self.period is not None:
             # TODO: use geometric mean instead of arithmetic?
-            x0 = self.curve.x_previous(x, min_step=self.min_step)
+            # The point before in the scan, which the average was last updated at
+            x0 = self.accumulated_points.domain.end
             a = abs((x - x0) / self.period)
             return ema + a * (y - ema)
         elif self.alpha is not None:
-- 
2.43.0


From ac5222ce0ba030c6c0745832de210b6ad67bfe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 52/77] fix: an SMA gave values of its curve after the last
 point

---
 curvepy/sma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 6957b18..4fa4873 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -86,6 +86,9 @@ class SMA(Integral):
         x1 = self._sma_end(x0)
         if x0 == x or x0 == x1:
             # SMA step is smaller than or equal to the underlying step
+            if x0 < x and self.degree is not None and self.degree > 1:
+                # There is no point after x to interpolate to
+                return None
             return self.curve.y(x)
 
         # On an irregular curve, there may be more than one point
-- 
2.43.0


From fedeb30bf3a821650fafb9863509bc71b6a6f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 53/77] fix: steps from outside of a combination of curves left
 its domain

---
 curvepy/aggregate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 8a8ee69..61d6c8e 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -62,12 +62,20 @@ class Aggregate(Curve):
         x1 = self._x_step(max_or_none, lambda f: f.x_previous(x, min_step=min_step, limit=limit), x)
         if x1 is None or not self.domain.contains(x1, enforce_end=False):
             return None
+        end = self.domain.end
+        if x1 > end or (x1 == end and self.domain.end_open):
+            # Functions may have points beyond the end of their common domain
+            return self.x_previous(end, limit=limit) if self.domain.end_open else end
         return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         x1 = self._x_step(min_or_none, lambda f: f.x_next(x, min_step=min_step, limit=limit), x)
         if x1 is None or not self.domain.contains(x1, enforce_start=False):
             return None
+        start = self.domain.start
+        if x1 < start or (x1 == start and self.domain.start_open):
+            # Functions may have points before the start of their common domain
+            return self.x_next(start, limit=limit) if self.domain.start_open else start
         return x1
 
     def _x_step(self, best, step, x):
-- 
2.43.0


From fb4bfed4191eb57aa9c38b8d8154446bc83e226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 54/77] fix: @date converts string values only, not numbers and
 missing values within its scope

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index d15dd0f..153b99b 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1050,7 +1050,7 @@ class Curve:
                     fragment=True,
                     decorators=decorators
                 ) for v in d]
-            elif 'date' in decorators:
+            elif 'date' in decorators and isinstance(d, str):
                 return arrow.get(d).timestamp
             elif isinstance(d, Number):
                 if 'log' in decorators:
-- 
2.43.0


From 00abaf128ea784ec9fcdf6a56903312560fb550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 55/77] fix: convert the values of @args once

---
 curvepy/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 153b99b..a929dc1 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1025,7 +1025,10 @@ class Curve:
                 if current_func is not None:
                     raise Exception(f'Unexpected key after a function: {k}')
 
-                if isinstance(v, Mapping):
+                if k.startswith('@'):
+                    # Already parsed with its decorator
+                    fragment_vals[k] = v
+                elif isinstance(v, Mapping):
                     fragment_vals[k] = cls.parse_descriptor(v,
                         fragment=True,
                         decorators=decorators
-- 
2.43.0


From 8bf8ac2bc664ec7033f87d11f57c3b11c7245c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 56/77] fix: find the trend lines anew when the scan of a trend
 starts again

The points and lines of the previous scan were kept, which gave them twice or
raised an IndexError.
---
 curvepy/trend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 88ed045..3482f40 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -90,6 +90,12 @@ class Trend(Scan):
 
         return is_empty
 
+    def reset_scan(self):
+        super().reset_scan()
+        self.points = []
+        self.nested_upper_lines = [[]]
+        self.nested_lower_lines = [[]]
+
     def begin_update(self, domain):
         super().begin_update(domain)
 
-- 
2.43.0


From d6512f5190a9ce0fe6ca0c78c6f00492bc9b2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 57/77] fix: keep the points of a trend line in order

The width and the distances of the points are taken from adjacent points, so
lines of more than three points were not found.
---
 curvepy/trend.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3482f40..5b244f2 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -457,9 +457,8 @@ class TrendLine(Sequence):
             resulting_points = []
             for p in coincident_points:
                 if _is_point_on_line(line, p, y_tol_rel=self.y_tol_rel, y_tol_abs=self.y_tol_abs):
-                    resulting_points.append(p)
-            resulting_points.insert(0, line[0])
-            resulting_points.append(line[1])
+                    _insort_point_left(resulting_points, p)
+            _insort_points_left(resulting_points, line)
             return resulting_points
 
         final_points = add_coincident_points(final_line, coincident_points)
-- 
2.43.0


From e968b98ea0ad3d99f594531705059369129a5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 58/77] fix: scan a trend until no line may change at x any
 more

A line which reached x only after further points was missed, unless these
had been scanned for another x.
---
 curvepy/trend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 5b244f2..126081b 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -79,13 +79,13 @@ class Trend(Scan):
         for lines in self.nested_upper_lines:
             for line in lines:
                 is_empty = False
-                if line.search_interval.contains(x, enforce_end=False):
+                if line.may_reach(x):
                     return True
 
         for lines in self.nested_lower_lines:
             for line in lines:
                 is_empty = False
-                if line.search_interval.contains(x, enforce_end=False):
+                if line.may_reach(x):
                     return True
 
         return is_empty
@@ -293,6 +293,10 @@ class TrendLine(Sequence):
         """Return `True` where there are no trend points."""
         return len(self.trend_points) == 0
 
+    def may_reach(self, x):
+        """Return `True` if the line contains `x` or may still do so after more points."""
+        return len(self._boundary_points) != 0 and self._boundary_points[0][0] <= x
+
     @property
     def width(self):
         return self.trend_points[-1][0] - self.trend_points[0][0] if len(self.trend_points) >= 2 else 0
-- 
2.43.0


From 51631900e5a475cc45411e8b54aee865212d7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 59/77] fix: refresh an extension again after an exception

An exception of the curve or of a function in it while the extension was
refreshed left it marked as current with values of before, or of nothing.
---
 curvepy/extension/extension.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index d4ce878..c10be6a 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -136,6 +136,13 @@ class Extension(Curve):
         if not self._extension_interval_stale:
             return
         self._extension_interval_stale = False
+        try:
+            self._refresh_extension_interval()
+        except Exception:
+            self._extension_interval_stale = True
+            raise
+
+    def _refresh_extension_interval(self):
         if self._extension_stale:
             self._update_extension_if_needed()
 
@@ -160,5 +167,9 @@ class Extension(Curve):
         self._extension_stale = False
         self._extension_interval_stale = True
 
-        self.update_extension()
+        try:
+            self.update_extension()
+        except Exception:
+            self._extension_stale = True
+            raise
         self._update_extension_interval()
-- 
2.43.0


From 8b29e356e20eb625ac3b00ed032d675ac879114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 60/77] fix: a constant extension of a curve with an open end
 had no value

---
 curvepy/extension/constant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 2a36e55..6d8164f 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -16,11 +16,15 @@ class ConstantExtension(Extension):
 
         if self.start:
             x = self.curve.domain.start
+            if self.curve.domain.start_open and self.curve.domain.contains(x + self.min_step):
+                x += self.min_step
             y = self.curve.y(x)
             self.start_func.value = y
 
         if self.end:
             x = self.curve.domain.end
+            if self.curve.domain.end_open and self.curve.domain.contains(x - self.min_step):
+                x -= self.min_step
             y = self.curve.y(x)
             self.end_func.value = y
 
-- 
2.43.0


From 1895e077c9ccd47304d02322a972799e702ebb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 61/77] fix: an extension which must not be empty raised at the
 first lookup only

---
 curvepy/extension/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index c10be6a..b3760b0 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -83,7 +83,7 @@ class Extension(Curve):
     def y(self, x):
         if self.curve.domain.contains(x):
             return self.curve.y(x)
-        self._update_extension_if_needed()
+        self._update_extension_interval()
         if self.extension_interval.contains(x):
             return self.y_extension(x)
         return None
-- 
2.43.0


From 371c02b5266e7078e0b05f73f3210e859efbfa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 62/77] fix: domain of a curve offset by a duration

The domain reached to the step after the end of the curve, where the offset
has no value, if the curve does not end at a step of the duration. A curve
without any step had a domain of one point without a value.
---
 curvepy/offset.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 95bb393..377248a 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -11,7 +11,26 @@ class Offset(Curve):
     """
 
     def get_domain(self):
-        return self._offset_interval(self.curve.domain)
+        domain = self.curve.domain
+        if self._has_steps and not domain.is_empty:
+            # There are only values between the steps of the duration
+            start, end = domain.start, domain.end
+            if math.isfinite(start):
+                start = self.duration.ceil(start)
+                if not domain.contains(start, enforce_end=False):
+                    start = self.duration.next(start)
+            if math.isfinite(end):
+                end = self.duration.floor(end)
+                if not domain.contains(end, enforce_start=False):
+                    end = self.duration.previous(end)
+            if start > end:
+                return Interval.empty()
+            domain = Interval(start, end, start_open=math.isinf(start), end_open=math.isinf(end))
+        return self._offset_interval(domain)
+
+    @property
+    def _has_steps(self):
+        return self.duration is not None and self.x_offset != 0
 
     def __init__(self, func, offset, duration=None):
         super().__init__()
-- 
2.43.0


From ad56f2e0a2a74267922fed86363d5e7bc2a9bcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 63/77] fix: values next to a change of a curve offset by a
 duration

Only the steps of the duration in the changed interval were told to be updated,
but the values from the step before it to the step after it change as well.
---
 curvepy/offset.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 377248a..0d9b39c 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -105,10 +105,21 @@ class Offset(Curve):
         return self._offset_x(x1, floor=True)
 
     def begin_offset_update(self, domain):
-        self.begin_update(self._offset_interval(domain))
+        self.begin_update(self._update_interval(domain))
 
     def end_offset_update(self, domain):
-        self.end_update(self._offset_interval(domain))
+        self.end_update(self._update_interval(domain))
+
+    def _update_interval(self, domain):
+        if self.duration is not None and not domain.is_empty:
+            # Values between the steps of the duration depend on both of them
+            start, end = domain.start, domain.end
+            if math.isfinite(start):
+                start = self.duration.floor(start) if domain.start_open else self.duration.previous(start)
+            if math.isfinite(end):
+                end = self.duration.ceil(end) if domain.end_open else self.duration.next(end)
+            domain = Interval.open(start, end)
+        return self._offset_interval(domain)
 
     def _offset_x(self, x, floor=False):
         if x is None or math.isinf(x):
-- 
2.43.0


From 6799ba86fbecb5ca763cfc9ae6a9fb3de65817d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 64/77] fix: steps of a curve offset by a duration

The minimum step was ignored, and there were no steps into the domain from
outside of it.
---
 curvepy/offset.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 0d9b39c..d447167 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -81,29 +81,49 @@ class Offset(Curve):
         return y
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        if self.duration:
+            return self._x_previous_duration(x, min_step or 0)
         x = self._unoffset_x(x, floor=False)
         if x is None:
             return None
-        if self.duration:
-            x1 = self.duration.previous(x)
-        else:
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=self._unoffset_x(limit))
+        x1 = self.curve.x_previous(x, min_step=min_step, limit=self._unoffset_x(limit))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        if self.duration:
+            return self._x_next_duration(x, min_step or 0)
         x = self._unoffset_x(x, floor=True)
         if x is None:
             return None
-        if self.duration:
-            x1 = self.duration.next(x)
-        else:
-            x1 = self.curve.x_next(x, min_step=min_step, limit=self._unoffset_x(limit))
+        x1 = self.curve.x_next(x, min_step=min_step, limit=self._unoffset_x(limit))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
 
+    def _x_previous_duration(self, x, min_step):
+        domain = self.domain
+        if x is None or domain.is_empty:
+            return None
+        x1 = self.duration.previous(x) if x <= domain.end else self.duration.floor(domain.end)
+        if x - x1 < min_step:
+            x1 = self.duration.floor(x - min_step)
+        if x1 == domain.end and domain.end_open:
+            x1 = self.duration.previous(x1)
+        return x1 if domain.contains(x1) else None
+
+    def _x_next_duration(self, x, min_step):
+        domain = self.domain
+        if x is None or domain.is_empty:
+            return None
+        x1 = self.duration.next(x) if x >= domain.start else self.duration.ceil(domain.start)
+        if x1 - x < min_step:
+            x1 = self.duration.ceil(x + min_step)
+        if x1 == domain.start and domain.start_open:
+            x1 = self.duration.next(x1)
+        return x1 if domain.contains(x1) else None
+
     def begin_offset_update(self, domain):
         self.begin_update(self._update_interval(domain))
 
-- 
2.43.0


From 035aacb1223eeed5854ee19503e3c4c9ddd3edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 65/77] fix: slope of a curve offset by a duration

The slope was interpolated from slopes between points of the curve which the
offset does not step to, so it was not the slope of the values of the offset,
and it changed where no observer was told.
---
 curvepy/offset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index d447167..44af4f2 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -59,6 +59,9 @@ class Offset(Curve):
         return self._interpolated_func(self.curve.y, x)
 
     def d_y(self, x, **kwargs):
+        if self.duration is not None:
+            # The slope between the steps of the duration
+            return super().d_y(x, **kwargs)
         return self._interpolated_func(self.curve.d_y, x, **kwargs)
 
     def _interpolated_func(self, f, x, **kwargs):
-- 
2.43.0


From b656f46634cb2da9be664ae67b9e93a2762a9ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 66/77] fix: a combination of curves did not tell of gained or
 lost gaps

The domain of Curve.first, and of Curve.min and Curve.max with ignore_empty,
spans the gaps between the functions, so a curve derived from it may change
there as well when the first or last function changes its domain.
---
 curvepy/aggregate.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 61d6c8e..733dfe3 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -27,7 +27,7 @@ class Aggregate(Curve):
         self.default = default
         unique_funcs = list(set(list(self.funcs)))
         self._observer_tokens = list(map(lambda f: f.add_observer(
-            begin=self.begin_update, end=self.end_update, prioritize=True), unique_funcs))
+            begin=self.begin_aggregate_update, end=self.end_aggregate_update, prioritize=True), unique_funcs))
 
     def __del__(self):
         for func, token in zip(self.funcs, self._observer_tokens):
@@ -50,6 +50,29 @@ class Aggregate(Curve):
         except Exception as e:
             return super().__repr__() + f'({e})'
 
+    def begin_aggregate_update(self, domain):
+        self.begin_update(self._update_interval(domain))
+
+    def end_aggregate_update(self, domain):
+        self.end_update(self._update_interval(domain))
+
+    def _update_interval(self, domain):
+        if not self.is_union or domain.is_empty:
+            return domain
+        # The domain includes the gaps between functions, so it may gain or
+        # lose the ones next to the change
+        start, end, start_open, end_open = domain.start, domain.end, domain.start_open, domain.end_open
+        domains = [f.domain for f in self.funcs if not f.domain.is_empty]
+        if not any(d.start <= end < d.end for d in domains):
+            starts = [d.start for d in domains if d.start > end]
+            if len(starts) != 0:
+                end, end_open = min(starts), True
+        if not any(d.start < start <= d.end for d in domains):
+            ends = [d.end for d in domains if d.end < start]
+            if len(ends) != 0:
+                start, start_open = max(ends), True
+        return Interval(start, end, start_open=start_open, end_open=end_open)
+
     def y(self, x):
         if not self.domain.contains(x):
             return self.default
-- 
2.43.0


From 055bca3a661d826e2f7382e3b695ff49808577ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 67/77] fix: blend curves where the blend reaches to the ends
 of the domain

A blend which starts at or before the first point, or stops after the last one,
could not be built.
---
 curvepy/curve.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index a929dc1..9ae2e09 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -554,8 +554,14 @@ class Curve:
         c = Aggregate([self, func], tfm=blend_f, name='blend')
 
         funcs = [self, c, func]
-        domains = self.domain.partition([x_blend_start, x_blend_stop])
-        return Piecewise(funcs, domains)
+        domains = [
+            Interval(-math.inf, x_blend_start, start_open=True, end_open=True),
+            Interval(x_blend_start, x_blend_stop, end_open=True),
+            Interval(x_blend_stop, math.inf, end_open=True)
+        ]
+        domains = [Interval.intersection([self.domain, d]) for d in domains]
+        pieces = [(f, d) for f, d in zip(funcs, domains) if not d.is_empty]
+        return Piecewise([f for f, _ in pieces], [d for _, d in pieces])
 
     def extension(self, name, start=False, end=True, raise_on_empty=False, **kwds):
         from .extension import ConstantExtension
-- 
2.43.0


From c7c61d98d961a7a7a060f2d4d0a0ea41573d70fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 68/77] fix: SMA over a period which holds no point divided by
 zero

---
 curvepy/sma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 4fa4873..cf22a04 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -148,6 +148,9 @@ class SMA(Integral):
     def _sma_start(self, x):
         if self.period is not None:
             x0 = self.curve.x_next(x - self.period, min_step=self.min_step)
+            if x0 is None or x0 > x:
+                # There is no point within the period
+                return x
         elif self.degree is not None:
             x0 = x
             for _ in range(0, self.degree - 1):
-- 
2.43.0


From 9764ebc054e55113bc16870665eb13a435e84be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 69/77] fix: SMA with a minimum step depended on what was asked
 before

---
 curvepy/sma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index cf22a04..dfb2f2b 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -99,6 +99,10 @@ class SMA(Integral):
                 break
             x1 = x01
 
+        if self.min_step > MIN_STEP:
+            # Which points are skipped depends on where the scan started
+            self.reset_scan()
+
         # Values must be accessed in ascending order
         y0 = super().y(x0)
         if y0 is None:
-- 
2.43.0


From 01d4dcb6c39b141e7b233af74f462bd379f316e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:20 +0000
Subject: [PATCH 70/77] fix: one tangent point of a trend line for each run of
 points on it

---
 curvepy/trend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 126081b..fd067f0 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -622,7 +622,11 @@ class TrendLine(Sequence):
         if len(self.intersections) != 0:
             update_interval = Interval.intersection([update_interval, Interval.gte(self.intersections[-1][0])])
         if len(self.tangent_points) != 0:
-            update_interval = Interval.intersection([update_interval, Interval.gt(self.tangent_points[-1][0])])
+            update_interval = Interval.intersection([update_interval, Interval.gte(self.tangent_points[-1][0])])
+            if update_interval.contains(self.tangent_points[-1][0]):
+                # the points on the trend next to it belong to the same tangent point
+                del self.tangent_points[-1]
+                tangent_insert_index -= 1
 
         for i in reversed(range(len(underlying_points))):
             p = underlying_points[i]
-- 
2.43.0


From 94e4e5842527c3c8742ff4581dc9016cbece9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:24 +0000
Subject: [PATCH 71/77] fix: count the touches before the intersection of a
 trend line once

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index fd067f0..41a6a2e 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -757,7 +757,7 @@ class TrendLine(Sequence):
             return
 
         for p in points:
-            if self._prediction_x_processed is not None and p[0] < self._prediction_x_processed:
+            if self._prediction_x_processed is not None and p[0] <= self._prediction_x_processed:
                 continue
             point_type = p[2]
             clean_point = (p[0], p[1])
-- 
2.43.0


From 120e75cfb1456ef835b9ca8b88e8ae52b1592c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 72/77] fix: extend a trend line without intersections to one
 counted from the end

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 41a6a2e..c043b9e 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -319,7 +319,7 @@ class TrendLine(Sequence):
             x1 = x0 + (x1 - x0) * width_mult
         if width_max is not None and x1 - x0 > width_max:
             x1 = x0 + width_max
-        if intersection_index is not None and intersection_index + 1 < intersection_count:
+        if intersection_index is not None and 0 < intersection_index + 1 < intersection_count:
             next_intersection = self.intersections[intersection_index + 1]
             if next_intersection[0] < x1:
                 x1 = next_intersection[0]            
-- 
2.43.0


From c5149423819f92776d63624548ecd5accb142cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:30 +0000
Subject: [PATCH 73/77] fix: look for tangent points along all of a trend line
 when it changes

---
 curvepy/trend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index c043b9e..e4afe4c 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -528,6 +528,9 @@ class TrendLine(Sequence):
         self._line = _line_fit(self.trend_points)
         self._update_trend_tolerance_lines()
         self.reset_points_of_interest()
+        if self.is_ready:
+            # the former line may have begun later
+            self.search_interval = Interval.union([self.search_interval, Interval.closed(self._line[0][0], self._line[1][0])])
         self.update_points_of_interest(underlying_points)
         self.update_interval()
         self.reset_prediction()
-- 
2.43.0


From 940fea9b3c19c03e9b7dacb29a93e5811c6a4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 74/77] fix: two trend lines through the same points no longer
 remove each other

---
 curvepy/trend.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index e4afe4c..3921a9b 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -181,10 +181,9 @@ class Trend(Scan):
                 self.nested_lower_lines.append([])
 
     def _append_point_and_validate(self, p, lines, nested_lines, is_upper_trend=True):
-        remove_indexes = []
         new_trend_points = []
 
-        for i, line in enumerate(lines):
+        for line in list(lines):
             was_valid = line.is_valid
             was_ready = line.is_ready
 
@@ -193,7 +192,7 @@ class Trend(Scan):
                     if not was_valid:
                         if self._has_coincident_nested_line(line, nested_lines):
                             # trend already added
-                            remove_indexes.append(i)
+                            lines.remove(line)
                             continue
 
                         # We can't add all trend points because it would form a trend line
@@ -203,12 +202,9 @@ class Trend(Scan):
 
                 elif line.is_ready and not was_ready and self._has_coincident_line(line, lines):
                     # already tracking this trend
-                    remove_indexes.append(i)
+                    lines.remove(line)
                     continue
 
-        for i in reversed(remove_indexes):
-            del lines[i]
-
         self._try_fork_line(lines, p, is_upper_trend=is_upper_trend)
 
         return new_trend_points
-- 
2.43.0


From bd4bbbebf3b5147a1e17350654909e3f43789c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 75/77] fix: sampling an extended function raised or gave
 points out of order

---
 curvepy/extension/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index b3760b0..62b1d60 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -92,7 +92,7 @@ class Extension(Curve):
         x1 = self.curve.x_previous(x, min_step=min_step)
         if x1 is None and self.start:
             # Keep returning extension with same step
-            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step, limit=limit)
+            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step)
             if x0 is None:
                 return None
             step = x0 - self.curve.domain.start
@@ -103,7 +103,7 @@ class Extension(Curve):
         x1 = self.curve.x_next(x, min_step=min_step)
         if x1 is None and self.end:
             # Keep returning extension with same step
-            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step, limit=limit)
+            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step)
             if x0 is None:
                 return None
             step = self.curve.domain.end - x0
-- 
2.43.0


From 96fbd143cef39529cca1256901dfb70ee76c81cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:25 +0000
Subject: [PATCH 76/77] fix: a moving average over a period of a function had
 no value before two periods

---
 curvepy/sma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index dfb2f2b..630975b 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -152,6 +152,10 @@ class SMA(Integral):
     def _sma_start(self, x):
         if self.period is not None:
             x0 = self.curve.x_next(x - self.period, min_step=self.min_step)
+            start = self.curve.domain.start
+            if x0 is not None and x0 < start:
+                # A function steps on from before its domain
+                x0 = self.curve.x_next(start, min_step=self.min_step) if self.curve.domain.start_open else start
             if x0 is None or x0 > x:
                 # There is no point within the period
                 return x
-- 
2.43.0


From 49c080890f88091bb7c1bb7191063a8a0647c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 77/77] fix: accumulating curves over functions depended on
 what was asked before

---
 curvepy/scan.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index fa880f8..34319d0 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -1,4 +1,5 @@
 import math
+from .aggregate import has_infinite_step
 from .curve import Curve, MIN_STEP
 from .constant import Constant
 from intervalpy import Interval
@@ -58,7 +59,7 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                current = self.curve.x_next(self.current, min_step=self.min_step, limit=x0)
+                current = self._next_scan_x(x0)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
@@ -66,6 +67,18 @@ class Scan(Curve):
             self.tfm(current, self.curve.y(current))
             self.current = current
 
+    def _next_scan_x(self, x0):
+        end = self.curve.domain.end
+        if self.current >= end:
+            return None
+        x = None
+        if not has_infinite_step(self.curve):
+            # The steps must not depend on the value which was asked for
+            x = self.curve.x_next(self.current, min_step=self.min_step, limit=end)
+        if x is None and math.isinf(end) and x0 > self.current:
+            x = self.curve.x_next(self.current, min_step=self.min_step, limit=x0)
+        return x
+
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         min_step = self.resolve_min_step(min_step)
         if domain is None:
-- 
2.43.0

