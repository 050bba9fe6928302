From f5f68bbec3653ca5a4d29ca3baac56841936cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 01/47] fix: treat scalar NaN/NaT start and end in layer as
 missing

---
 staircase/core/layering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 82c0505..55bc796 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -74,9 +74,9 @@ def _convert_to_series(vec: Any) -> pd.Series:
 
 
 def _preprocess_layer_args(frame, start, end, value):
-    if isinstance(start, NegInf):
+    if isinstance(start, NegInf) or (not is_list_like(start) and pd.isna(start)):
         start = None
-    if isinstance(end, Inf):
+    if isinstance(end, Inf) or (not is_list_like(end) and pd.isna(end)):
         end = None
     if frame is not None:
         start, end, value = _extract_from_frame(frame, start, end, value)
-- 
2.43.0


From 25a0fb99d4b29e404f45aa672e8e4dab4dcfb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 02/47] fix: layer which cancels every step leaves a step-free
 function

---
 staircase/core/layering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 55bc796..4d6570b 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -129,6 +129,9 @@ def _layer_scalar(self, start, end, value):
     if len(deltas) > 0:
         self._data = deltas.sort_index().to_frame()
         self._valid_deltas = True
+    else:
+        self._data = None
+        self._valid_deltas = False
     self._valid_values = False
     return self
 
-- 
2.43.0


From e265f6236914287012594e2ed47d4f3c32abf0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 03/47] fix: layering onto a partly undefined function

---
 staircase/core/layering.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 4d6570b..1198009 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -136,6 +136,18 @@ def _layer_scalar(self, start, end, value):
     return self
 
 
+def _layer_partly_undefined(self, start, end, value):
+    # step changes cannot be accumulated across undefined regions, so the intervals are
+    # layered separately and added, which leaves undefined regions undefined
+    intervals = self.__class__(closed=self._closed).layer(start, end, value)
+    result = self + intervals
+    self.initial_value = result.initial_value
+    self._data = result._data
+    self._valid_deltas = result._valid_deltas
+    self._valid_values = result._valid_values
+    return self
+
+
 @Appender(examples.layer_example, join="\n", indents=1)
 def layer(self, start=None, end=None, value=None, frame=None):
     """
@@ -172,6 +184,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
         return self
     self._clear_cache()
     start, end, value = _preprocess_layer_args(frame, start, end, value)
+    if self._data is not None and self._has_na():
+        return _layer_partly_undefined(self, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
     value = np.array(value)
-- 
2.43.0


From 64f74ec687a021788b1d6a40c4b55443530cb0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 04/47] fix: layer with a vector of missing start or end points

---
 staircase/core/layering.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 1198009..b90aba8 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -196,17 +196,16 @@ def layer(self, start=None, end=None, value=None, frame=None):
     df = pd.concat([start, end], axis=1, ignore_index=True)
     start_series = pd.Series(value, index=df.iloc[:, 0])
     self.initial_value += start_series[start_series.index.isna()].sum()
-    if self._data is None:
-        to_concat = [
-            start_series,
-            pd.Series(-value, index=df.iloc[:, 1]),
-        ]
-    else:
-        to_concat = [
-            start_series,
-            pd.Series(-value, index=df.iloc[:, 1]),
-            self._get_deltas(),
-        ]
+    end_series = pd.Series(-value, index=df.iloc[:, 1])
+    to_concat = [
+        start_series[start_series.index.notna()],
+        end_series[end_series.index.notna()],
+        self._get_deltas(),
+    ]
+    # empty series are excluded as the dtype of their index may not be that of the domain
+    to_concat = [series for series in to_concat if len(series)]
+    if not to_concat:
+        return self
     deltas = pd.concat(to_concat)
 
     self._data = deltas.groupby(deltas.index).sum().rename("delta").to_frame()
-- 
2.43.0


From 9cdce8b2d76cc4852a6384391ddec63f25f499e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 05/47] fix: adding a constant to, or subtracting from one, a
 partly undefined function

---
 staircase/core/ops/arithmetic.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 5c1ebb3..d8cbe3a 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -39,6 +39,22 @@ def _add_or_sub_deltas_no_mask(self, other, series_op, float_op):
     return new_instance
 
 
+def _get_data_for_shift(self):
+    # step changes are relative to zero, not to the initial value, if the latter is
+    # undefined and therefore do change when a constant is added
+    if self._has_na():
+        return pd.DataFrame({"value": self._get_values().copy()})
+    columns = [
+        column
+        for column, valid in (
+            ("value", self._valid_values),
+            ("delta", self._valid_deltas),
+        )
+        if valid
+    ]
+    return self._data[columns].copy()
+
+
 def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
     @Appender(docstring, join="\n", indents=1)
     @requires_closed_match
@@ -54,8 +70,8 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
             if np.isnan(other.initial_value):
                 data = None
             else:
-                data = self._data.copy()
-                if self._valid_values:
+                data = _get_data_for_shift(self)
+                if "value" in data:
                     data["value"] = series_op(data["value"], other.initial_value)
             return sc.Stairs._new(
                 initial_value=float_op(self.initial_value, other.initial_value),
@@ -66,10 +82,10 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
             if np.isnan(self.initial_value):
                 data = None
             else:
-                data = other._data.copy()
-                if other._valid_values:
+                data = _get_data_for_shift(other)
+                if "value" in data:
                     data["value"] = series_rop(data["value"], self.initial_value)
-                if other._valid_deltas:
+                if "delta" in data:
                     data["delta"] = series_rop(data["delta"], 0)
             return sc.Stairs._new(
                 initial_value=float_op(self.initial_value, other.initial_value),
-- 
2.43.0


From 5f29177f01852cf51453e1b757e022fa878d23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 06/47] fix: negative constant divided by a function with zeros
 is undefined, not -inf

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index d8cbe3a..16172da 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -133,7 +133,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
             else:
                 data = pd.DataFrame({"value": series_op(self._get_values(), other)})
                 if series_op in (pd.Series.divide, pd.Series.rdiv):
-                    data = data.replace(np.inf, np.nan)
+                    data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
             return sc.Stairs._new(
-- 
2.43.0


From a5dd44d13d6c008860a1d3b190c621afee2eb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 07/47] fix: redundant step points after multiplying or
 dividing by a constant

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 16172da..044cd04 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -140,7 +140,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
                 initial_value=initial_value,
                 data=data,
                 closed=self.closed,
-            )
+            )._remove_redundant_step_points()
 
         self, other = _sanitize_binary_operands(self, other)
         if other._data is None:
-- 
2.43.0


From e3a37885b6253e14283094996db45d635cb41b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 08/47] fix: closed side of a comparison between a step-free
 function and one with steps

---
 staircase/core/ops/relational.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 7e37928..3f9e1ce 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -34,7 +34,7 @@ def _make_relational_func(
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=None,
-                closed=other.closed if np.isnan(self.initial_value) else self.closed,
+                closed=other.closed if other._data is not None else self.closed,
             )
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
@@ -54,7 +54,7 @@ def _make_relational_func(
                     {"value": new_values * 1},
                     index=new_index,
                 ),
-                closed=self.closed,
+                closed=self.closed if other._data is None else other.closed,
             )
             new_instance._remove_redundant_step_points()
             return new_instance
-- 
2.43.0


From d86927e108f2273f2508ebfa29e0e8bb4ac4f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 09/47] fix: comparison of a partly undefined function with a
 constant has float values

---
 staircase/core/ops/relational.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 3f9e1ce..37b7c05 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -39,19 +39,19 @@ def _make_relational_func(
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
                 values = self._get_values()
-                new_values = numpy_relational(values, other.initial_value)
+                new_values = numpy_relational(values, other.initial_value).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = self._data.index
             else:  # other._data exists
                 values = other._get_values()
-                new_values = numpy_relational(self.initial_value, values)
+                new_values = numpy_relational(self.initial_value, values).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = other._data.index
 
             new_instance = sc.Stairs._new(
                 initial_value=initial_value,
                 data=pd.DataFrame(
-                    {"value": new_values * 1},
+                    {"value": new_values},
                     index=new_index,
                 ),
                 closed=self.closed if other._data is None else other.closed,
-- 
2.43.0


From 2efa43083967c78efc1e2552e801e47ec69bc0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 10/47] fix: f & 0 and f | 1 are undefined where f is

---
 staircase/core/ops/logical.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/logical.py b/staircase/core/ops/logical.py
index 1271d40..7df4372 100644
--- a/staircase/core/ops/logical.py
+++ b/staircase/core/ops/logical.py
@@ -43,12 +43,17 @@ make_boolean = _make_boolean_func(
 invert = _make_boolean_func(docstrings.invert_docstring, pd.Series.eq, operator.eq)
 
 
+def _constant_where_defined(self, value):
+    constant = sc.Stairs._new(value, None, closed=self.closed)
+    return constant.mask(self.isna())
+
+
 def _make_logical_func(docstring, array_op, float_op):
     def _op_with_scalar_and(self, other):
         if np.isnan(other):
             return sc.Stairs._new(np.nan, None, closed=self.closed)
         elif other == 0:
-            return sc.Stairs._new(0, None, closed=self.closed)
+            return _constant_where_defined(self, 0)
         else:
             return self.make_boolean()
 
@@ -58,7 +63,7 @@ def _make_logical_func(docstring, array_op, float_op):
         elif other == 0:
             return self.make_boolean()
         else:
-            return sc.Stairs._new(1, None, closed=self.closed)
+            return _constant_where_defined(self, 1)
 
     def _op_with_scalar_xor(self, other):
         if np.isnan(other):
-- 
2.43.0


From a5f3cc2d45cac5e21bec399af1dede84590e803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 11/47] fix: clip without bounds returns a copy

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9c9186f..7c766e5 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -38,7 +38,7 @@ def clip(self, lower=-inf, upper=inf):
     if not lower < upper:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
-        return self
+        return self.copy()
     left_index, right_index = _get_slice_index(
         self, lower, upper, lower_how="right", upper_how="left"
     )
-- 
2.43.0


From e5bff5a4f3d525ae3dc9b5c13ef35ee7a027f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 12/47] fix: infinite float bounds are no restriction

---
 staircase/util/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 45982a3..d766743 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -58,8 +58,8 @@ def _replace_none_with_infs(tuple_):
     if tuple_ == (-inf, inf):
         return tuple_
     left, right = tuple_
-    if left is None:
+    if left is None or (isinstance(left, (float, np.floating)) and left == -np.inf):
         left = -inf
-    if right is None:
+    if right is None or (isinstance(right, (float, np.floating)) and right == np.inf):
         right = inf
     return (left, right)
-- 
2.43.0


From 860611633d4b22091d739671d753bd16c9de2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 13/47] fix: where() is undefined where its argument is
 undefined towards -inf

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 7c766e5..7f62e32 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -83,7 +83,9 @@ def _maskify(self, inverse=False):
         )
 
     return sc.Stairs._new(
-        initial_value=np.nan if op(self.initial_value, 0) else 0,
+        initial_value=(
+            np.nan if op(self.initial_value, 0) or np.isnan(self.initial_value) else 0
+        ),
         data=data,
         closed=self.closed,
     )
-- 
2.43.0


From 50ba9dcb32b23698ca1836df3ca8f1992d06db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 14/47] fix: redundant step points after masking a step-free
 function

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 7f62e32..b4f8044 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -88,9 +88,10 @@ def _maskify(self, inverse=False):
         ),
         data=data,
         closed=self.closed,
-    )
+    )._remove_redundant_step_points()
 
 
+@requires_closed_match
 def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
-- 
2.43.0


From df3ac56bbaa5a726e4396a59c30d09070c19688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 15/47] fix: closed side of masks which are tuples or step-free
 functions

---
 staircase/core/ops/masking.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index b4f8044..35169fc 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -99,7 +99,7 @@ def _mask_stairs(self, other, inverse):
     full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
     if other._data is None:
         if full_mask_comparator(other.initial_value):
-            return sc.Stairs(initial_value=np.nan)
+            return sc.Stairs(initial_value=np.nan, closed=self.closed)
         else:
             return self.copy()
     return _maskify(other, inverse=inverse) + self
@@ -108,8 +108,11 @@ def _mask_stairs(self, other, inverse):
 def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
+        left, right = _replace_none_with_infs((left, right))
         return _mask_stairs(
-            self, sc.Stairs().layer(start=left, end=right), inverse=False
+            self,
+            sc.Stairs(closed=self.closed).layer(start=left, end=right),
+            inverse=False,
         )
 
     @convert_string_args_to_timestamp
-- 
2.43.0


From 62d43dc0707cfdc598d2e953ad2b2e54c366c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 16/47] fix: masking with a step-free function whose value is a
 numpy integer

---
 staircase/core/ops/masking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 35169fc..8d2933d 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -96,7 +96,10 @@ def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
 
-    full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
+    def is_full_mask(initial_value):
+        return initial_value != 0
+
+    full_mask_comparator = is_full_inverse_mask if inverse else is_full_mask
     if other._data is None:
         if full_mask_comparator(other.initial_value):
             return sc.Stairs(initial_value=np.nan, closed=self.closed)
-- 
2.43.0


From 8a3b17b9b8014e75a52eea7b9227c73e3bb06efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 17/47] fix: fillna with a partly undefined function

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 8d2933d..0c6e4a3 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -214,7 +214,8 @@ def _make_data_fillna_scalar(self, value):
 @requires_closed_match
 def _fillna_with_stairs(self, value):
     # value is Stairs
-    return self.fillna(0) + value * self.isna()
+    result = self.fillna(0) + value.fillna(0) * self.isna()
+    return result.mask(self.isna() & value.isna())
 
 
 # TODO: test
-- 
2.43.0


From 9fd2b26727d1ee34451135b8889538832a270702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 18/47] fix: from_values converts negative infinity to NaN

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 934ae06..f24a41e 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -138,7 +138,7 @@ class Stairs:
 
         series_values_inf_mask = np.isinf(values)
         if series_values_inf_mask.any():
-            values = values.replace([np.inf], np.nan)
+            values = values.replace([np.inf, -np.inf], np.nan)
             warnings.warn("Infinity values detected and have been converted to NaN")
 
         new_instance = cls(closed=closed)
-- 
2.43.0


From 5a2df889feab8e20d65cfb33361caa2f0aaae21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 19/47] fix: from_values does not share the Series it is given

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index f24a41e..ea71cf1 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -143,7 +143,7 @@ class Stairs:
 
         new_instance = cls(closed=closed)
         new_instance.initial_value = initial_value
-        new_instance._data = values.to_frame("value")
+        new_instance._data = values.copy().to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance
-- 
2.43.0


From 927004a75081743a46a3022114ce68051d219bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 20/47] fix: redundant step points in from_values

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index ea71cf1..b8b8d60 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -146,7 +146,7 @@ class Stairs:
         new_instance._data = values.copy().to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-        return new_instance
+        return new_instance._remove_redundant_step_points()
 
     def _has_na(self) -> bool | np.array:
         return np.isnan(self._data.values).any() or np.isnan(self.initial_value)
-- 
2.43.0


From d99d87e9ca903944ded801dea992603706122b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 21/47] fix: shifting a step-free function keeps its closed
 side

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index b8b8d60..5b0fe7f 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -637,7 +637,7 @@ class Stairs:
         Stairs.diff
         """
         if self._data is None:
-            return Stairs(initial_value=self.initial_value)
+            return Stairs(initial_value=self.initial_value, closed=self.closed)
         return Stairs._new(
             initial_value=self.initial_value,
             data=self._data.set_index(self._data.index + delta),
-- 
2.43.0


From 498887b65b42923bfab47db9eea0541155bd8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 22/47] fix: describe reports numbers instead of methods

---
 staircase/core/stairs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 5b0fe7f..96f07b8 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -605,12 +605,12 @@ class Stairs:
             {
                 **{
                     "unique": stairs.percentile.clip(0, 100).number_of_steps - 1,
-                    "mean": stairs.mean,
-                    "std": stairs.std,
-                    "min": stairs.min,
+                    "mean": stairs.mean(),
+                    "std": stairs.std(),
+                    "min": stairs.min(),
                 },
                 **{f"{perc}%": stairs.percentile(perc) for perc in percentiles},
-                **{"max": stairs.max},
+                **{"max": stairs.max()},
             }
         )
 
-- 
2.43.0


From f2bc42efc82134240638ef0caca6f14a8948c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 23/47] fix: limit(include_index=True) for scalars and
 step-free functions

---
 staircase/core/sampling.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index e0eaa3b..2b82e25 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -11,6 +11,12 @@ from staircase.util._decorators import Appender
 
 
 # capable of single or vector
+def _add_index(values, x):
+    if not is_list_like(x):
+        x = [x]
+    return pd.Series(values, index=x)
+
+
 @Appender(examples.sample_example, join="\n", indents=1)
 def sample(
     self: Stairs, x: int | float | np.array | pd.Series, include_index=False
@@ -38,12 +44,7 @@ def sample(
     staircase.sample
     """
     side = "right" if self._closed == "left" else "left"
-    values = limit(self, x, side)
-    if include_index:
-        if not is_list_like(x):
-            x = [x]
-        values = pd.Series(values, index=x)
-    return values
+    return limit(self, x, side, include_index)
 
 
 @Appender(examples.limit_example, join="\n", indents=1)
@@ -80,9 +81,10 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     passed_x = x
     if self._data is None:
         if pd.api.types.is_list_like(x):
-            return self.initial_value * np.ones_like(x, dtype=float)
+            values = self.initial_value * np.ones_like(x, dtype=float)
         else:
-            return self.initial_value
+            values = self.initial_value
+        return _add_index(values, passed_x) if include_index else values
     amended_values = np.append(
         self._get_values().values, [self.initial_value]
     )  # hack for -1 index value
@@ -91,9 +93,7 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     elif _is_datetime_like(x):
         x = pd.Series([x]).values[0]
     values = amended_values[np.searchsorted(self._data.index.values, x, side=side) - 1]
-    if include_index:
-        values = pd.Series(values, index=passed_x)
-    return values
+    return _add_index(values, passed_x) if include_index else values
 
 
 def add_methods(cls):
-- 
2.43.0


From fa06a58def853849e6dc21354026269d7ab2ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 24/47] fix: values_in_range of an undefined step-free function
 is empty

---
 staircase/core/stats/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0efc100..55deac0 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -119,7 +119,8 @@ def values_in_range(self, where=(-inf, inf), closed=None):
     lower_how, upper_how = _get_lims(self, closed)
     left_index, right_index = _get_slice_index(self, lower, upper, lower_how, upper_how)
     if right_index == -1:
-        return np.array([self.initial_value])
+        values = np.array([self.initial_value])
+        return values[~np.isnan(values)]
     values = self._get_values().iloc[max(0, left_index) : right_index]
     if left_index < 0 and not np.isnan(self.initial_value):
         values = np.append([self.initial_value], values)
-- 
2.43.0


From 7b90dc704c4948b26f19d81539f5e938c6fb17ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 25/47] fix: cov and corr always raise for functions with
 different closed sides

---
 staircase/core/stats/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 55deac0..4ff1a83 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -6,6 +6,7 @@ from pandas.api.types import is_list_like
 
 import staircase as sc
 from staircase.constants import inf
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
@@ -204,6 +205,7 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.corr, staircase.cov, staircase.corr
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
@@ -252,6 +254,7 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.cov, staircase.corr, staircase.cov
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
-- 
2.43.0


From bf635ea9228506a6ab61c0f1b55253a3358e5406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 26/47] fix: Series with repeated labels as a collection of
 functions

---
 staircase/core/arrays/extension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d1d7bcb..a31883e 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -70,6 +70,8 @@ class StairsArray(ExtensionArray):
                     "'data' should be a 1-dimensional array of Stairs objects."
                 )
             self.data = data
+        elif isinstance(data, pd.Series):
+            self.data = np.array(list(data), ndmin=1)
         elif is_dict_like(data):
             self.data = np.array([data[k] for k in data.keys()])
         elif isinstance(data, Stairs) or is_list_like(data):
-- 
2.43.0


From b721be3b4683e3c673a6442dce63c30111b674e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 27/47] fix: StairsArray operators accept numpy scalars, lists
 and arrays

---
 staircase/core/arrays/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index a31883e..08ec25f 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -246,13 +246,13 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
-        if isinstance(other, (int, float, Stairs)):
+        if isinstance(other, (numbers.Real, Stairs)):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
                 return ValueError("Arrays have different lengths.")
             result = StairsArray(
-                [stairs_func(s1, s2) for s1, s2 in zip(self.data, other.data)]
+                [stairs_func(s1, s2) for s1, s2 in zip(self.data, StairsArray(other).data)]
             )
         else:
             return NotImplemented
-- 
2.43.0


From 7c7739cb22c090a6926d2eadac9a2194f1b8e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 28/47] fix: correlation of a constant function with itself is
 undefined in matrices

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 08ec25f..eb737fa 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -307,7 +307,7 @@ def _make_corr_cov_func(
 
 
 StairsArray.corr = _make_corr_cov_func(
-    docstrings.make_docstring("array", "corr"), _corr, assume_ones_diagonal=True
+    docstrings.make_docstring("array", "corr"), _corr, assume_ones_diagonal=False
 )
 StairsArray.cov = _make_corr_cov_func(
     docstrings.make_docstring("array", "cov"), _cov, assume_ones_diagonal=False
-- 
2.43.0


From eb971531ef06e70a46b369ab86b4de59db9de792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 29/47] fix: ecdf, fractile and percentile return copies of the
 cached functions

---
 staircase/core/stairs.py             | 8 ++++----
 staircase/core/stats/distribution.py | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 96f07b8..13fe331 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -202,7 +202,7 @@ class Stairs:
         Stairs.percentile
         Stairs.fractile
         """
-        return self.dist.ecdf
+        return self.dist.ecdf.copy()
 
     @property
     def fractile(self):
@@ -248,7 +248,7 @@ class Stairs:
         >>> sf.percentile([0.25, 0.5, 0.75])
         array([2., 3., 4.])
         """
-        return self.dist.fractile
+        return self.dist.fractile.copy()
 
     @property
     def percentile(self):
@@ -294,7 +294,7 @@ class Stairs:
         >>> sf.percentile([25,50,75])
         array([2., 3., 4.])
         """
-        return self.dist.percentile
+        return self.dist.percentile.copy()
 
     @Appender(stats.docstrings.hist_example, join="\n", indents=2)
     def hist(self, bins="unit", closed="left", stat="sum"):
@@ -550,7 +550,7 @@ class Stairs:
         -------
         :class:`Stairs`
         """
-        new_instance = Stairs._new(
+        new_instance = self.__class__._new(
             initial_value=self.initial_value,
             data=self._data.copy() if self._data is not None else None,
             closed=self.closed,
diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index eb3e05f..97516b9 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -65,6 +65,11 @@ class ECDF(sc.core.stairs.Stairs):
         ecdf._denormalize_probability_factor = deltas_sum
         return ecdf
 
+    def copy(self):
+        ecdf = super().copy()
+        ecdf._denormalize_probability_factor = self._denormalize_probability_factor
+        return ecdf
+
     def hist(self, bins="unit", closed="left", stat="sum"):
 
         step_points = self.step_points
-- 
2.43.0


From eacbad74b147b4df62fb1edb4c87ff418d42b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 30/47] fix: comparison operators with a numpy scalar on the
 left

---
 staircase/core/stairs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 13fe331..25aceb9 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -57,6 +57,9 @@ class Stairs:
 
     class_name = "Stairs"
 
+    # numpy scalars, but not arrays, on the left of an operator defer to Stairs
+    __array_priority__ = -1
+
     @Appender(docstrings.Stairs_docstring, join="\n", indents=2)
     def __init__(
         self,
-- 
2.43.0


From 843a269b856f1d09035799339107e65f3ca661a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 31/47] fix: aggregation of step-free functions and of
 functions with different closed sides

---
 staircase/core/arrays/extension.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index eb737fa..9cb1b23 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -16,6 +16,7 @@ from pandas.core.dtypes.inference import is_dict_like, is_list_like
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.stairs import Stairs
 from staircase.core.stats.statistic import corr as _corr
 from staircase.core.stats.statistic import cov as _cov
@@ -165,12 +166,21 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
+        with_steps = [sf for sf in self.data if sf.number_of_steps]
+        for sf in with_steps:
+            _assert_closeds_equal(with_steps[0], sf)
+        if not with_steps:
+            return Stairs._new(
+                initial_value=func([s.initial_value for s in self.data], axis=0) * 1,
+                data=None,
+                closed=self.data[0].closed,
+            )
         index = pd.Index(
             np.unique(
                 np.concatenate(
                     [
                         s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
-                        for s in (sf for sf in self.data if sf.number_of_steps)
+                        for s in with_steps
                     ]
                 )
             )
@@ -180,13 +190,13 @@ class StairsArray(ExtensionArray):
             new_values = new_values.astype(int)
 
         return Stairs._new(
-            initial_value=func([s.initial_value for s in self.data]),
+            initial_value=func([s.initial_value for s in self.data], axis=0) * 1,
             data=pd.Series(
                 new_values,
                 index=index,
                 name="value",
             ).to_frame(),
-            closed=self.data[0].closed,
+            closed=with_steps[0].closed,
         )._remove_redundant_step_points()
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
-- 
2.43.0


From d9afa41393808fc29052395a48b41b167c212cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 32/47] fix: slicer min and max ignore points where the
 function is undefined

---
 staircase/core/slicing.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index f2eee8a..0b0c0fd 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -51,12 +51,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.right))
+            result = np.fmax(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.left))
+            result = np.fmax(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings._docstrings["min"], join="\n", indents=1)
@@ -66,12 +66,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.right))
+            result = np.fmin(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.left))
+            result = np.fmin(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
@@ -106,10 +106,15 @@ def make_slice_method(method_name: str) -> Callable:
     func = _get_stairs_method(method_name)
     docstring = docstrings._docstrings.get(method_name, "")
 
+    def nan_if_undefined(stairs):
+        return np.nan if stairs._data is None else func(stairs)
+
     @Appender(docstring, join="\n", indents=1)
     def method(self):
         self._ensure_slices()
-        return self._slices.map(func)
+        return self._slices.map(
+            nan_if_undefined if method_name in ("_max", "_min") else func
+        )
 
     return method
 
-- 
2.43.0


From 5fff0357fd486ad50d7c04ddc204a9b18c09a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 33/47] fix: slicer hist of a step-free function

---
 staircase/core/slicing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 0b0c0fd..8d59d3f 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -77,9 +77,8 @@ class StairsSlicer:
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
         self._ensure_slices()
-        zero = (
-            self._stairs._data.index[0] - self._stairs._data.index[0]
-        )  # hack to get 0 or pd.Timedelta(0)
+        left = self._interval_index.left
+        zero = left[0] - left[0]  # hack to get 0 or pd.Timedelta(0)
         return self._slices.apply(sc.Stairs.hist, *args, **kwargs).fillna(zero)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
-- 
2.43.0


From 7072da6ea8f8419e7c6aba5f46f3dffae659a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 34/47] fix: limit and sample of an empty vector

---
 staircase/core/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index 2b82e25..efaad3f 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -88,7 +88,7 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     amended_values = np.append(
         self._get_values().values, [self.initial_value]
     )  # hack for -1 index value
-    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
+    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x), None)):
         x = pd.Series(x).values  # faster, but also bug free in numpy
     elif _is_datetime_like(x):
         x = pd.Series([x]).values[0]
-- 
2.43.0


From 57d9f4c931470cb4d65eafb957d8a9b3df7a07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 35/47] fix: step changes are computed before layer changes the
 initial value

---
 staircase/core/layering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index b90aba8..e54ca37 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -195,12 +195,13 @@ def layer(self, start=None, end=None, value=None, frame=None):
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
     start_series = pd.Series(value, index=df.iloc[:, 0])
+    existing_deltas = self._get_deltas()  # relative to the current initial value
     self.initial_value += start_series[start_series.index.isna()].sum()
     end_series = pd.Series(-value, index=df.iloc[:, 1])
     to_concat = [
         start_series[start_series.index.notna()],
         end_series[end_series.index.notna()],
-        self._get_deltas(),
+        existing_deltas,
     ]
     # empty series are excluded as the dtype of their index may not be that of the domain
     to_concat = [series for series in to_concat if len(series)]
-- 
2.43.0


From 338092614c7e85410db5e79a8d501c32933ddaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 36/47] fix: min and max where nothing is defined are NaN

---
 staircase/core/slicing.py         | 7 +------
 staircase/core/stats/statistic.py | 6 ++++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 8d59d3f..cc8748b 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -105,15 +105,10 @@ def make_slice_method(method_name: str) -> Callable:
     func = _get_stairs_method(method_name)
     docstring = docstrings._docstrings.get(method_name, "")
 
-    def nan_if_undefined(stairs):
-        return np.nan if stairs._data is None else func(stairs)
-
     @Appender(docstring, join="\n", indents=1)
     def method(self):
         self._ensure_slices()
-        return self._slices.map(
-            nan_if_undefined if method_name in ("_max", "_min") else func
-        )
+        return self._slices.map(func)
 
     return method
 
diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 4ff1a83..63e300d 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -137,7 +137,8 @@ def _min(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return min(self.values_in_range(where, closed))
+    values = self.values_in_range(where, closed)
+    return min(values) if len(values) else np.nan
 
 
 def _max(
@@ -148,7 +149,8 @@ def _max(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return max(self.values_in_range(where, closed))
+    values = self.values_in_range(where, closed)
+    return max(values) if len(values) else np.nan
 
 
 @Appender(docstrings.agg_docstring, join="\n", indents=1)
-- 
2.43.0


From 49f5a1ea8b8ca38d22ba4ca6d5ad0bdb5194caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 37/47] fix: clip with bounds which are a mix of numpy and
 python datetime-like scalars

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 0c6e4a3..07462b9 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -35,7 +35,8 @@ def _get_slice_index(self, lower, upper, lower_how, upper_how):
 @convert_string_args_to_timestamp
 def clip(self, lower=-inf, upper=inf):
     lower, upper = _replace_none_with_infs((lower, upper))
-    if not lower < upper:
+    # .values allows comparison between python, numpy and pandas datetime-like scalars
+    if not pd.Series([lower]).values[0] < pd.Series([upper]).values[0]:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
         return self.copy()
-- 
2.43.0


From 6f8e3932f0b3b18320732ef8cc82f0753e6ee7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 38/47] fix: density histogram with non-integer bins on
 datetime-like domains

---
 staircase/core/stats/distribution.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index 97516b9..d501888 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -88,14 +88,15 @@ class ECDF(sc.core.stairs.Stairs):
         )
 
         # inspired by seaborn.histplot
-        if stat != "probability":
+        if stat in ("frequency", "density"):
+            widths = bins.map(lambda i: i.right - i.left)
+        if stat == "density":
+            # dimensionless, the denormalizing factor cancels
+            values = values / np.dot(values, widths)
+        elif stat != "probability":
             values = values * self._denormalize_probability_factor
-            if stat in ("frequency", "density"):
-                widths = bins.map(lambda i: i.right - i.left)
-                if stat == "frequency":
-                    values = values / widths
-                elif stat == "density":
-                    values = values / np.dot(values, widths)
+            if stat == "frequency":
+                values = values / widths
 
         return pd.Series(
             data=values,
-- 
2.43.0


From 4578b4ae2ce6808d24dc822c2fe127e71351808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 39/47] fix: layered and initial values of small or unsigned
 numpy types

---
 staircase/core/layering.py | 4 +++-
 staircase/core/stairs.py   | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index e54ca37..8b94a97 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -104,6 +104,8 @@ def _layer_scalar(self, start, end, value):
     if start is not None and end is not None and start == end:
         return self
 
+    value = value.item() if isinstance(value, np.generic) else value
+
     if self._data is None:
         deltas = pd.Series(name="delta", dtype="float64")
     else:
@@ -188,7 +190,7 @@ def layer(self, start=None, end=None, value=None, frame=None):
         return _layer_partly_undefined(self, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
-    value = np.array(value)
+    value = np.array(value, dtype="float64")
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
     start = _convert_to_series(start)
     end = _convert_to_series(end)
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 25aceb9..b1c76a0 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -76,7 +76,12 @@ class Stairs:
         self._valid_values = False
         self._masked = False
         self._closed = closed
-        self.initial_value = initial_value
+        # small numpy types overflow, or lose precision, in calculations
+        self.initial_value = (
+            initial_value.item()
+            if isinstance(initial_value, np.generic)
+            else initial_value
+        )
         self._clear_cache()
 
         if any([x is not None for x in (start, end, value)]):
-- 
2.43.0


From bc1768b823c2b15770859f69f7b0c7d75a87beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 40/47] fix: values and fillers of small numpy types in
 from_values and fillna

---
 staircase/core/ops/masking.py | 1 +
 staircase/core/stairs.py      | 5 ++---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 07462b9..27551e7 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -229,6 +229,7 @@ def fillna(self, value):
     if isinstance(value, str):
         initial_value, data = _make_data_fillna_method(self, value)
     else:
+        value = value.item() if isinstance(value, np.generic) else value
         initial_value, data = _make_data_fillna_scalar(self, value)
 
     new_instance = sc.Stairs._new(
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index b1c76a0..7754359 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -149,9 +149,8 @@ class Stairs:
             values = values.replace([np.inf, -np.inf], np.nan)
             warnings.warn("Infinity values detected and have been converted to NaN")
 
-        new_instance = cls(closed=closed)
-        new_instance.initial_value = initial_value
-        new_instance._data = values.copy().to_frame("value")
+        new_instance = cls(initial_value=initial_value, closed=closed)
+        new_instance._data = values.astype("float64").to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance._remove_redundant_step_points()
-- 
2.43.0


From 6223d4ad314d76db372947579d3882102ccf2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 41/47] fix: closed side of a step-free function filled with
 one which has steps

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 27551e7..e4e78ca 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -216,7 +216,9 @@ def _make_data_fillna_scalar(self, value):
 def _fillna_with_stairs(self, value):
     # value is Stairs
     result = self.fillna(0) + value.fillna(0) * self.isna()
-    return result.mask(self.isna() & value.isna())
+    result = result.mask(self.isna() & value.isna())
+    result._closed = value.closed if self._data is None else self.closed
+    return result
 
 
 # TODO: test
-- 
2.43.0


From 534926586cd3779e44aa27dbca6691824bedcadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 42/47] fix: boolean initial values and fillers

---
 staircase/core/ops/masking.py |  2 +-
 staircase/core/stairs.py      | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index e4e78ca..9d14136 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -231,7 +231,7 @@ def fillna(self, value):
     if isinstance(value, str):
         initial_value, data = _make_data_fillna_method(self, value)
     else:
-        value = value.item() if isinstance(value, np.generic) else value
+        value = float(value) if isinstance(value, (bool, np.generic)) else value
         initial_value, data = _make_data_fillna_scalar(self, value)
 
     new_instance = sc.Stairs._new(
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 7754359..4c971d1 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -77,11 +77,12 @@ class Stairs:
         self._masked = False
         self._closed = closed
         # small numpy types overflow, or lose precision, in calculations
-        self.initial_value = (
-            initial_value.item()
-            if isinstance(initial_value, np.generic)
-            else initial_value
-        )
+        if isinstance(initial_value, np.generic):
+            initial_value = initial_value.item()
+        # arithmetic on booleans is logical, rather than numerical
+        if isinstance(initial_value, bool):
+            initial_value = int(initial_value)
+        self.initial_value = initial_value
         self._clear_cache()
 
         if any([x is not None for x in (start, end, value)]):
-- 
2.43.0


From 2bf45854b28171e9ee839cc909914773309cba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 43/47] fix: integral which overflowed is None in later queries

---
 staircase/core/stats/statistic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 63e300d..e3e8d4b 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -43,9 +43,12 @@ def integral(self):
         try:
             _cache_integral_and_mean(self)
         except (OverflowError, ValueError):
-            raise OverflowError(
-                "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
-            )
+            pass
+    # an integral which overflowed, in this or an earlier query, is cached as None
+    if self._integral_and_mean[0] is None:
+        raise OverflowError(
+            "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
+        )
     return self._integral_and_mean[0]
 
 
@@ -54,7 +57,7 @@ def mean(self):
     if self._integral_and_mean is None:
         try:
             _cache_integral_and_mean(self)
-        except OverflowError:
+        except (OverflowError, ValueError):
             pass
     return self._integral_and_mean[1]
 
-- 
2.43.0


From cf95c221c2980d558d600c34cac2e62ddcd904b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 44/47] fix: closed side of a step-free function filled with a
 step-free one

---
 staircase/core/ops/masking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9d14136..f431d59 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -217,7 +217,10 @@ def _fillna_with_stairs(self, value):
     # value is Stairs
     result = self.fillna(0) + value.fillna(0) * self.isna()
     result = result.mask(self.isna() & value.isna())
-    result._closed = value.closed if self._data is None else self.closed
+    if self.number_of_steps == 0 and value.number_of_steps > 0:
+        result._closed = value.closed
+    else:
+        result._closed = self.closed
     return result
 
 
-- 
2.43.0


From e3adb0a1673d86b49c028e532c73291b1613d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:04 +0000
Subject: [PATCH 45/47] fix: mean and integral over datetime-like domains where
 no finite piece is defined

---
 staircase/core/stats/statistic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index e3e8d4b..10246d7 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -20,6 +20,10 @@ def _cache_integral_and_mean(self):
     else:
         value_sums = self.value_sums(group=False)
         value_sums = value_sums[value_sums.index.notnull()]
+        if len(value_sums) == 0:
+            # no finite interval with a defined value: an empty sum of lengths
+            self._integral_and_mean = value_sums.sum(), np.nan
+            return
         try:
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From 500b73cb0631a3c6b1a4f25403847f2319b59c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 46/47] fix: slicer hist fills absent bins of probabilities and
 densities with a number

On date domains the absent bins of any stat were filled with Timedelta(0).
---
 staircase/core/slicing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index cc8748b..ffad881 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -4,7 +4,7 @@ from typing import Callable
 
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_list_like
+from pandas.api.types import is_list_like, is_timedelta64_dtype
 from typing_extensions import Literal
 
 import staircase as sc
@@ -77,9 +77,10 @@ class StairsSlicer:
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
         self._ensure_slices()
-        left = self._interval_index.left
-        zero = left[0] - left[0]  # hack to get 0 or pd.Timedelta(0)
-        return self._slices.apply(sc.Stairs.hist, *args, **kwargs).fillna(zero)
+        result = self._slices.apply(sc.Stairs.hist, *args, **kwargs)
+        # lengths are timedeltas on date domains, probabilities and densities are not
+        timedeltas = any(is_timedelta64_dtype(dtype) for dtype in result.dtypes)
+        return result.fillna(pd.Timedelta(0) if timedeltas else 0)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
     def resample(self, func: str):
-- 
2.43.0


From aee4001e6f129e6c8cd4ad72e711c5e5762bff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:47 +0000
Subject: [PATCH 47/47] fix: step points of a coarser datetime unit are
 converted to nanoseconds

With pandas 2 a vector of datetime64[s] gave step points which rounded the
finer ones they were combined with, and a function which was not identical
to the same function built from nanoseconds.
---
 staircase/core/layering.py |  3 ++-
 staircase/core/stairs.py   |  3 ++-
 staircase/util/__init__.py | 23 +++++++++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 8b94a97..7124b04 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -16,6 +16,7 @@ from pandas.api.types import (
 
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
+from staircase.util import _with_nanosecond_unit
 from staircase.util._decorators import Appender
 
 
@@ -70,7 +71,7 @@ def _convert_to_series(vec: Any) -> pd.Series:
             vec = pd.Series(vec)
     else:
         vec = vec.reset_index(drop=True)
-    return vec
+    return _with_nanosecond_unit(vec)
 
 
 def _preprocess_layer_args(frame, start, end, value):
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 4c971d1..3ac1ad7 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -28,7 +28,7 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs
+from staircase.util import _replace_none_with_infs, _with_nanosecond_unit
 from staircase.util._decorators import Appender
 
 
@@ -152,6 +152,7 @@ class Stairs:
 
         new_instance = cls(initial_value=initial_value, closed=closed)
         new_instance._data = values.astype("float64").to_frame("value")
+        new_instance._data.index = _with_nanosecond_unit(values.index)
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance._remove_redundant_step_points()
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index d766743..8c85e5c 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -22,6 +22,29 @@ def _is_datetime_like(x):
     )
 
 
+def _with_nanosecond_unit(vec):
+    """
+    Converts datetimes and timedeltas of a coarser unit, which would round others when combined.
+
+    Parameters
+    ----------
+    vec : pandas.Series or pandas.Index
+
+    Returns
+    -------
+    pandas.Series or pandas.Index
+    """
+    if vec.dtype.kind not in "mM":
+        return vec
+    values = vec.dt if isinstance(vec, pd.Series) else vec
+    if getattr(values, "unit", "ns") == "ns":
+        return vec
+    try:
+        return values.as_unit("ns")
+    except ValueError:  # out of bounds for nanoseconds
+        return vec
+
+
 def _sanitize_binary_operands(self, other, copy_other=False):
     if not isinstance(self, sc.Stairs):
         self = sc.Stairs(initial_value=self, closed=other.closed)
-- 
2.43.0

