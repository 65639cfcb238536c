From 9cb0a88cf5c59f4ebc269aaec4258e04d665d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 01/32] fix: hsl to rgb conversion for hues between 240 and 300
 degrees

---
 src/colosseum/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 37a1ec8..789c4e6 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -47,7 +47,7 @@ class hsl(Color):
         elif h < 4.0:
             r, g, b = m, x + m, c + m
         elif h < 5.0:
-            r, g, b = m, x + m, c + m
+            r, g, b = x + m, m, c + m
         else:
             r, g, b = c + m, m, x + m
 
-- 
2.43.0


From 0ffdb6a269b9d036feb28226f3a38ffae9618def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 02/32] fix: normalise hsl hues outside 0-360 degrees before
 converting to rgb

---
 src/colosseum/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 789c4e6..723cf33 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -34,7 +34,7 @@ class hsl(Color):
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-        h = self.h / 60.0
+        h = (self.h % 360) / 60.0
         x = c * (1.0 - abs(h % 2 - 1.0))
         m = self.l - 0.5 * c
 
-- 
2.43.0


From c2424c57e87e4b3f0ea9d7fa91755335fb4e3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 03/32] fix: an empty color string is an invalid color, not an
 IndexError

---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 574b6ae..6273520 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -59,7 +59,7 @@ def color(value):
         return value
 
     elif isinstance(value, str):
-        if value[0] == "#":
+        if value.startswith("#"):
             return pound_sign_color(value)
         elif value.startswith("rgba"):
             try:
-- 
2.43.0


From 8750567e5b9bb043e7ed72cc04b902339cd062a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 04/32] fix: reject hex colors containing anything but hex
 digits

---
 src/colosseum/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 6273520..44ce5ea 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,5 +1,6 @@
 from ast import literal_eval
 from collections.abc import Sequence
+from string import hexdigits
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -120,6 +121,8 @@ def pound_sign_color(value):
     * '#RRGGBB'
     * '#RRGGBBAA'
     """
+    if not all(digit in hexdigits for digit in value[1:]):
+        raise ValueError(f"Unknown color {value}")
 
     if len(value) == 4:
         return rgb(
-- 
2.43.0


From 228e2a2e7c10208810a817c2d9484ab88e719dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 05/32] fix: functional colors must have the form name(...)

---
 src/colosseum/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 44ce5ea..ba26ecc 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -62,7 +62,7 @@ def color(value):
     elif isinstance(value, str):
         if value.startswith("#"):
             return pound_sign_color(value)
-        elif value.startswith("rgba"):
+        elif value.startswith("rgba(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -71,7 +71,7 @@ def color(value):
                     )
             except ValueError:
                 pass
-        elif value.startswith("rgb"):
+        elif value.startswith("rgb(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -79,7 +79,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsla"):
+        elif value.startswith("hsla(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -92,7 +92,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsl"):
+        elif value.startswith("hsl(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
-- 
2.43.0


From ac4de5c696f0083d151c436b4fcbb664c0bf086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 06/32] fix: creating a unit value no longer grows the list of
 known units

---
 src/colosseum/units.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/units.py b/src/colosseum/units.py
index 6c392a5..02fccdd 100644
--- a/src/colosseum/units.py
+++ b/src/colosseum/units.py
@@ -28,7 +28,6 @@ class BaseUnit:
     UNITS = []
 
     def __init__(self, suffix, val=None):
-        BaseUnit.UNITS.append((suffix, self))
         self.suffix = suffix
         self.val = val if val is not None else 1
 
@@ -187,3 +186,12 @@ deg = AngleUnit("deg", 1)
 grad = AngleUnit("grad", 0.9)
 rad = AngleUnit("rad", 180 / math.pi)
 turn = AngleUnit("turn", 360)
+
+# Only the base units are known by their suffix.
+BaseUnit.UNITS.extend(
+    (unit.suffix, unit)
+    for unit in (
+        *(px, em, ex, ch, pt, pc, inch, cm, mm, vh, vmax, vmin, vw, percent),
+        *(deg, grad, rad, turn),
+    )
+)
-- 
2.43.0


From 7a57ac4812ac28540f47581d5ad9af9146d87c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 07/32] fix: an angle is not a length

---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index ba26ecc..376d133 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -25,7 +25,7 @@ def units(value):
         return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
-            if value.endswith(suffix):
+            if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
                     return float(value[: -len(suffix)]) * unit
                 except ValueError:
-- 
2.43.0


From e1d8323222eb5f086bd5cd187cc157dbce03cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:07 +0000
Subject: [PATCH 08/32] fix: a length must be a finite number

---
 src/colosseum/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 376d133..eeb5da5 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,5 +1,6 @@
 from ast import literal_eval
 from collections.abc import Sequence
+from math import isfinite
 from string import hexdigits
 
 from .colors import NAMED_COLOR, hsl, rgb
@@ -22,17 +23,22 @@ def units(value):
     if isinstance(value, Unit):
         return value
     elif isinstance(value, (int, float)):
-        return value * px
+        if isinstance(value, int) or isfinite(value):
+            return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
             if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
-                    return float(value[: -len(suffix)]) * unit
+                    number = float(value[: -len(suffix)])
+                    if isfinite(number):
+                        return number * unit
                 except ValueError:
                     pass
 
         try:
-            return float(value) * px
+            number = float(value)
+            if isfinite(number):
+                return number * px
         except ValueError:
             pass
 
-- 
2.43.0


From 9342178a461b6d73c31b4efcf3a3f8f634f46a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:07 +0000
Subject: [PATCH 09/32] fix: infinity is not a valid integer, rather than an
 OverflowError

---
 src/colosseum/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 8b49a98..a1bd4bb 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -11,7 +11,7 @@ from .exceptions import ValidationError
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
     try:
         num_value = numeric_type(num_value)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
-- 
2.43.0


From dd95340fa04985eec092cf308f6f160ba63078f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:35 +0000
Subject: [PATCH 10/32] fix: a flat sequence of quotes may hold strings of any
 length

---
 src/colosseum/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index eeb5da5..662bc20 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -225,7 +225,12 @@ def quotes(value):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
-        values = [repr(item) for sublist in value for item in sublist]
+        values = []
+        for item in value:
+            if isinstance(item, Sequence) and not isinstance(item, str):
+                values.extend(repr(quote) for quote in item)
+            else:
+                values.append(repr(item))
     else:
         raise ValueError(f"Unknown quote {value}")
 
-- 
2.43.0


From 8983a6abf9e8dbf5770b5e5803778e576c403ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:35 +0000
Subject: [PATCH 11/32] fix: quotes must be strings

---
 src/colosseum/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 662bc20..0e01c80 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -247,10 +247,13 @@ def quotes(value):
                 closing = literal_eval(closing)
                 parsed_values.append((opening, closing))
 
+                if not isinstance(opening, str) or not isinstance(closing, str):
+                    raise ValueError(f"Invalid quotes {value}")
+
                 if len(opening) == 0 or len(closing) == 0:
                     raise ValueError(f"Invalid quotes {value}")
 
-            except SyntaxError:
+            except (SyntaxError, TypeError):
                 raise ValueError(f"Invalid quotes {value}")
 
         return Quotes(parsed_values)
-- 
2.43.0


From 56bee2b9ed004936247458fbe69ff65ab53f0f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:35 +0000
Subject: [PATCH 12/32] fix: values of an unexpected type are invalid, for
 clip, border-spacing and cursor

---
 src/colosseum/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 0e01c80..d34144e 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -172,10 +172,10 @@ def border_spacing(value):
     """
     if isinstance(value, Sequence) and not isinstance(value, str):
         values = value
-    elif isinstance(value, (int, float)):
-        values = (value,)
-    else:
+    elif isinstance(value, str):
         values = [x.strip() for x in value.split()]
+    else:
+        values = (value,)
 
     if len(values) == 1:
         horizontal = units(values[0])
@@ -190,6 +190,9 @@ def border_spacing(value):
 
 def rect(value):
     """Parse a given rect shape."""
+    if not isinstance(value, str):
+        raise ValueError(f"Unknown shape {value}")
+
     value = " ".join(val.strip() for val in value.split())
     if (
         value.startswith("rect(")
@@ -463,6 +466,8 @@ def cursor(values):
 
     if isinstance(values, str):
         values = [val.strip() for val in values.split(",")]
+    elif not isinstance(values, Sequence):
+        raise ValueError(f"Value {values} is not a valid cursor value")
 
     validated_values = []
     has_cursor_option = False
-- 
2.43.0


From 3f1c6aee12f0df951fe33022e721190058d19ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:35 +0000
Subject: [PATCH 13/32] fix: a parsed clip, quotes, border-spacing or cursor
 value can be assigned and copied

---
 src/colosseum/parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index d34144e..af26808 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -170,7 +170,9 @@ def border_spacing(value):
     * A float (interpreted as pixels).
     * A string with of 1 or 2 length items separated by spaces.
     """
-    if isinstance(value, Sequence) and not isinstance(value, str):
+    if isinstance(value, BorderSpacing):
+        return value
+    elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
     elif isinstance(value, str):
         values = [x.strip() for x in value.split()]
@@ -190,6 +192,9 @@ def border_spacing(value):
 
 def rect(value):
     """Parse a given rect shape."""
+    if isinstance(value, Rect):
+        return value
+
     if not isinstance(value, str):
         raise ValueError(f"Unknown shape {value}")
 
@@ -224,7 +229,9 @@ def quotes(value):
     * A sequence: ('<', '>') or ['{', '}']
     * A list of 2 item tuples: [('<', '>'), ('{', '}')]
     """
-    if isinstance(value, str):
+    if isinstance(value, Quotes):
+        return value
+    elif isinstance(value, str):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
@@ -434,7 +441,9 @@ def uri(value):
     * url(<url>)
     * url(  <url>  )
     """
-    if isinstance(value, str):
+    if isinstance(value, Uri):
+        return value
+    elif isinstance(value, str):
         value = value.strip()
     else:
         raise ValueError("Value {value} must be a string")
-- 
2.43.0


From 3fa461efa3de27145274def7bd5eaaf0447f6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 14/32] fix: an invalid margin, padding or border tuple leaves
 the declaration unchanged

---
 src/colosseum/declaration.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3c3e13e..d218848 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -262,6 +262,18 @@ def directional_property(name, initial):
             setattr(self, name % "_bottom", value)
             setattr(self, name % "_left", value)
 
+    def atomic_setter(self, value):
+        # Set all four sides; or, if any value is invalid, none of them.
+        stored = [f"_{name % side}" for side in ("_top", "_right", "_bottom", "_left")]
+        old = {attr: vars(self)[attr] for attr in stored if attr in vars(self)}
+        try:
+            setter(self, value)
+        except ValueError:
+            for attr in stored:
+                vars(self).pop(attr, None)
+            vars(self).update(old)
+            raise
+
     def deleter(self):
         delattr(self, name % "_top")
         delattr(self, name % "_right")
@@ -273,7 +285,7 @@ def directional_property(name, initial):
     _CSS_PROPERTIES.add(name % "_right")
     _CSS_PROPERTIES.add(name % "_bottom")
     _CSS_PROPERTIES.add(name % "_left")
-    return property(getter, setter, deleter)
+    return property(getter, atomic_setter, deleter)
 
 
 class CSS:
-- 
2.43.0


From b01213cf3f975c06249a76ed86d68d1385f85081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 15/32] fix: immutable lists cannot be changed by del, clear,
 += or *=

---
 src/colosseum/wrappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index ee82a21..b6bae2c 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -194,6 +194,15 @@ class ImmutableList(list):
     def __setitem__(self, index, value):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def __delitem__(self, index):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __iadd__(self, iterable):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __imul__(self, count):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def __hash__(self):
         return hash((self.__class__.__name__, tuple(self)))
 
@@ -213,6 +222,9 @@ class ImmutableList(list):
         return self.__class__(self)
 
     # Disable mutating methods
+    def clear(self):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
-- 
2.43.0


From 6c4c63616ec911f71ef905af2417b6e220059c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 16/32] fix: the style and size of a node without a layout box
 can be changed

---
 src/colosseum/declaration.py | 4 ++--
 src/colosseum/dimensions.py  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index d218848..0b3f440 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -680,12 +680,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node:
+        if self._node and self._node.layout:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node:
+        if self._node and self._node.layout:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 2a083d3..8296818 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -25,11 +25,13 @@ class Size:
 
     @property
     def dirty(self):
-        return self._node.layout.dirty
+        if self._node.layout:
+            return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        self._node.layout.dirty = value
+        if self._node.layout:
+            self._node.layout.dirty = value
 
     @property
     def width(self):
-- 
2.43.0


From 91dcf9f5e67a4cfd0f18d884d6b871008eafb70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 17/32] fix: fractional margins collapse like whole ones

---
 src/colosseum/dimensions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 8296818..631aed2 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -338,7 +338,7 @@ class Box:
 
     @collapse_top.setter
     def collapse_top(self, value):
-        if isinstance(value, int) and value > self._collapse_top:
+        if isinstance(value, (int, float)) and value > self._collapse_top:
             self._collapse_top = value
 
     @property
@@ -347,7 +347,7 @@ class Box:
 
     @collapse_right.setter
     def collapse_right(self, value):
-        if isinstance(value, int) and value > self._collapse_right:
+        if isinstance(value, (int, float)) and value > self._collapse_right:
             self._collapse_right = value
 
     @property
@@ -356,7 +356,7 @@ class Box:
 
     @collapse_bottom.setter
     def collapse_bottom(self, value):
-        if isinstance(value, int) and value > self._collapse_bottom:
+        if isinstance(value, (int, float)) and value > self._collapse_bottom:
             self._collapse_bottom = value
 
     @property
@@ -365,7 +365,7 @@ class Box:
 
     @collapse_left.setter
     def collapse_left(self, value):
-        if isinstance(value, int) and value > self._collapse_left:
+        if isinstance(value, (int, float)) and value > self._collapse_left:
             self._collapse_left = value
 
     ######################################################################
-- 
2.43.0


From 95ebff6a08a573f052be4e5bbd8692a08b470740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:46 +0000
Subject: [PATCH 18/32] fix: auto vertical margins of inline non-replaced
 elements are zero

---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e62cfb7..2ca29a7 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -624,6 +624,12 @@ def calculate_height_and_margins(node, context):
 
 def calculate_inline_non_replaced_height(node, context):
     "Implements S10.6.1"
+    if node.layout.margin_top is AUTO:
+        node.layout.margin_top = 0
+
+    if node.layout.margin_bottom is AUTO:
+        node.layout.margin_bottom = 0
+
     node.layout.content_height = node.intrinsic.height
     node.layout.content_top += (
         node.layout.margin_top + node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From c49c77dfe9e0d7b8698de23cfd49e7521d929b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:07 +0000
Subject: [PATCH 19/32] fix: left and right padding percentages refer to the
 width of the containing block

---
 src/colosseum/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 2ca29a7..b63a6a9 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -203,9 +203,9 @@ def layout_box(display, node, containing_block, viewport, font):
     )
 
     node.layout.padding_top = calculate_size(node.style.padding_top, horizontal)
-    node.layout.padding_right = calculate_size(node.style.padding_right, vertical)
+    node.layout.padding_right = calculate_size(node.style.padding_right, horizontal)
     node.layout.padding_bottom = calculate_size(node.style.padding_bottom, horizontal)
-    node.layout.padding_left = calculate_size(node.style.padding_left, vertical)
+    node.layout.padding_left = calculate_size(node.style.padding_left, horizontal)
 
     # print("NODE", node)
 
-- 
2.43.0


From b78df3a41c5abc3192fe1f32208c137e3b39cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:47 +0000
Subject: [PATCH 20/32] fix: top and bottom margin percentages refer to the
 width of the containing block

---
 src/colosseum/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index b63a6a9..1f43828 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -184,9 +184,9 @@ def layout_box(display, node, containing_block, viewport, font):
         "font": font,
         "size": containing_block.layout.content_height,
     }
-    node.layout.margin_top = calculate_size(node.style.margin_top, vertical)
+    node.layout.margin_top = calculate_size(node.style.margin_top, horizontal)
     node.layout.margin_right = calculate_size(node.style.margin_right, horizontal)
-    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, vertical)
+    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, horizontal)
     node.layout.margin_left = calculate_size(node.style.margin_left, horizontal)
 
     node.layout.border_top_width = calculate_size(
-- 
2.43.0


From 88c3194a29a70d0448df31d7f55354d4e9f2aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 21/32] fix: lay out trees with elements that are not displayed

---
 src/colosseum/dimensions.py |  5 +++--
 src/colosseum/engine.py     | 20 +++++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 631aed2..18d56c1 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -235,8 +235,9 @@ class Box:
     def reset(self):
         self._reset()
         for child in self.node.children:
-            if child.layout:
-                child.layout.reset()
+            if child.layout is None:
+                child.layout = Box(child)
+            child.layout.reset()
 
     ######################################################################
     # Origin handling
diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 1f43828..e8ccab3 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -108,11 +108,17 @@ def layout(display, node, standard=HTML5):
     containing_block = Viewport(display, node)
     font = DummyFont(-1)  # FIXME: default font
 
+    if node.layout is None:
+        node.layout = Box(node)
     node.layout.reset()
 
     # 10.1 1
     layout_box(display, node, containing_block, containing_block, font)
 
+    # The root element isn't displayed, so there is nothing to position.
+    if node.layout is None:
+        return
+
     # The full collapsed extent of the top margin on the root element
     # must be displayed, so move the default content position so that it is.
     node.layout.content_top += node.layout.collapse_top
@@ -232,7 +238,14 @@ def layout_box(display, node, containing_block, viewport, font):
             raise NotImplementedError("Section 17")  # pragma: no cover
         else:
             # Section 9.4.1 - Block formatting context
-            children = anonymize(node.children)
+            displayed = []
+            for child in node.children:
+                if child.style.display is None:
+                    child.layout = None
+                else:
+                    displayed.append(child)
+
+            children = anonymize(displayed)
             offset_top = 0
             bottom_margin = None
 
@@ -677,8 +690,9 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children and node.children[-1]:
-            last_child = node.children[-1]
+        displayed = [child for child in node.children if child.layout]
+        if displayed:
+            last_child = displayed[-1]
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-- 
2.43.0


From fd74c458c591abfc359287083a9c4393550f5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 22/32] fix: a sibling's gap includes the margins collapsed
 into its top

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e8ccab3..a72c154 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -260,7 +260,7 @@ def layout_box(display, node, containing_block, viewport, font):
                 if bottom_margin is None:
                     node.layout.collapse_top = child.layout.collapse_top
                 else:
-                    offset_top += max(bottom_margin, child.layout.margin_top)
+                    offset_top += max(bottom_margin, child.layout.collapse_top)
 
                 # Offset the top of the child, relative to the parent.
                 child.layout.content_top += offset_top
-- 
2.43.0


From ee16d2a1f5ccaa4cc4cc7d9ba6a573c6a25a1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 23/32] fix: a top border or padding keeps the first child's
 margin inside the parent

---
 src/colosseum/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index a72c154..4760cb6 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -258,7 +258,11 @@ def layout_box(display, node, containing_block, viewport, font):
                 # Otherwise, collapse the bottom margin of the previous element
                 # with the top margin of this element, and offset by the result.
                 if bottom_margin is None:
-                    node.layout.collapse_top = child.layout.collapse_top
+                    if node.layout.border_top_width or node.layout.padding_top:
+                        # 8.3.1 - a border or padding keeps the margins apart
+                        offset_top += child.layout.collapse_top
+                    else:
+                        node.layout.collapse_top = child.layout.collapse_top
                 else:
                     offset_top += max(bottom_margin, child.layout.collapse_top)
 
-- 
2.43.0


From e4234c13d26ce540aefa25c5a9411af0d3c84061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 24/32] fix: a bottom border or padding keeps the last child's
 margin inside the parent

---
 src/colosseum/engine.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 4760cb6..b4f0548 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -699,9 +699,15 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             last_child = displayed[-1]
             content_height = last_child.layout.border_box_bottom
 
-            # Merge the margin of the last child with
-            # the margin of the last child.
-            node.layout.collapse_bottom = last_child.layout.collapse_bottom
+            if is_block_level_element(last_child) and (
+                node.layout.border_bottom_width or node.layout.padding_bottom
+            ):
+                # 8.3.1 - a border or padding keeps the margins apart
+                content_height += last_child.layout.collapse_bottom
+            else:
+                # Merge the margin of the last child with
+                # the margin of the last child.
+                node.layout.collapse_bottom = last_child.layout.collapse_bottom
 
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
-- 
2.43.0


From a70a17f2dd8b2b9237a44369729cf7a20b26270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:14 +0000
Subject: [PATCH 25/32] fix: min-height limits every block's height, not only
 empty ones

---
 src/colosseum/engine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index b4f0548..7d3a646 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -712,10 +712,7 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
         else:
-            if node.style.min_height is not AUTO:  # 10.7 Minimum height
-                content_height = node.style.min_height.px(**context)
-            else:
-                content_height = 0
+            content_height = 0
     else:
         if node.parent is not None and node.parent.style.height is not AUTO:
             parent_height = node.parent.style.height.px(**context)
@@ -729,6 +726,11 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             if content_height > content_max_height:
                 content_height = content_max_height
 
+    if node.style.min_height is not AUTO:  # 10.7 Minimum height
+        content_min_height = node.style.min_height.px(**context)
+        if content_height < content_min_height:
+            content_height = content_min_height
+
     node.layout.content_height = content_height
     node.layout.content_top += node.layout.border_top_width + node.layout.padding_top
 
-- 
2.43.0


From 8dff5aded36372df8036273be2f02eb65405c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:28 +0000
Subject: [PATCH 26/32] fix: right wins over left for relative offsets in
 right-to-left text

---
 src/colosseum/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 7d3a646..3de005b 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -293,8 +293,10 @@ def layout_box(display, node, containing_block, viewport, font):
                 value_left = containing_block.layout.content_left
             else:
                 value_left = node.style.left.px(**horizontal)
-        else:  # P7
+        elif node.style.direction is LTR:  # P7
             value_left = node.style.left.px(**horizontal)
+        else:  # P7
+            value_left = -node.style.right.px(**horizontal)
 
         node.layout.content_left += value_left
 
-- 
2.43.0


From 3648b990d9cbe7c7a493d68ee1f7a8389c91253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:18 +0000
Subject: [PATCH 27/32] fix: inline non-replaced elements start after their
 left margin, border and padding

---
 src/colosseum/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 3de005b..fcf68a6 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -380,6 +380,11 @@ def calculate_inline_non_replaced_width(node, context):
 
     # Use the actual width of the node.
     node.layout.content_width = node.intrinsic.width
+    node.layout.content_left = (
+        node.layout.margin_left
+        + node.layout.border_left_width
+        + node.layout.padding_left
+    )
 
 
 def calculate_inline_replaced_width(node, context):
-- 
2.43.0


From 10d58e38b88e359995ecc73ca52f6b2e05c3929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:15 +0000
Subject: [PATCH 28/32] fix: quotes given as text may contain spaces

---
 src/colosseum/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index af26808..2e6777e 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,3 +1,4 @@
+import re
 from ast import literal_eval
 from collections.abc import Sequence
 from math import isfinite
@@ -232,7 +233,8 @@ def quotes(value):
     if isinstance(value, Quotes):
         return value
     elif isinstance(value, str):
-        values = [val.strip() for val in value.split()]
+        # A quoted string may contain spaces
+        values = re.findall(r"""(?:'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|\S)+""", value)
     elif isinstance(value, Sequence):
         # Flatten list of tuples
         values = []
-- 
2.43.0


From f99a4a23fb916aadd0ba25134000fdeb96d2652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:46 +0000
Subject: [PATCH 29/32] fix: the keyword none is rendered as such in the text
 of a declaration

---
 src/colosseum/declaration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 0b3f440..9165293 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -770,4 +770,7 @@ class CSS:
             except AttributeError:
                 pass
 
-        return "; ".join(f"{name}: {value}" for name, value in sorted(non_default))
+        return "; ".join(
+            f"{name}: {'none' if value is None else value}"
+            for name, value in sorted(non_default)
+        )
-- 
2.43.0


From 42261ce4c3e1cf12152689d0430ae5ad288982c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:40 +0000
Subject: [PATCH 30/32] fix: an intrinsic height of 0 is an intrinsic height

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index fcf68a6..371ba22 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -676,7 +676,7 @@ def calculate_inline_replaced_height(node, context):
         content_height = node.intrinsic.height
     elif node.style.height is AUTO and node.intrinsic.ratio:  # P3
         content_height = node.layout.content_width * node.intrinsic.ratio
-    elif node.style.height is AUTO and node.intrinsic.height:  # P4
+    elif node.style.height is AUTO and node.intrinsic.height is not None:  # P4
         content_height = node.intrinsic.height
     elif node.style.height is AUTO:  # P5
         content_height = min(node.layout.content_width // 2, 150)
-- 
2.43.0


From d42fad3161df281d40e71eead43fd06cd231cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:13 +0000
Subject: [PATCH 31/32] fix: a float with a fraction is not accepted as an
 integer

---
 src/colosseum/validators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index a1bd4bb..46b3cf5 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -9,12 +9,18 @@ from .exceptions import ValidationError
 
 
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
+    original = num_value
     try:
         num_value = numeric_type(num_value)
     except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
+    # int() would silently drop the fraction of a float.
+    if numeric_type is int and isinstance(original, float) and num_value != original:
+        error_msg = f"Cannot coerce {original} to {numeric_type.__name__}"
+        raise ValidationError(error_msg)
+
     if min_value is not None and num_value < min_value:
         error_msg = f"Value {num_value} below minimum value {min_value}"
         raise ValidationError(error_msg)
-- 
2.43.0


From 2762addf3daff9d286b28f464e887969b44849f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 32/32] fix: more than one percent sign is not a percentage of
 an hsl color

---
 src/colosseum/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 2e6777e..b9c801c 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -92,8 +92,8 @@ def color(value):
                 if len(values) == 4:
                     return hsl(
                         int(values[0]),
-                        int(values[1].strip().rstrip("%")) / 100.0,
-                        int(values[2].strip().rstrip("%")) / 100.0,
+                        int(values[1].strip().removesuffix("%")) / 100.0,
+                        int(values[2].strip().removesuffix("%")) / 100.0,
                         float(values[3]),
                     )
             except ValueError:
@@ -105,8 +105,8 @@ def color(value):
                 if len(values) == 3:
                     return hsl(
                         int(values[0]),
-                        int(values[1].strip().rstrip("%")) / 100.0,
-                        int(values[2].strip().rstrip("%")) / 100.0,
+                        int(values[1].strip().removesuffix("%")) / 100.0,
+                        int(values[2].strip().removesuffix("%")) / 100.0,
                     )
             except ValueError:
                 pass
-- 
2.43.0

