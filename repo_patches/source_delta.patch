From 7a594455ba1a31924a991db2db35bbb35613bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 01/62] fix: update the units of a Quantity used as ufunc
 output (numpy >= 2)

---
 quantities/quantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 74a425f..3da2572 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -327,7 +327,9 @@ class Quantity(np.ndarray):
                 return obj
         # For NumPy > 2.0 we either do the prepare or the wrap
         else:
-            if not isinstance(obj, Quantity):
+            # a Quantity passed as output also needs its units updated, there
+            # is no __array_prepare__ any more which would have done that
+            if not isinstance(obj, Quantity) or context is not None:
                 return self.__array_prepare__(obj, context)
             else:
                 return super().__array_wrap__(obj, context, return_scalar)
-- 
2.43.0


From 68ceb6aec4c2aa6f96baaa2fd0f0a9949c653468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 02/62] fix: update the units of a Quantity used as ufunc
 output (numpy >= 2)

numpy 2 no longer calls __array_prepare__, so q *= 3*s, q **= 2 or
np.multiply(q, q, out=q) kept the old units. clip() passed the Quantity
itself as output of the clip ufunc, which is not in p_dict.
---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 3da2572..217dbd8 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -659,7 +659,7 @@ class Quantity(np.ndarray):
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-            out
+            out.magnitude if isinstance(out, Quantity) else out
         )
         dim = self.dimensionality
         if out is None:
-- 
2.43.0


From be6e68fcd478d2542fbfa2bb4593ca6d4ae62b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 03/62] fix: copy.deepcopy of a Quantity shared its memory with
 the original

The constructor does not copy any more, so a deep copy was a view on the
original data; for an UncertainQuantity it also lost the uncertainty.
---
 quantities/quantity.py          | 6 ++++--
 quantities/uncertainquantity.py | 9 +++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 217dbd8..5486b99 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -807,8 +807,10 @@ class Quantity(np.ndarray):
                 state)
 
     def __deepcopy__(self, memo_dict):
-        # constructor copies by default
-        return Quantity(self.magnitude, self.dimensionality)
+        return Quantity(
+            copy.deepcopy(self.magnitude, memo_dict),
+            self.dimensionality
+        )
 
 
 def _reconstruct_quantity(subtype, baseclass, baseshape, basetype,):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 319a6cc..cf30700 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -1,6 +1,7 @@
 """
 """
 
+import copy
 import numpy as np
 import warnings
 
@@ -277,6 +278,14 @@ class UncertainQuantity(Quantity):
         self._dimensionality = units
         self._uncertainty = sigma
 
+    def __deepcopy__(self, memo_dict):
+        return UncertainQuantity(
+            copy.deepcopy(self.magnitude, memo_dict),
+            self.dimensionality,
+            copy.deepcopy(self.uncertainty, memo_dict),
+            dtype=self.dtype
+        )
+
     def __reduce__(self):
         """
         Return a tuple for pickling a Quantity.
-- 
2.43.0


From f3538439332bcc00acb488f0019b6c3437cb4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 04/62] fix: exponents that are multiples of ten lost their
 zeros

m**10 was formatted as m**1, m**20 as m**2, and so on.
---
 quantities/markup.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index d8d4284..ee101df 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -41,6 +41,15 @@ def superscript(val):
             ret.append(s)
     return ''.join(ret)
 
+def format_exponent(d):
+    '''
+    drop the insignificant trailing zeros of a decimal exponent: 2.0 -> 2
+    '''
+    s = '**%s' % d
+    if '.' in s and 'e' not in s:
+        s = s.rstrip('0').rstrip('.')
+    return s
+
 def format_units(udict):
     '''
     create a string representation of the units contained in a dimensionality
@@ -61,12 +70,12 @@ def format_units(udict):
             u = key.symbol
         if d>0:
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + format_exponent(d)
             num.append(u)
         elif d<0:
             d = -d
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + format_exponent(d)
             den.append(u)
     res = '*'.join(num)
     if len(den):
-- 
2.43.0


From f71527f6322a8ecc105dea44a4225040fdfdc7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 05/62] fix: parse dots between one-letter units

'N.m.s' failed to parse because the matches for the two dots overlap.
---
 quantities/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 7603965..bbf8881 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -59,7 +59,7 @@ class UnitRegistry:
                 )
             self.__context[string] = val
 
-    __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
+    __regex = re.compile(r'(?<=[A-Za-z])\.(?=[A-Za-z])')
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -72,7 +72,7 @@ class UnitRegistry:
         """Parses a string description of a unit e.g., 'g/cc'"""
 
         label = self.__regex.sub(
-            r"\g<1>*\g<2>", label.replace('^', '**').replace('·', '*'))
+            "*", label.replace('^', '**').replace('·', '*'))
 
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
-- 
2.43.0


From 3e6bcfcbd4af87ad31f014910763e8d1f61193e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 06/62] fix: parse compound units with the symbols of inch and
 attosecond

'in' and 'as' are python keywords, so 'lb/in**2' was a syntax error.
---
 quantities/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/registry.py b/quantities/registry.py
index bbf8881..2ebc9db 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -60,6 +60,7 @@ class UnitRegistry:
             self.__context[string] = val
 
     __regex = re.compile(r'(?<=[A-Za-z])\.(?=[A-Za-z])')
+    __keywords = re.compile(r'\b(in|as)\b')
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -78,6 +79,9 @@ class UnitRegistry:
         if label == '': label = 'dimensionless'
         if "%" in label: label = label.replace("%", "percent")
         if label.lower() == "in": label = "inch"
+        # the symbols of inch and attosecond are python keywords
+        label = self.__keywords.sub(
+            lambda m: {'in': 'inch', 'as': 'attosecond'}[m.group()], label)
 
         return self.__registry[label]
 
-- 
2.43.0


From 807dd0d7bb9db5fdce6b75a9225419d05f921aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 07/62] fix: mixing a plain array with a quantity raised
 AttributeError

np.add([5.], 3*m) or np.arctan2(1*m, 2.) should say that the units differ
(ValueError); building that message accessed .units of the plain array.
---
 quantities/dimensionality.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c00190b..4db1867 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -243,6 +243,10 @@ p_dict[np.divide] = _d_divide
 p_dict[np.true_divide] = _d_divide
 p_dict[np.floor_divide] = _d_divide
 
+def _units_of(q):
+    # for error messages, also when q is not a quantity
+    return getattr(q, 'units', 'dimensionless')
+
 def _d_check_uniform(q1, q2, out=None):
     try:
         assert q1._dimensionality == q2._dimensionality
@@ -250,7 +254,7 @@ def _d_check_uniform(q1, q2, out=None):
     except AssertionError:
         raise ValueError(
             'quantities must have identical units, got "%s" and "%s"' %
-            (q1.units, q2.units)
+            (_units_of(q1), _units_of(q2))
         )
     except AttributeError:
         try:
@@ -269,7 +273,7 @@ def _d_check_uniform(q1, q2, out=None):
         except ValueError:
             raise ValueError(
                 'quantities must have identical units, got "%s" and "%s"' %
-                (q1.units, q2.units)
+                (_units_of(q1), _units_of(q2))
             )
 
 p_dict[np.add] = _d_check_uniform
@@ -289,12 +293,13 @@ p_dict[np.minimum] = _d_check_uniform
 
 def _d_arctan2(q1, q2, out=None):
     try:
-        assert q1._dimensionality == q2._dimensionality
+        assert getattr(q1, '_dimensionality', Dimensionality()) \
+            == getattr(q2, '_dimensionality', Dimensionality())
         return Dimensionality()
     except AssertionError:
         raise ValueError(
             'quantities must have identical units, got "%s" and "%s"' %
-            (q1.units, q2.units)
+            (_units_of(q1), _units_of(q2))
         )
 
 p_dict[np.arctan2] = _d_arctan2
-- 
2.43.0


From 6b3609fb4e0e8b3bb81fc7a9effcba22bcb72ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 08/62] fix: setting the units of an UncertainQuantity raised
 AttributeError

The setter called a method that does not exist.
---
 quantities/uncertainquantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index cf30700..7a677e6 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -36,8 +36,8 @@ class UncertainQuantity(Quantity):
 
     @Quantity.units.setter  # type: ignore[attr-defined]
     def units(self, units):
-        super()._set_units(units)
-        self.uncertainty.units = self._dimensionality
+        Quantity.units.fset(self, units)
+        self._uncertainty = self._uncertainty.rescale(self._dimensionality)
 
     @property
     def _reference(self):
-- 
2.43.0


From 0621eb60083db6172a84895eafc41a75cedae882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 09/62] fix: UncertainQuantity(uncertain_quantity) raised
 AttributeError

---
 quantities/uncertainquantity.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 7a677e6..7d8bf2e 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -27,10 +27,7 @@ class UncertainQuantity(Quantity):
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
-            is_copy = id(data) == id(ret)
-            if is_copy or ret._dimensionality != uncertainty._dimensionality:
-                uncertainty = data.uncertainty.rescale(ret.units)
-            ret.uncertainty = uncertainty
+            ret.uncertainty = data.uncertainty.rescale(ret._dimensionality)
 
         return ret
 
-- 
2.43.0


From f4dd4de3d37dc8d29d8d786fc29da3f76ecfeea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 10/62] fix: add or subtract quantities with and without
 uncertainty

uncertain + certain raised AttributeError ('Quantity' object has no
attribute 'uncertainty').
---
 quantities/uncertainquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 7d8bf2e..27f06f8 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -88,6 +88,8 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
+        if not isinstance(other, UncertainQuantity):
+            other = UncertainQuantity(other)
         res = super().__add__(other)
         u = (self.uncertainty**2+other.uncertainty**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
@@ -100,6 +102,8 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__sub__, use_header=False)
     @scale_other_units
     def __sub__(self, other):
+        if not isinstance(other, UncertainQuantity):
+            other = UncertainQuantity(other)
         res = super().__sub__(other)
         u = (self.uncertainty**2+other.uncertainty**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
-- 
2.43.0


From 375fc7b68b0e8325c3b5d1aea0838b10fe852541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 11/62] fix: negative or undefined uncertainties from *, / and
 **

(-2 +/- 0.1) * (3 +/- 0.1), 1/x squared or cubed of a negative number had a
negative uncertainty, and the product of 0 +/- 0.1 with anything had none
(nan).
---
 quantities/uncertainquantity.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 27f06f8..505a68a 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -119,12 +119,10 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
         res = super().__mul__(other)
-        try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
-        except AttributeError:
+        if isinstance(other, UncertainQuantity):
+            a, b = self.view(Quantity), other.view(Quantity)
+            u = ((b*self.uncertainty)**2+(a*other.uncertainty)**2)**0.5
+        else:
             other = np.asanyarray(other)
             u = (self.uncertainty**2*other**2)**0.5
 
@@ -141,12 +139,10 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
         res = super().__truediv__(other)
-        try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
-        except AttributeError:
+        if isinstance(other, UncertainQuantity):
+            a, b = self.view(Quantity), other.view(Quantity)
+            u = ((self.uncertainty/b)**2+(a*other.uncertainty/b**2)**2)**0.5
+        else:
             other = np.asanyarray(other)
             u = (self.uncertainty**2/other**2)**0.5
 
@@ -164,7 +160,9 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = res.view(Quantity) * other * self.relative_uncertainty
+        res.uncertainty = np.absolute(
+            res.view(Quantity) * other * self.relative_uncertainty
+        )
         return res
 
     @with_doc(Quantity.__getitem__, use_header=False)
-- 
2.43.0


From eadf4c63d8d63a7cf11b73edc4f30e5201164cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 12/62] fix: arctan2 ignored the scale of its arguments

arctan2(1*m, 1*ft) was pi/4.
---
 quantities/umath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 16bc412..7ad2a87 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -349,7 +349,8 @@ def arctan2(x1, x2, out=None):
         )
 
     return Quantity(
-        np.arctan2(x1.magnitude, x2.magnitude, out),
+        np.arctan2(
+            x1.magnitude, x2.rescale(x1._dimensionality).magnitude, out),
         radian,
         copy=False
     )
-- 
2.43.0


From 7d902a43d2b8783cbc7dfefe3f2ca959057a4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 13/62] fix: raise the intended TypeError for an inconvertible
 default unit

set_default_units(time='kg') ended in a bare AssertionError.
---
 quantities/unitquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d5487fc..d53b549 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -318,7 +318,7 @@ class IrreducibleUnit(UnitQuantity):
         try:
             # check that conversions are possible:
             get_conversion_factor(cls._default_unit, unit)
-        except ValueError:
+        except (AssertionError, ValueError):
             raise TypeError('default unit must be of same type')
         cls._default_unit = unit
 
-- 
2.43.0


From 95470d533a49834b8ba7eff01bd76a8686d6b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 14/62] fix: nanmax, nanmin, nanargmax and nanargmin ignored
 the axis

---
 quantities/quantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 5486b99..ba287a6 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -597,7 +597,7 @@ class Quantity(np.ndarray):
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
         return Quantity(
-            np.nanmax(self.magnitude),
+            np.nanmax(self.magnitude, axis),
             self.dimensionality
         )
 
@@ -615,7 +615,7 @@ class Quantity(np.ndarray):
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
         return Quantity(
-            np.nanmin(self.magnitude),
+            np.nanmin(self.magnitude, axis),
             self.dimensionality
         )
 
@@ -625,11 +625,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis)
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
-- 
2.43.0


From de6f78f1f3b82dd915e21ece45eb2048a24bebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 15/62] fix: quantitizer failed on Quantity keyword arguments

---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index bd4d0e2..deb5081 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -110,7 +110,7 @@ def quantitizer(base_function,
             #test if the argument is a quantity
             if isinstance(kwargs[i], Quantity):
                 #convert the units to the base units
-                kwargs[i] = kwargs[i].simplifed()
+                kwargs[i] = kwargs[i].simplified
 
                 #view the array as an ndarray
                 kwargs[i] = kwargs[i].magnitude
-- 
2.43.0


From af2d3f5f4df0e0cbb510fda2db1496215f0e54de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 16/62] fix: support the unary plus operator

---
 quantities/dimensionality.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 4db1867..afc4111 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -331,6 +331,7 @@ p_dict[np.fabs] = _d_copy
 p_dict[np.absolute] = _d_copy
 p_dict[np.conjugate] = _d_copy
 p_dict[np.negative] = _d_copy
+p_dict[np.positive] = _d_copy
 p_dict[np.ones_like] = _d_copy
 p_dict[np.rint] = _d_copy
 p_dict[np.floor] = _d_copy
-- 
2.43.0


From 5dd68b87d1f0aebf2c7aab4dc0d213af4db42ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 17/62] fix: scale a number divided by a dimensionless quantity
 with remainder

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index ba287a6..a61a442 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -372,6 +372,11 @@ class Quantity(np.ndarray):
     def __mod__(self, other):
         return super().__mod__(other)
 
+    @with_doc(np.ndarray.__rmod__)
+    @scale_other_units
+    def __rmod__(self, other):
+        return np.mod(other, self)
+
     @with_doc(np.ndarray.__imod__)
     @scale_other_units
     def __imod__(self, other):
-- 
2.43.0


From 0a0c8ddacf6d3681b9c2684a6c97d23f596f6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 18/62] fix: logaddexp and logaddexp2 ignored the units of the
 second argument

---
 quantities/dimensionality.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index afc4111..ea289cd 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -381,8 +381,12 @@ p_dict[np.log1p] = _d_dimensionless
 p_dict[np.exp] = _d_dimensionless
 p_dict[np.exp2] = _d_dimensionless
 p_dict[np.expm1] = _d_dimensionless
-p_dict[np.logaddexp] = _d_dimensionless
-p_dict[np.logaddexp2] = _d_dimensionless
+
+def _d_logaddexp(q1, q2, out=None):
+    _d_dimensionless(q1)
+    return _d_dimensionless(q2)
+p_dict[np.logaddexp] = _d_logaddexp
+p_dict[np.logaddexp2] = _d_logaddexp
 
 def _d_trig(q1, out=None):
     try:
-- 
2.43.0


From 6a981710d9f00175ded91a6175d42218bdf9b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 19/62] fix: comparison ufuncs gave their truth values units

---
 quantities/dimensionality.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index ea289cd..32e9162 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -282,15 +282,20 @@ p_dict[np.mod] = _d_check_uniform
 p_dict[np.fmod] = _d_check_uniform
 p_dict[np.remainder] = _d_check_uniform
 p_dict[np.hypot] = _d_check_uniform
-p_dict[np.equal] = _d_check_uniform
-p_dict[np.not_equal] = _d_check_uniform
-p_dict[np.less] = _d_check_uniform
-p_dict[np.less_equal] = _d_check_uniform
-p_dict[np.greater] = _d_check_uniform
-p_dict[np.greater_equal] = _d_check_uniform
 p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
+def _d_comparison(q1, q2, out=None):
+    # truth values have no units
+    _d_check_uniform(q1, q2)
+    return Dimensionality()
+p_dict[np.equal] = _d_comparison
+p_dict[np.not_equal] = _d_comparison
+p_dict[np.less] = _d_comparison
+p_dict[np.less_equal] = _d_comparison
+p_dict[np.greater] = _d_comparison
+p_dict[np.greater_equal] = _d_comparison
+
 def _d_arctan2(q1, q2, out=None):
     try:
         assert getattr(q1, '_dimensionality', Dimensionality()) \
-- 
2.43.0


From 92753c2c04d4a74b0e41d4ef3ac583c2fd82a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 20/62] fix: units of squeezed, real, imag and uncertain views
 could be changed

---
 quantities/quantity.py          | 11 +++++------
 quantities/uncertainquantity.py | 15 ++++++++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index a61a442..4786105 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -159,7 +159,8 @@ class Quantity(np.ndarray):
 
     @property
     def real(self):
-        return Quantity(self.magnitude.real, self.dimensionality)
+        # a view of a Quantity, the units of which are protected
+        return np.ndarray.real.__get__(self.view(Quantity))
 
     @real.setter
     def real(self, r):
@@ -167,7 +168,7 @@ class Quantity(np.ndarray):
 
     @property
     def imag(self):
-        return Quantity(self.magnitude.imag, self.dimensionality)
+        return np.ndarray.imag.__get__(self.view(Quantity))
 
     @imag.setter
     def imag(self, i):
@@ -698,10 +699,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
-        return Quantity(
-            self.magnitude.squeeze(axis),
-            self.dimensionality
-        )
+        # a view of a Quantity, the units of which are protected
+        return self.view(Quantity).reshape(self.magnitude.squeeze(axis).shape)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 505a68a..56df595 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -167,11 +167,16 @@ class UncertainQuantity(Quantity):
 
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
-        return UncertainQuantity(
-            self.magnitude[key],
-            self._dimensionality,
-            self.uncertainty[key]
-        )
+        ret = super().__getitem__(key)
+        if not isinstance(ret, UncertainQuantity):
+            return UncertainQuantity(
+                ret.magnitude,
+                self._dimensionality,
+                self.uncertainty[key]
+            )
+        # a view of a Quantity, the units of which are protected
+        ret.uncertainty = Quantity(self.uncertainty[key], self._dimensionality)
+        return ret
 
     @with_doc(Quantity.__repr__, use_header=False)
     def __repr__(self):
-- 
2.43.0


From 41c539d7c2fa12b39f505c8de1baf7feba25e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 21/62] fix: in-place arithmetic left stale uncertainties

---
 quantities/uncertainquantity.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 56df595..266cebf 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -165,6 +165,36 @@ class UncertainQuantity(Quantity):
         )
         return res
 
+    def _inplace(self, method, other, uncertainty):
+        res = method(other)
+        res._uncertainty = uncertainty
+        return res
+
+    @with_doc(Quantity.__iadd__, use_header=False)
+    def __iadd__(self, other):
+        return self._inplace(
+            super().__iadd__, other, (self + other)._uncertainty)
+
+    @with_doc(Quantity.__isub__, use_header=False)
+    def __isub__(self, other):
+        return self._inplace(
+            super().__isub__, other, (self - other)._uncertainty)
+
+    @with_doc(Quantity.__imul__, use_header=False)
+    def __imul__(self, other):
+        return self._inplace(
+            super().__imul__, other, (self * other)._uncertainty)
+
+    @with_doc(Quantity.__itruediv__, use_header=False)
+    def __itruediv__(self, other):
+        return self._inplace(
+            super().__itruediv__, other, (self / other)._uncertainty)
+
+    @with_doc(Quantity.__ipow__, use_header=False)
+    def __ipow__(self, other):
+        return self._inplace(
+            super().__ipow__, other, (self ** other)._uncertainty)
+
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
         ret = super().__getitem__(key)
-- 
2.43.0


From b8628d5a1a8b53bd794e158edff545cf77e8168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 22/62] fix: axis of extrema of uncertain quantities was
 ignored

---
 quantities/uncertainquantity.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 266cebf..9625f23 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -269,41 +269,49 @@ class UncertainQuantity(Quantity):
     def sqrt(self, out=None):
         return self**0.5
 
+    def _select(self, argf, axis):
+        if axis is None:
+            idx = np.unravel_index(argf(self.magnitude), self.shape)
+            return self[idx]
+        idx = np.expand_dims(argf(self.magnitude, axis), axis)
+        return UncertainQuantity(
+            np.take_along_axis(self.magnitude, idx, axis).squeeze(axis),
+            self.dimensionality,
+            np.take_along_axis(
+                self.uncertainty.magnitude, idx, axis).squeeze(axis)
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.argmax, axis)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.nanargmax, axis)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.argmin, axis)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.nanargmin, axis)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-        return self.magnitude.argmin()
+        return self.magnitude.argmin(axis)
 
     @with_doc(np.ndarray.argmax)
     def argmax(self,axis=None, out=None):
-        return self.magnitude.argmax()
+        return self.magnitude.argmax(axis)
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis)
 
     def __setstate__(self, state):
         ndarray_state = state[:-2]
-- 
2.43.0


From 181688b799b014f97212b5d5d83424c36dd7a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 23/62] fix: aliases of foot and oersted

---
 quantities/units/electromagnetism.py | 2 +-
 quantities/units/length.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index c22ac87..482cf34 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -264,7 +264,7 @@ Oe = oersted = UnitQuantity(
     'oersted',
     1000/(4*pi)*A/m,
     symbol='Oe',
-    aliases=['aliases']
+    aliases=['oersteds']
 )
 statfarad = statF = stF = UnitQuantity(
     'statfarad',
diff --git a/quantities/units/length.py b/quantities/units/length.py
index 5634f75..e8c2d24 100644
--- a/quantities/units/length.py
+++ b/quantities/units/length.py
@@ -76,7 +76,7 @@ ft = foot = international_foot = UnitLength(
     'foot',
     12*inch,
     symbol='ft',
-    aliases=['feet', 'international_foot' 'international_feet']
+    aliases=['feet', 'international_foot', 'international_feet']
 )
 mi = mile = international_mile = UnitLength(
     'mile',
-- 
2.43.0


From eb3791d8b86638995fe65c903460059bc72610e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 24/62] fix: raising a quantity to the power 0 in place failed
 after overwriting it

---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 4786105..4cb4f3b 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -412,7 +412,7 @@ class Quantity(np.ndarray):
     @check_uniform
     @protected_power
     def __ipow__(self, other):
-        return super().__ipow__(other)
+        return np.power(self, other, out=self)
 
     def __round__(self, decimals=0):
         return np.around(self, decimals)
-- 
2.43.0


From 4d307aa9ab35062069b2ca8e6b8392f0fb477ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 25/62] fix: simplifying dimensionless itself recursed for ever

---
 quantities/unitquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d53b549..2aeea31 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -438,6 +438,10 @@ class Dimensionless(UnitQuantity):
     def _dimensionality(self):
         return Dimensionality()
 
+    @property
+    def simplified(self):
+        return 1*self
+
 dimensionless = Dimensionless('dimensionless')
 
 
-- 
2.43.0


From c84ccad60bc895136134e006587735da9284705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 26/62] fix: numeric factors in unit strings were silently
 dropped

---
 quantities/quantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 4cb4f3b..0b25e7e 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -31,9 +31,11 @@ def validate_unit_quantity(value):
 def validate_dimensionality(value):
     if isinstance(value, str):
         try:
-            return unit_registry[value].dimensionality
+            value = unit_registry[value]
         except (KeyError, UnicodeDecodeError):
-            return unit_registry[str(value)].dimensionality
+            value = unit_registry[str(value)]
+        # a numeric factor, e.g. '10*m', is not part of the dimensionality
+        return validate_unit_quantity(value).dimensionality
     elif isinstance(value, Quantity):
         validate_unit_quantity(value)
         return value.dimensionality
-- 
2.43.0


From 010424484b5a59345a1a386abd881c5a92d7243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 27/62] fix: statampere could not be simplified

---
 quantities/units/electromagnetism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index 482cf34..faed216 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -52,7 +52,7 @@ esu = statcoulomb = statC = franklin = Fr = UnitQuantity(
     symbol='esu',
     aliases=['statcoulombs', 'statC', 'franklin', 'franklins', 'Fr']
 )
-esu_per_second = statampere = UnitCurrent(
+esu_per_second = statampere = UnitQuantity(
     'statampere',
     esu/s,
     symbol='(esu/s)',
-- 
2.43.0


From 0acbee1622d36899de84f7aefdc6d1efc23a1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 28/62] fix: a unit of a taken name was accepted with another
 definition

---
 quantities/registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 2ebc9db..4533f4b 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -51,7 +51,11 @@ class UnitRegistry:
             try:
                 assert string not in self.__context
             except AssertionError:
-                if val == self.__context[string]:
+                old = self.__context[string]
+                # units of the same name always compare equal: compare
+                # what they are defined as, too
+                if val == old and getattr(val, '_reference', val) \
+                        == getattr(old, '_reference', old):
                     return
                 raise KeyError(
                     '%s has already been registered for %s'
-- 
2.43.0


From f610ebaa4d034dac0e66fb6526b855f44a2ec248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 29/62] fix: powers of uncertain zeros had undefined
 uncertainty

---
 quantities/uncertainquantity.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 9625f23..fe6aa3a 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -160,8 +160,13 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = np.absolute(
-            res.view(Quantity) * other * self.relative_uncertainty
+        other = np.asarray(other)
+        res.uncertainty = Quantity(
+            np.absolute(
+                other * self.magnitude**(other - 1.0)
+                * self.uncertainty.magnitude
+            ),
+            res._dimensionality
         )
         return res
 
-- 
2.43.0


From 98d7b7b66a00e3c9f1f516486d8ab615c5763846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 30/62] fix: UncertainQuantity(unit) raised AttributeError,
 dtype of Quantity(unit) was ignored

---
 quantities/quantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 0b25e7e..4c3fe47 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -126,8 +126,10 @@ class Quantity(np.ndarray):
             if units:
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
-                return 1*data
-            return np.asanyarray(data, dtype=dtype).view(cls)
+                # neither a view of the unit, nor read-only
+                data, units = np.array(data.magnitude), data.dimensionality
+            else:
+                return np.asanyarray(data, dtype=dtype).view(cls)
 
         ret = np.asarray(data, dtype=dtype).view(cls)
         ret._dimensionality.update(validate_dimensionality(units))
-- 
2.43.0


From 44fd59b3a98476a82355c3778b05f462b60c8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 31/62] fix: operations of units with uncertain quantities lost
 the uncertainty

---
 quantities/unitquantity.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 2aeea31..39169a6 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -167,7 +167,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__add__, use_header=False)
     def __add__(self, other):
-        return self.view(Quantity).__add__(other)
+        return self.view(Quantity) + other
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
@@ -178,7 +178,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__sub__, use_header=False)
     def __sub__(self, other):
-        return self.view(Quantity).__sub__(other)
+        return self.view(Quantity) - other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
@@ -189,7 +189,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mod__, use_header=False)
     def __mod__(self, other):
-        return self.view(Quantity).__mod__(other)
+        return self.view(Quantity) % other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rmod__(self, other):
@@ -200,7 +200,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-        return self.view(Quantity).__mul__(other)
+        return self.view(Quantity) * other
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
@@ -208,7 +208,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
-        return self.view(Quantity).__truediv__(other)
+        return self.view(Quantity) / other
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-- 
2.43.0


From 5ce283bb215094e53e7c71cec5bfd9fee939d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 32/62] fix: raising a quantity to an array of powers in place
 raised ValueError

---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 4c3fe47..cedb18c 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -93,7 +93,7 @@ def check_uniform(f):
 def protected_power(f):
     @wraps(f)
     def g(self, other, *args):
-        if other != 1:
+        if np.any(np.asarray(other) != 1):
             try:
                 assert not isinstance(self.base, Quantity)
             except AssertionError:
-- 
2.43.0


From b6d3be9e565d048228bc3edc174642cf494101e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 33/62] fix: products of numpy scalars and uncertain quantities
 lost the uncertainty

---
 quantities/uncertainquantity.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index fe6aa3a..cf43815 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -85,6 +85,17 @@ class UncertainQuantity(Quantity):
             )
         )
 
+    def __array_wrap__(self, obj, context=None, return_scalar=False):
+        res = super().__array_wrap__(obj, context, return_scalar)
+        if context is not None and isinstance(res, UncertainQuantity):
+            # numpy scalars do not defer to the reflected operators
+            uf, args = context[:2]
+            method = reflected.get(uf)
+            if (method and len(args) == 2 and isinstance(args[0], np.generic)
+                    and isinstance(args[1], UncertainQuantity)):
+                res._uncertainty = method(args[1], args[0])._uncertainty
+        return res
+
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
@@ -340,3 +351,10 @@ class UncertainQuantity(Quantity):
         reconstruct, reconstruct_args, state = super().__reduce__()
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
+
+reflected = {
+    np.add: UncertainQuantity.__radd__,
+    np.subtract: UncertainQuantity.__rsub__,
+    np.multiply: UncertainQuantity.__rmul__,
+    np.true_divide: UncertainQuantity.__rtruediv__,
+}
-- 
2.43.0


From 21276cbee844eb238e3813f65224c438a1b7a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 34/62] fix: astype lost the uncertainty and, for units,
 ignored the type; rescale() to preferred units of uncertain quantities

---
 quantities/quantity.py          |  4 ++--
 quantities/uncertainquantity.py | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index cedb18c..cb3a219 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -290,9 +290,9 @@ class Quantity(np.ndarray):
         # might be related to numpy ticket # 826
         if not isinstance(ret, type(self)):
             if self.__array_priority__ >= Quantity.__array_priority__:
-                ret = type(self)(ret, self._dimensionality, dtype=self.dtype)
+                ret = type(self)(ret, self._dimensionality, dtype=ret.dtype)
             else:
-                ret = Quantity(ret, self._dimensionality, dtype=self.dtype)
+                ret = Quantity(ret, self._dimensionality, dtype=ret.dtype)
 
         return ret
 
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index cf43815..fccf832 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -68,10 +68,17 @@ class UncertainQuantity(Quantity):
         return self.uncertainty.magnitude/self.magnitude
 
     @with_doc(Quantity.rescale, use_header=False)
-    def rescale(self, units, dtype=None):
+    def rescale(self, units=None, dtype=None):
         cls = UncertainQuantity
         ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
-        ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
+        ret.uncertainty = self.uncertainty.rescale(
+            ret._dimensionality, dtype=dtype)
+        return ret
+
+    @with_doc(Quantity.astype, use_header=False)
+    def astype(self, dtype=None, **kwargs):
+        ret = super().astype(dtype, **kwargs)
+        ret.uncertainty = self.uncertainty.astype(dtype)
         return ret
 
     def __array_finalize__(self, obj):
-- 
2.43.0


From c77b46ccfad71fb4f371ec32f7b1a9afcb30a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 35/62] fix: copy.copy of a unit was unusable, copy.deepcopy
 was not a unit, dimensionless.copy() failed

---
 quantities/unitquantity.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 39169a6..2ce3490 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -272,6 +272,13 @@ class UnitQuantity(Quantity):
             self.__getstate__()
         )
 
+    def __copy__(self):
+        # units are immutable
+        return self
+
+    def __deepcopy__(self, memo_dict):
+        return self
+
     def copy(self):
         return (
             type(self)(
@@ -434,6 +441,9 @@ class Dimensionless(UnitQuantity):
             self.__getstate__()
         )
 
+    def copy(self):
+        return type(self)(self._name)
+
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From 85551dd0ed5c0d68d4543b1f1080f1350b86ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 36/62] fix: changing the quantity a unit was defined with
 changed the unit's definition and copies

---
 quantities/unitquantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 2ce3490..75a462b 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -1,6 +1,7 @@
 """
 """
 
+import copy
 import weakref
 
 import numpy
@@ -56,7 +57,7 @@ class UnitQuantity(Quantity):
         if definition is not None:
             if not isinstance(definition, Quantity):
                 definition *= dimensionless
-            ret._definition = definition
+            ret._definition = copy.copy(definition)
             ret._conv_ref = definition._reference
         else:
             ret._definition = None
-- 
2.43.0


From fcee264d060c0af9959138d050102ed5c055bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 37/62] fix: copies of uncertain quantities shared their
 uncertainty, unary plus lost it

---
 quantities/uncertainquantity.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index fccf832..90aa2f0 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -154,6 +154,9 @@ class UncertainQuantity(Quantity):
     def __neg__(self):
         return self*-1
 
+    def __pos__(self):
+        return self.copy()
+
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
         res = super().__truediv__(other)
@@ -343,6 +346,15 @@ class UncertainQuantity(Quantity):
         self._dimensionality = units
         self._uncertainty = sigma
 
+    @with_doc(np.ndarray.copy)
+    def copy(self, order='C'):
+        ret = super().copy(order)
+        ret._uncertainty = self._uncertainty.copy(order)
+        return ret
+
+    def __copy__(self):
+        return self.copy()
+
     def __deepcopy__(self, memo_dict):
         return UncertainQuantity(
             copy.deepcopy(self.magnitude, memo_dict),
-- 
2.43.0


From 93f48c3aa969caf899921c57faac217884ac991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 38/62] fix: nansum lost the uncertainty

---
 quantities/umath.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 7ad2a87..54b1113 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -48,11 +48,7 @@ def nansum(a, axis=None):
     if not isinstance(a, Quantity):
         return np.nansum(a, axis)
 
-    return Quantity(
-        np.nansum(a.magnitude, axis),
-        a.dimensionality,
-        copy=False
-    )
+    return a.nansum(axis)
 
 @with_doc(np.cumprod)
 def cumprod(a, axis=None, dtype=None, out=None):
-- 
2.43.0


From 103e82edb40528f8e8a68174e74ad594690bd81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 39/62] fix: ediff1d ignored the units of to_end and to_begin

---
 quantities/umath.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index 54b1113..0d015cb 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -69,6 +69,11 @@ def ediff1d(ary, to_end=None, to_begin=None):
     if not isinstance(ary, Quantity):
         return np.ediff1d(ary, to_end, to_begin)
 
+    if isinstance(to_end, Quantity):
+        to_end = to_end.rescale(ary.units).magnitude
+    if isinstance(to_begin, Quantity):
+        to_begin = to_begin.rescale(ary.units).magnitude
+
     return Quantity(
         np.ediff1d(ary.magnitude, to_end, to_begin),
         ary.dimensionality,
-- 
2.43.0


From 9349e8dd7bb06109472bdb7f253850bd77c0ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 40/62] fix: cross lost the units if one argument was a plain
 array

---
 quantities/umath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 0d015cb..a7b9be0 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -106,7 +106,7 @@ def gradient(f, *varargs):
 
 @with_doc(np.cross)
 def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
-    if not (isinstance(a, Quantity) and isinstance(b, Quantity)):
+    if not (isinstance(a, Quantity) or isinstance(b, Quantity)):
         return np.cross(a, b, axisa, axisb, axisc, axis)
 
     if not isinstance(a, Quantity):
-- 
2.43.0


From c9e0d9673bb037b8211a84fe36d545eec409376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 41/62] fix: unwrap lost the units or used the period of
 radians for other angles

---
 quantities/umath.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index a7b9be0..854729c 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -383,20 +383,19 @@ def hypot(x1, x2, out = None):
 
 @with_doc(np.unwrap)
 def unwrap(p, discont=np.pi, axis=-1):
-    if not (isinstance(p, Quantity) and isinstance(discont, Quantity)):
+    if not (isinstance(p, Quantity) or isinstance(discont, Quantity)):
         return np.unwrap(p, discont, axis)
 
     if not isinstance(p, Quantity):
-        p = Quantity(p, copy=False)
+        p = Quantity(p, radian, copy=False)
     if not isinstance(discont, Quantity):
-        discont = Quantity(discont, copy=False)
+        discont = Quantity(discont, radian, copy=False)
 
-    discont = discont.rescale(p.units)
+    # the period is that of radians
+    ret = np.unwrap(
+        p.rescale(radian).magnitude, discont.rescale(radian).magnitude, axis)
 
-    return Quantity(
-        np.unwrap(p.magnitude, discont.magnitude, axis),
-        p.units
-    )
+    return Quantity(ret, radian).rescale(p.units)
 
 @with_doc(np.sinh)
 def sinh(x, out=None):
-- 
2.43.0


From fca445b496f5020b28125b0786f7c6fd58d25343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 42/62] fix: gradient without units of the spacing failed or
 returned nothing

---
 quantities/umath.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 854729c..80fcb13 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -90,14 +90,20 @@ def gradient(f, *varargs):
     #   if len(varargs) == 0:
     #       varargs = (Quantity(1),)
 
+    f = Quantity(f, copy=False)
     varargsQuantities = [Quantity(i, copy=False) for i in varargs]
     varargsMag = tuple(i.magnitude for i in varargsQuantities)
     ret = np.gradient(f.magnitude, *varargsMag)
 
-    if len(varargs) == 1:
+    if not varargs:
+        varargsQuantities = [Quantity(1)]
+    if f.ndim == 1:
+        return Quantity(ret, f.units/varargsQuantities[0].units)
+    elif len(varargsQuantities) == 1:
         # if there was only one sample distance provided,
         # apply the units in all directions
-        return tuple( Quantity(i, f.units/varargs[0].units)  for i  in ret)
+        return tuple( Quantity(i, f.units/varargsQuantities[0].units)
+                      for i  in ret)
     else:
         #give each output array the units of the input array
         #divided by the units of the spacing quantity given
-- 
2.43.0


From b1bcbdc1e1020373fd8e3c44519fa15197dcbcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 43/62] fix: cos and tan ignored their out argument

---
 quantities/umath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 80fcb13..370a5ca 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -286,7 +286,8 @@ def cos(x, out=None):
     if not isinstance(x, Quantity):
         return np.cos(x, out)
 
-    return Quantity(np.cos(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.cos(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arccos)
 def arccos(x, out=None):
@@ -315,7 +316,8 @@ def tan(x, out=None):
     if not isinstance(x, Quantity):
         return np.tan(x, out)
 
-    return Quantity(np.tan(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.tan(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arctan)
 def arctan(x, out=None):
-- 
2.43.0


From 4252105aecc2ceaa15f35e9b33fd989e747d1565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 44/62] fix: a pond is the weight of a gram, not of a kilogram

---
 quantities/units/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/force.py b/quantities/units/force.py
index c903969..7be0d23 100644
--- a/quantities/units/force.py
+++ b/quantities/units/force.py
@@ -28,7 +28,7 @@ dyne = UnitQuantity(
 )
 pond = UnitQuantity(
     'pond',
-    g_0*kg,
+    g_0*gram,
     symbol='p',
     aliases=['ponds']
 )
-- 
2.43.0


From af492903e24e3b29e225069062adeb3baad0a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 45/62] fix: decimal exponents were torn apart in unicode,
 latex and html

---
 quantities/markup.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index ee101df..4670824 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -30,7 +30,8 @@ config = _Config()
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
 def superscript(val):
-    items = re.split(r'\*{2}([\d]+)(?!\.)', val)
+    # decimal exponents are left alone
+    items = re.split(r'\*{2}(\d+)(?![\d.e])', val)
     ret = []
     while items:
         try:
@@ -85,6 +86,9 @@ def format_units(udict):
     if not res: res = 'dimensionless'
     return res
 
+# the exponent of a unit: whole or decimal
+_exponent = r'\*{2,2}(?P<exp>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)'
+
 def format_units_unicode(udict):
     res = format_units(udict)
     res = superscript(res)
@@ -128,7 +132,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Replace division (num/den) with \frac{num}{den}
         res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'^{\g<exp>}',res)
+    res = re.sub(_exponent,r'^{\g<exp>}',res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -161,7 +165,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(_exponent,r'<sup>\g<exp></sup>',res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From c087b7f6ef6ab6f0a21d8e1fbd7964f2da835392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 46/62] fix: latex fractions tore compound units apart

---
 quantities/markup.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 4670824..eb1f216 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -97,6 +97,18 @@ def format_units_unicode(udict):
     return res
 
 
+def split_division(val):
+    """
+    split num/den, leaving alone the divisions within parentheses
+    """
+    depth = 0
+    for i, c in enumerate(val):
+        depth += (c == '(') - (c == ')')
+        if c == '/' and depth == 0:
+            return val[:i], val[i+1:]
+    return val, None
+
+
 def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     '''
     Replace the units string provided with an equivalent latex string.
@@ -130,7 +142,9 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Not a compound unit
         compound = False
         # Replace division (num/den) with \frac{num}{den}
-        res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
+        num, den = split_division(res)
+        if den is not None:
+            res = r'\frac{%s}{%s}' % (num, den)
     # Replace exponentiation (**exp) with ^{exp}
     res = re.sub(_exponent,r'^{\g<exp>}',res)
     # Remove multiplication signs
-- 
2.43.0


From 1c7e04c847b387c8c39a068376cd3345b5eccce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 47/62] fix: Quantity(quantity, units) ignored dimensionless
 units and accepted invalid ones that are falsy

---
 quantities/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index cb3a219..f216196 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -123,7 +123,8 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            if units:
+            # dimensionless units and invalid ones may well be falsy
+            if not (units is None or isinstance(units, str) and units == ''):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
                 # neither a view of the unit, nor read-only
-- 
2.43.0


From 6437031fa83f64d0205341f16d0fbc1ee039c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 48/62] fix: dividing a unit product by itself in place raised
 RuntimeError

---
 quantities/dimensionality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 32e9162..46e5450 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -151,7 +151,8 @@ class Dimensionality(dict):
 
     def __itruediv__(self, other):
         assert_isinstance(other, Dimensionality)
-        for unit, power in other.items():
+        # other may be self, of which units are removed
+        for unit, power in list(other.items()):
             try:
                 self[unit] -= power
                 if self[unit] == 0:
-- 
2.43.0


From 1e2cc563edd7b4576c107e2a5d86fd1dc4549abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 49/62] fix: simplifying an empty unit product returned the
 product itself, not a copy

---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 46e5450..b729c51 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -38,7 +38,7 @@ class Dimensionality(dict):
                 rq = rq * u.simplified**d
             return rq.dimensionality
         else:
-            return self
+            return self.copy()
 
     @property
     def string(self):
-- 
2.43.0


From f811da4e5c62ee1e0d9309c17d87692c8de4c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 50/62] fix: filling a view of a quantity changed the units of
 the view only

---
 quantities/quantity.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index f216196..be71be3 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -549,11 +549,12 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
+        dim = getattr(value, 'dimensionality', self._dimensionality)
+        if dim != self._dimensionality and isinstance(self.base, Quantity):
+            raise ValueError('can not modify units of a view of a Quantity')
         self.magnitude.fill(value)
-        try:
-            self._dimensionality = value.dimensionality
-        except AttributeError:
-            pass
+        if hasattr(value, 'dimensionality'):
+            self._dimensionality = dim
 
     @with_doc(np.ndarray.put)
     def put(self, indicies, values, mode='raise', dtype='d'):
-- 
2.43.0


From a45207f56c8dd22ec0a8905e3df263eb900ba49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 51/62] fix: filling an uncertain quantity kept the uncertainty
 of its earlier values and units

---
 quantities/uncertainquantity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 90aa2f0..618964c 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -234,6 +234,15 @@ class UncertainQuantity(Quantity):
         ret.uncertainty = Quantity(self.uncertainty[key], self._dimensionality)
         return ret
 
+    @with_doc(np.ndarray.fill)
+    def fill(self, value):
+        super().fill(value)
+        uncertainty = Quantity(
+            np.zeros(self.shape, self.dtype), self._dimensionality)
+        if isinstance(value, UncertainQuantity):
+            uncertainty = uncertainty + value.uncertainty
+        self._uncertainty = uncertainty
+
     @with_doc(Quantity.__repr__, use_header=False)
     def __repr__(self):
         return '%s(%s, %s, %s)'%(
-- 
2.43.0


From b03a623a685aad600993c6524f0d3f2b5bb3cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 52/62] fix: the unicode symbol of the drachm was blank

---
 quantities/units/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/mass.py b/quantities/units/mass.py
index 02c67d8..fffb71a 100644
--- a/quantities/units/mass.py
+++ b/quantities/units/mass.py
@@ -123,7 +123,7 @@ dr = dram = UnitMass(
 drachm = apdram = UnitMass(
     'drachm',
     60*gr,
-    u_symbol='  ',
+    u_symbol='ʒ',
     aliases=['drachms', 'apdram', 'apdrams'],
     doc='also known as the apothecary dram'
 )
-- 
2.43.0


From ab904808a676bce25b1c4651122c7ad41e4371bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 53/62] fix: changing a unit's definition in place changed what
 the unit shows and pickles

---
 quantities/unitquantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 75a462b..225b9d6 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -110,7 +110,8 @@ class UnitQuantity(Quantity):
         if self._definition is None:
             return self
         else:
-            return self._definition
+            # changing it must not change the unit
+            return copy.copy(self._definition)
 
     @property
     def simplified(self):
-- 
2.43.0


From 5a2ed66fa92ff47e6aca170c2fb225273d2d8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:37 +0000
Subject: [PATCH 54/62] fix: nansum and nanmean counted the uncertainties of
 elements that are NaN

---
 quantities/uncertainquantity.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 618964c..d13adb7 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -275,12 +275,17 @@ class UncertainQuantity(Quantity):
             (np.sum(self.uncertainty.magnitude**2, axis))**0.5
         )
 
+    def _nan_uncertainty(self):
+        # elements that are NaN do not count, nor do their uncertainties
+        return np.where(
+            np.isnan(self.magnitude), 0, self.uncertainty.magnitude)
+
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            (np.nansum(self.uncertainty.magnitude**2, axis))**0.5
+            (np.nansum(self._nan_uncertainty()**2, axis))**0.5
         )
 
     @with_doc(np.ndarray.mean)
@@ -297,7 +302,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nanmean(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude)**2, axis))**0.5
+            ((1.0/size)**2 * np.nansum(self._nan_uncertainty()**2, axis))**0.5
         )
 
     @with_doc(np.sqrt)
-- 
2.43.0


From 39c3433b71d06c85ec0ce63979c41627ffecc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:02 +0000
Subject: [PATCH 55/62] fix: comparing an array with a unit or scalar of
 another dimension gave one truth value

---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index be71be3..fbc8fc2 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -480,7 +480,7 @@ class Quantity(np.ndarray):
             try:
                 other = other.rescale(self._dimensionality).magnitude
             except ValueError:
-                return np.zeros(self.shape, '?')
+                return np.zeros(np.broadcast(self, other).shape, '?')
         return self.magnitude == other
 
     @with_doc(np.ndarray.__ne__)
@@ -489,7 +489,7 @@ class Quantity(np.ndarray):
             try:
                 other = other.rescale(self._dimensionality).magnitude
             except ValueError:
-                return np.ones(self.shape, '?')
+                return np.ones(np.broadcast(self, other).shape, '?')
         return self.magnitude != other
 
     @with_doc(np.ndarray.__ge__)
-- 
2.43.0


From da999b65dcc0a05923241ab2ab57d2982fd68b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 56/62] fix: nansum, nanmean, nanstd, nanmax and nanmin left
 the output quantity in its old units

---
 quantities/quantity.py | 59 ++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index fbc8fc2..7154646 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -542,10 +542,14 @@ class Quantity(np.ndarray):
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nansum(self.magnitude, axis, dtype, out),
-            self.dimensionality
-        )
+        ret = np.nansum(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
@@ -608,10 +612,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return Quantity(
-            np.nanmax(self.magnitude, axis),
-            self.dimensionality
-        )
+        ret = np.nanmax(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
@@ -626,10 +634,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return Quantity(
-            np.nanmin(self.magnitude, axis),
-            self.dimensionality
-        )
+        ret = np.nanmin(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.argmin)
     def argmin(self, axis=None, out=None):
@@ -722,9 +734,14 @@ class Quantity(np.ndarray):
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
-            self.dimensionality)
+        ret = np.nanmean(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
@@ -750,10 +767,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
-        return Quantity(
-            np.nanstd(self.magnitude, axis, dtype, out, ddof),
-            self._dimensionality
-        )
+        ret = np.nanstd(self.magnitude, axis, dtype, None if out is None else out.magnitude, ddof)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.prod)
     def prod(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From 1aa38946831bbebb2b3166cbaba8a78142303489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 57/62] fix: aggregates of uncertain quantities left the output
 quantity without its units and uncertainty

---
 quantities/uncertainquantity.py | 61 ++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index d13adb7..902bf41 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -267,13 +267,19 @@ class UncertainQuantity(Quantity):
             return s.replace('+/-', '±').replace(' sigma', 'σ')
         return s
 
+    def _result(self, ret, uncertainty, out):
+        if out is None:
+            return UncertainQuantity(
+                ret.magnitude, self.dimensionality, uncertainty)
+        # out has the value and the units already
+        if isinstance(out, UncertainQuantity):
+            out._uncertainty = Quantity(uncertainty, self.dimensionality)
+        return out
+
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            self.magnitude.sum(axis, dtype, out),
-            self.dimensionality,
-            (np.sum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        u = (np.sum(self.uncertainty.magnitude**2, axis))**0.5
+        return self._result(super().sum(axis, dtype, out), u, out)
 
     def _nan_uncertainty(self):
         # elements that are NaN do not count, nor do their uncertainties
@@ -282,28 +288,19 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            np.nansum(self.magnitude, axis, dtype, out),
-            self.dimensionality,
-            (np.nansum(self._nan_uncertainty()**2, axis))**0.5
-        )
+        u = (np.nansum(self._nan_uncertainty()**2, axis))**0.5
+        return self._result(super().nansum(axis, dtype, out), u, out)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            self.magnitude.mean(axis, dtype, out),
-            self.dimensionality,
-            ((1.0/np.size(self,axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        u = ((1.0/np.size(self,axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
+        return self._result(super().mean(axis, dtype, out), u, out)
 
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         size = np.sum(~np.isnan(self),axis)
-        return UncertainQuantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
-            self.dimensionality,
-            ((1.0/size)**2 * np.nansum(self._nan_uncertainty()**2, axis))**0.5
-        )
+        u = ((1.0/size)**2 * np.nansum(self._nan_uncertainty()**2, axis))**0.5
+        return self._result(super().nanmean(axis, dtype, out), u, out)
 
     @with_doc(np.sqrt)
     def sqrt(self, out=None):
@@ -323,19 +320,35 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        return self._select(np.argmax, axis)
+        ret = self._select(np.argmax, axis)
+        if out is None:
+            return ret
+        super().max(axis, out)
+        return self._result(ret, ret.uncertainty, out)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return self._select(np.nanargmax, axis)
+        ret = self._select(np.nanargmax, axis)
+        if out is None:
+            return ret
+        super().nanmax(axis, out)
+        return self._result(ret, ret.uncertainty, out)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        return self._select(np.argmin, axis)
+        ret = self._select(np.argmin, axis)
+        if out is None:
+            return ret
+        super().min(axis, out)
+        return self._result(ret, ret.uncertainty, out)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return self._select(np.nanargmin, axis)
+        ret = self._select(np.nanargmin, axis)
+        if out is None:
+            return ret
+        super().nanmin(axis, out)
+        return self._result(ret, ret.uncertainty, out)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-- 
2.43.0


From bf1d6177d918e99ee0728112419cb2ac6a32eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:29 +0000
Subject: [PATCH 58/62] fix: functions without a docstring could not be wrapped
 by quantitizer

---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index deb5081..f71e5ce 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -155,6 +155,6 @@ def quantitizer(base_function,
     # doc string but add an annotation to the beginning
     wrapped_function.__doc__ = (
             "this function has been wrapped to work with Quantities\n"
-            + base_function.__doc__)
+            + (base_function.__doc__ or ''))
 
     return wrapped_function
-- 
2.43.0


From 07de9ee0f6ebb080bea7e158304a504481e9c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:29 +0000
Subject: [PATCH 59/62] fix: floor division in place changed the units of views

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 7154646..dd4146a 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -403,6 +403,11 @@ class Quantity(np.ndarray):
     def __itruediv__(self, other):
         return super().__itruediv__(other)
 
+    @with_doc(np.ndarray.__ifloordiv__)
+    @protected_multiplication
+    def __ifloordiv__(self, other):
+        return super().__ifloordiv__(other)
+
     @with_doc(np.ndarray.__rtruediv__)
     def __rtruediv__(self, other):
         return np.true_divide(other, self)
-- 
2.43.0


From 9e09e142d49726bbc50c34e781de9a0cff8b0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:29 +0000
Subject: [PATCH 60/62] fix: absolute values of uncertain quantities lost the
 uncertainty

---
 quantities/uncertainquantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 902bf41..8485a21 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -157,6 +157,11 @@ class UncertainQuantity(Quantity):
     def __pos__(self):
         return self.copy()
 
+    def __abs__(self):
+        res = super().__abs__()
+        res.uncertainty = self.uncertainty.copy()
+        return res
+
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
         res = super().__truediv__(other)
-- 
2.43.0


From 2276360a39227af0546641ad3fc8e1119563826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:29 +0000
Subject: [PATCH 61/62] fix: results of ufuncs on uncertain quantities had an
 uncertainty in other units

---
 quantities/uncertainquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 8485a21..4af83c3 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -101,6 +101,10 @@ class UncertainQuantity(Quantity):
             if (method and len(args) == 2 and isinstance(args[0], np.generic)
                     and isinstance(args[1], UncertainQuantity)):
                 res._uncertainty = method(args[1], args[0])._uncertainty
+            elif res._uncertainty._dimensionality != res._dimensionality:
+                # new results have no uncertainty, in their own units
+                res._uncertainty = Quantity(
+                    np.zeros(res.shape, res.dtype), res._dimensionality)
         return res
 
     @with_doc(Quantity.__add__, use_header=False)
-- 
2.43.0


From c3d2a4628fe911443fd424b8e92e693d0def1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:53 +0000
Subject: [PATCH 62/62] fix: keep the units of an uncertainty those of the
 value

The uncertainty of an UncertainQuantity was handed out, and stored, as it was:
multiplying it in place by a unit was refused only after its units had changed,
and a quantity assigned as uncertainty took it along when its units were set.
---
 quantities/uncertainquantity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 4af83c3..826106f 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -50,7 +50,8 @@ class UncertainQuantity(Quantity):
 
     @property
     def uncertainty(self):
-        return self._uncertainty
+        # a view of a Quantity, the units of which are protected
+        return self._uncertainty.view()
     @uncertainty.setter
     def uncertainty(self, uncertainty):
         if not isinstance(uncertainty, Quantity):
@@ -61,6 +62,9 @@ class UncertainQuantity(Quantity):
             raise ValueError('data and uncertainty must have identical shape')
         if uncertainty._dimensionality != self._dimensionality:
             uncertainty = uncertainty.rescale(self._dimensionality)
+        else:
+            # not the one of the caller, who may change its units
+            uncertainty = uncertainty.copy()
         self._uncertainty = uncertainty
 
     @property
-- 
2.43.0

