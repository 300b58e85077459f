From 60eef567501e91c68e670c751694971d07ebf1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:27 +0000
Subject: [PATCH 001/185] fix: index with an ellipsis that stands for no
 dimension

---
 src/spectrocrunch/utils/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index f5e290c..1ea635d 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -639,13 +639,13 @@ def expand(index, ndim):
         index
     """
     if isinstance(index, tuple):
-        nindex = sum([i is not np.newaxis for i in index])
+        nindex = sum([i is not np.newaxis and i is not Ellipsis for i in index])
         if nindex > ndim:
             raise IndexError("invalid index")
 
         if Ellipsis in index:
             i = index.index(Ellipsis)
-            index = index[:i] + (slice(None),) * (ndim - nindex + 1) + index[i + 1 :]
+            index = index[:i] + (slice(None),) * (ndim - nindex) + index[i + 1 :]
         elif nindex != ndim:
             index = index + (slice(None),) * (ndim - nindex)
 
-- 
2.43.0


From 7db65975c7e9525432aa05e9f093e01c6bad5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:27 +0000
Subject: [PATCH 002/185] fix: stack indexing with boolean lists

---
 src/spectrocrunch/utils/indexing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index 1ea635d..c4b0c40 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -869,14 +869,14 @@ def decompose_listindexing(index, nlist):
     # Replace bool with int array
     index2 = list(index)
     for i, ind in enumerate(index2):
-        if instance.isboolsequence(index2):
-            index2[i] = np.where(index2)
+        if instance.isboolsequence(ind):
+            index2[i] = np.where(ind)[0].tolist()
 
     indexlist = [None] * nlist
     nindex = len(index)
     tpl = [0] * nindex
     for j in range(nlist):
-        for i, ind in enumerate(index):
+        for i, ind in enumerate(index2):
             if instance.islistgen(ind):
                 tpl[i] = ind[j]
             else:
-- 
2.43.0


From 858a1d5ddc59ae5288b526fc65c6b33bd5e15e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:27 +0000
Subject: [PATCH 003/185] fix: assign arrays to indexed stacks in the axes
 order of the index

---
 src/spectrocrunch/utils/indexing.py | 37 ++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index c4b0c40..0d175ac 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -1,3 +1,4 @@
+import itertools
 import numpy as np
 import numbers
 
@@ -744,6 +745,12 @@ class op_index(object):
             data = data[self.index]
         return data
 
+    def inverse(self, data):
+        """Only when the index adds new axes"""
+        if self.index is not None:
+            data = data[tuple(0 if i is np.newaxis else i for i in self.index)]
+        return data
+
     def __str__(self):
         return "indexing: {}".format(self.index)
 
@@ -758,6 +765,11 @@ class op_transpose(object):
 
         return data
 
+    def inverse(self, data):
+        if self.axes is not None:
+            data = np.transpose(data, np.argsort(self.axes))
+        return data
+
     def __str__(self):
         return "transpose: {}".format(self.axes)
 
@@ -792,6 +804,11 @@ class operators(object):
             data = o(data)
         return data
 
+    def inverse(self, data):
+        for o in reversed(self.ops):
+            data = o.inverse(data)
+        return data
+
 
 def move_axis(ndim, i1, i2):
     """Transpose axes to move axis i1 to i2
@@ -1017,16 +1034,20 @@ def setitem(
     # print 'indexrest:',indexrest
     # print 'axis:',axis
 
-    valueindex = not instance.isscalar(value) and axis is not None
-    if valueindex:
-        valueindex = [slice(None)] * len(shapeafter)
+    if instance.isscalar(value):
+        values = itertools.repeat(value)
     else:
-        valuesel = ops(value)
+        # Axes order of the stacked (not squeezed) data
+        value = np.asarray(value)
+        if shapefull is not None:
+            value = np.broadcast_to(value, shapeafter)
+        value = ops.inverse(value)
+        if axis is None:
+            values = itertools.repeat(value)
+        else:
+            values = np.moveaxis(value, axis, 0)
 
-    for i, (arg, ind) in enumerate(zip(arglist, indexlist)):
-        if valueindex:
-            valueindex[axis] = i
-            valuesel = ops(value[tuple(valueindex)])
+    for arg, ind, valuesel in zip(arglist, indexlist, values):
         if method == "set":
             selector(arg)[ind] = valuesel
         elif method == "add":
-- 
2.43.0


From 7ef4b47cb6fd666ab84771ffcaec745586b543b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 004/185] fix: compare lookup tables of different length or
 units

---
 src/spectrocrunch/utils/lut.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/utils/lut.py b/src/spectrocrunch/utils/lut.py
index 4cccb0d..c4bfa82 100755
--- a/src/spectrocrunch/utils/lut.py
+++ b/src/spectrocrunch/utils/lut.py
@@ -41,10 +41,12 @@ class LUT(Copyable):
             if (self.y is None) ^ (other.y is None):
                 return False
             if self.x is not None:
-                if not all(self.x == other.x):
+                if len(self) != len(other):
+                    return False
+                if not np.all(self.x == other.x):
                     return False
             if self.y is not None:
-                if not all(self.y == other.y):
+                if not np.all(self.y == other.y):
                     return False
             if np.isnan(self.default) ^ np.isnan(other.default):
                 return False
-- 
2.43.0


From e8aeb1de1916fb4302c4ed1f046c5176160ba0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 005/185] fix: same hash for complex and real numbers of equal
 value

---
 src/spectrocrunch/utils/hashing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spectrocrunch/utils/hashing.py b/src/spectrocrunch/utils/hashing.py
index 274d0be..9c41ba6 100755
--- a/src/spectrocrunch/utils/hashing.py
+++ b/src/spectrocrunch/utils/hashing.py
@@ -1,4 +1,5 @@
 import hashlib
+import numbers
 from ..patch import jsonpickle
 from ..utils import instance
 from ..utils import listtools
@@ -48,6 +49,8 @@ def calchash(x, _depth=0):
     elif instance.isstring(x):
         x = [classname_repr_to_hash("string"), string_repr_to_hash(x)]
     elif instance.isnumber(x):
+        if isinstance(x, numbers.Complex) and x.imag == 0:
+            x = x.real
         try:
             intx = int(x)
             if intx == x:
-- 
2.43.0


From f81bb082f5f0df36e6abbb798fb1ebc2930ad03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:37 +0000
Subject: [PATCH 006/185] fix: negative numbers in another base

---
 src/spectrocrunch/utils/integerbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/utils/integerbase.py b/src/spectrocrunch/utils/integerbase.py
index 84e15ee..5669d66 100755
--- a/src/spectrocrunch/utils/integerbase.py
+++ b/src/spectrocrunch/utils/integerbase.py
@@ -41,6 +41,8 @@ class integerbase:
         return "".join(digits)
 
     def base2int(self, x):
+        if x.startswith("-") and "-" not in self.digs:
+            return -self.base2int(x[1:])
         y = x[::-1]
         val = 0
         for i in range(len(y)):
-- 
2.43.0


From 0d7c54f5df8082cd58fde2a75ca5b465e31c620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:37 +0000
Subject: [PATCH 007/185] fix: release the cache when an exception is raised in
 its context

---
 src/spectrocrunch/utils/cache.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/utils/cache.py b/src/spectrocrunch/utils/cache.py
index 6b9a100..cbdaa5c 100644
--- a/src/spectrocrunch/utils/cache.py
+++ b/src/spectrocrunch/utils/cache.py
@@ -50,11 +50,12 @@ class Cache(object):
             self._store[subject] = self._generate_cache(subject, *args, **kwargs)
 
         # Use cache
-        yield
-
-        # Keep cache?
-        if cache:
-            self._store.pop(subject, None)
+        try:
+            yield
+        finally:
+            # Keep cache?
+            if cache:
+                self._store.pop(subject, None)
 
     def getcache(self, subject):
         """Get cache belonging to a subject"""
-- 
2.43.0


From 92e4e15dfdb545c7b1ae1f6191dbd890a163cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:37 +0000
Subject: [PATCH 008/185] fix: restore signal handlers when setup or teardown
 fails

---
 src/spectrocrunch/utils/signalhandling.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/utils/signalhandling.py b/src/spectrocrunch/utils/signalhandling.py
index 61ef022..cc292ee 100755
--- a/src/spectrocrunch/utils/signalhandling.py
+++ b/src/spectrocrunch/utils/signalhandling.py
@@ -81,16 +81,23 @@ class HandleTermination(object):
         self._needcleanup = True
         self._oldhandlers = replace_handlers(self._newhandler, termination_handlers())
         if self._setup is not None:
-            self._setup()
+            try:
+                self._setup()
+            except BaseException:
+                restore_handlers(self._oldhandlers)
+                self._needcleanup = False
+                raise
 
     def _cleanup(self, exc_type, exc_value, exc_traceback):
         """User tear-down and reset signal handlers"""
         ret = 0
         if self._needcleanup:
-            if self._teardown is not None:
-                ret = self._teardown(exc_type, exc_value, exc_traceback)
-            restore_handlers(self._oldhandlers)
-            self._needcleanup = False
+            try:
+                if self._teardown is not None:
+                    ret = self._teardown(exc_type, exc_value, exc_traceback)
+            finally:
+                restore_handlers(self._oldhandlers)
+                self._needcleanup = False
         return ret
 
     def _newhandler(self, signum, frame):
-- 
2.43.0


From b0fbcc5b7fe87c0f7d47fab2dd2af8ea53521931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 009/185] fix: sort and merge empty lists

---
 src/spectrocrunch/utils/listtools.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/spectrocrunch/utils/listtools.py b/src/spectrocrunch/utils/listtools.py
index 6f77c74..f163e21 100755
--- a/src/spectrocrunch/utils/listtools.py
+++ b/src/spectrocrunch/utils/listtools.py
@@ -93,9 +93,8 @@ def sort2lists(list1, list2):
     Returns:
         list,list
     """
-    return tuple(
-        list(t) for t in zip(*sorted(zip(list1, list2), key=operator.itemgetter(0)))
-    )
+    pairs = sorted(zip(list1, list2), key=operator.itemgetter(0))
+    return [x1 for x1, x2 in pairs], [x2 for x1, x2 in pairs]
 
 
 def unique2lists(list1, list2, add=False):
@@ -121,16 +120,12 @@ def unique2lists(list1, list2, add=False):
     else:
         seen = set()
         seen_add = seen.add
-        list1, list2 = tuple(
-            zip(
-                *[
-                    [x1, x2]
-                    for x1, x2 in zip(list1, list2)
-                    if not (x1 in seen or seen_add(x1))
-                ]
-            )
-        )
-        return list(list1), list(list2)
+        pairs = [
+            (x1, x2)
+            for x1, x2 in zip(list1, list2)
+            if not (x1 in seen or seen_add(x1))
+        ]
+        return [x1 for x1, x2 in pairs], [x2 for x1, x2 in pairs]
 
 
 def sumrepeats(labels, counts):
-- 
2.43.0


From a7fb0d49941e0fd11fb3af63d9cf7ecc09390b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:45 +0000
Subject: [PATCH 010/185] fix: powers of linear operators

---
 src/spectrocrunch/math/linop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/math/linop.py b/src/spectrocrunch/math/linop.py
index 4b7501b..7b4a5e1 100755
--- a/src/spectrocrunch/math/linop.py
+++ b/src/spectrocrunch/math/linop.py
@@ -358,11 +358,11 @@ class LinearOperator(Operator):
             if p < 0:
                 raise NotImplementedError
             elif p == 0:
-                ret = self.__class__(0, 1)
+                ret = self.__class__(1, 0)
             else:
-                ret = self.__class__(self.m, self.b)
+                ret = self
                 for _ in range(1, p):
-                    ret *= self.__class__(self.m, self.b)
+                    ret = ret * self
             return ret
         else:
             raise NotImplementedError
-- 
2.43.0


From a0fda10e25247f4d31d837d4fbb3ea1d72f8d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:45 +0000
Subject: [PATCH 011/185] fix: compare all parts of composed operators

---
 src/spectrocrunch/math/linop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/linop.py b/src/spectrocrunch/math/linop.py
index 7b4a5e1..ba3c890 100755
--- a/src/spectrocrunch/math/linop.py
+++ b/src/spectrocrunch/math/linop.py
@@ -88,7 +88,11 @@ class Operator(object):
     def __eq__(self, other):
         if not isinstance(other, self.__class__):
             return False
-        return self._op_name == other._op_name and self._attr_eq(other)
+        return (
+            self._op_name == other._op_name
+            and self._attr_eq(other)
+            and self._opright == other._opright
+        )
 
     def _attr_eq(self, other):
         return True
-- 
2.43.0


From 1808df8443ad042a6a02e1905648083793378c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:45 +0000
Subject: [PATCH 012/185] fix: clip after a constant linear operator

---
 src/spectrocrunch/math/linop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/linop.py b/src/spectrocrunch/math/linop.py
index ba3c890..f264887 100755
--- a/src/spectrocrunch/math/linop.py
+++ b/src/spectrocrunch/math/linop.py
@@ -148,7 +148,8 @@ class CommutativeOperator(Operator):
 
     def __mul__(self, rother):
         if isinstance(rother, LinearOperator):
-            if self._opright is not None:
+            if self._opright is not None or np.any(rother.m == 0):
+                # Operator to be applied in order
                 return super(CommutativeOperator, self).__mul__(rother)
             op = copy.copy(rother)
             op._opright = self._commute_linop(rother) * rother._opright
-- 
2.43.0


From 9d2ec28056b0a83419a9a6be369f9d39909e2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:45 +0000
Subject: [PATCH 013/185] fix: divmod of lazy functions

---
 src/spectrocrunch/math/lazy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/lazy.py b/src/spectrocrunch/math/lazy.py
index 0328d3e..02b76da 100755
--- a/src/spectrocrunch/math/lazy.py
+++ b/src/spectrocrunch/math/lazy.py
@@ -81,7 +81,7 @@ class Function(object):
         return self._binary_op(self, rother, operator.mod, "%")
 
     def __divmod__(self, rother):
-        return self._binary_op(self, rother, operator.divmod, "divmod(", ")")
+        return self._binary_op(self, rother, divmod, "divmod(", ")")
 
     def __add__(self, rother):
         return self._binary_op(self, rother, operator.add, "+")
@@ -108,7 +108,7 @@ class Function(object):
         return self._binary_op(lother, self, operator.mod, "%")
 
     def __rdivmod__(self, lother):
-        return self._binary_op(lother, self, operator.mod, "divmod(", ")")
+        return self._binary_op(lother, self, divmod, "divmod(", ")")
 
     def __radd__(self, lother):
         return self._binary_op(lother, self, operator.add, "+")
-- 
2.43.0


From 3e129cdd58f49dd38d43ec397d0afdb75558400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 014/185] fix: piecewise interpolators return arrays of numbers

---
 src/spectrocrunch/math/interpolate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/math/interpolate.py b/src/spectrocrunch/math/interpolate.py
index 59e7be8..e9920d2 100755
--- a/src/spectrocrunch/math/interpolate.py
+++ b/src/spectrocrunch/math/interpolate.py
@@ -19,7 +19,7 @@ def extrap1d(interpolator):
             return interpolator(x)
 
     def ufunclike(xs):
-        return array(map(pointwise, array(xs)))
+        return array(list(map(pointwise, array(xs))))
 
     return ufunclike
 
@@ -34,7 +34,7 @@ def interp1d_floor(xs, ys):
 
     def ufunclike(x):
         try:
-            return array(map(pointwise, array(x)))
+            return array(list(map(pointwise, array(x))))
         except TypeError:
             return pointwise(x)
 
@@ -51,7 +51,7 @@ def interp1d_ceil(xs, ys):
 
     def ufunclike(x):
         try:
-            return array(map(pointwise, array(x)))
+            return array(list(map(pointwise, array(x))))
         except TypeError:
             return pointwise(x)
 
-- 
2.43.0


From dc75ad62b09f4bf13b5a6ac4000aa3a9df6d3153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 015/185] fix: guess the height of a gaussian at its maximum

---
 src/spectrocrunch/math/fit1d.py | 2 +-
 src/spectrocrunch/math/fit2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/fit1d.py b/src/spectrocrunch/math/fit1d.py
index bc56049..deb4deb 100755
--- a/src/spectrocrunch/math/fit1d.py
+++ b/src/spectrocrunch/math/fit1d.py
@@ -11,7 +11,7 @@ def guess_gaussian(x, data):
     x0i = np.argmax(data)
     x0 = x[x0i]
     sx = np.sqrt(abs((x - x0) ** 2 * data).sum() / data.sum())
-    A = data[x0] * np.sqrt(2 * np.pi) * sx
+    A = data[x0i] * np.sqrt(2 * np.pi) * sx
     return np.array([x0, sx, A], dtype=np.float32)
 
 
diff --git a/src/spectrocrunch/math/fit2d.py b/src/spectrocrunch/math/fit2d.py
index b707ae1..457dd68 100755
--- a/src/spectrocrunch/math/fit2d.py
+++ b/src/spectrocrunch/math/fit2d.py
@@ -31,7 +31,7 @@ def guess_gaussian(x, y, data):
     sy = np.sqrt(abs(xv**2 * yv).sum() / yv.sum())
     rho = 0.0
 
-    A = data[y0, x0] * 2 * np.pi * sx * sy * np.sqrt(1 - rho**2)
+    A = data[y0i, x0i] * 2 * np.pi * sx * sy * np.sqrt(1 - rho**2)
 
     return np.array([x0, y0, sx, sy, rho, A], dtype=np.float32)
 
-- 
2.43.0


From 632883226dd4e77fb8d6c4e943633997e98b3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 016/185] fix: errors on independent variables without given
 variance

---
 src/spectrocrunch/math/fit1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/fit1d.py b/src/spectrocrunch/math/fit1d.py
index deb4deb..d1155fc 100755
--- a/src/spectrocrunch/math/fit1d.py
+++ b/src/spectrocrunch/math/fit1d.py
@@ -140,7 +140,7 @@ def lstsq_std_indep(A, b=None, x=None, vare=None):
     """
     if vare is None:
         vare = np.var(np.dot(A, x) - b, ddof=x.size)
-        vare = np.full(vare, x.size)
+        vare = np.full(b.size, vare)
     return np.sqrt(lstsq(A * A, vare))
 
 
-- 
2.43.0


From e0a3885909750c9aa711394db78d7b85aad2f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 017/185] fix: roundlist uses the existing gcd

---
 src/spectrocrunch/math/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/utils.py b/src/spectrocrunch/math/utils.py
index 92a9629..5b86fee 100755
--- a/src/spectrocrunch/math/utils.py
+++ b/src/spectrocrunch/math/utils.py
@@ -56,7 +56,7 @@ def roundlist(x, max_denominator=1000000):
         for a in x
     ]
     denoms = [a.denominator for a in x]
-    m = functools.reduce(lambda a, b: a * b // fractions.gcd(a, b), denoms)
+    m = functools.reduce(lambda a, b: a * b // math.gcd(a, b), denoms)
     return np.array([int(a * m) for a in x])
 
 
-- 
2.43.0


From 1863695887597f847c0eec41f9ce1bf47c7671ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 018/185] fix: no outliers in an empty array

---
 src/spectrocrunch/math/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/statistics.py b/src/spectrocrunch/math/statistics.py
index aaa480c..16082b8 100755
--- a/src/spectrocrunch/math/statistics.py
+++ b/src/spectrocrunch/math/statistics.py
@@ -12,7 +12,7 @@ def outlierdetection(x, nsigma, pdf="normal", noutliers=0):
     # |(x-median(x))/MAD|> nsigma
 
     if x.size == 0:
-        np.full(1, False, dtype=bool)
+        return np.full(x.shape, False, dtype=bool)
 
     # Deviation form medium
     diff = abs(x - np.median(x))
-- 
2.43.0


From 0e3e66444e35dcee0064cbb708b2625baac62001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 019/185] fix: image coordinates order of the centroid and
 gaussian fit

---
 src/spectrocrunch/math/center.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/center.py b/src/spectrocrunch/math/center.py
index 5d24294..42d0e79 100755
--- a/src/spectrocrunch/math/center.py
+++ b/src/spectrocrunch/math/center.py
@@ -26,7 +26,7 @@ def _centroid(data):
         y, x = np.indices((ny, nx))
         cx = np.sum(x * data) / np.sum(data)
         cy = np.sum(y * data) / np.sum(data)
-        return np.array((cx, cy))
+        return np.array((cy, cx))
 
 
 def _fit(data):
@@ -39,7 +39,7 @@ def _fit(data):
         y, x = np.indices(data.shape)
         p, success = fitgaussian2d(x, y, data)
         if success:
-            ret = p[[0, 1]]
+            ret = p[[1, 0]]
     if success:
         return ret
     else:
-- 
2.43.0


From 301e2fbf3370fc2a0c34a0033d0700ba5e48b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:13 +0000
Subject: [PATCH 020/185] fix: serialize all parameters of a solid state
 detector

---
 src/spectrocrunch/detectors/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 062e6b1..8735c72 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -321,17 +321,25 @@ class SolidState(Material):
     def __getstate__(self):
         state = super(SolidState, self).__getstate__()
         state["ehole"] = self.ehole
+        state["escape"] = self.escape
+        state["pulse_processing_time"] = self.pulse_processing_time
         return state
 
     def __setstate__(self, state):
         super(SolidState, self).__setstate__(state)
         self.ehole = state["ehole"]
+        self.escape = state["escape"]
+        self.pulse_processing_time = state["pulse_processing_time"]
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
             if not (super(SolidState, self).__eq__(other)):
                 return False
-            return self.ehole == other.ehole
+            return (
+                self.ehole == other.ehole
+                and self.escape == other.escape
+                and self.pulse_processing_time == other.pulse_processing_time
+            )
         else:
             return False
 
-- 
2.43.0


From 1a0022050eed7e37e8dd98f91bb1de0e370d4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 021/185] fix: serialize the name of a multilayer and restore
 its cache

---
 src/spectrocrunch/materials/multilayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 4e5e039..3fd84ae 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -152,9 +152,11 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         super(Multilayer, self).__init__(force=True)
 
     def __getstate__(self):
-        return {"layers": self.layers, "geometry": self.geometry}
+        return {"layers": self.layers, "geometry": self.geometry, "name": self.name}
 
     def __setstate__(self, state):
+        cache.Cache.__init__(self, force=True)
+        self.name = state["name"]
         self.layers = state["layers"]
         for layer in self.layers:
             layer.parent = self
-- 
2.43.0


From 91332f8f86ec52b0ee6cee7d747324beb54d6c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 022/185] fix: adding to a dark spectrum returns the spectrum

---
 src/spectrocrunch/sources/emspectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/sources/emspectrum.py b/src/spectrocrunch/sources/emspectrum.py
index 0ce29fa..616af58 100755
--- a/src/spectrocrunch/sources/emspectrum.py
+++ b/src/spectrocrunch/sources/emspectrum.py
@@ -68,6 +68,8 @@ class Dark(Discrete):
 
     def __add__(self, xy):
         logger.warning("No lines can be added to a Dark spectrum")
+        return self.__copy__()
 
     def __iadd__(self, xy):
         logger.warning("No lines can be added to a Dark spectrum")
+        return self
-- 
2.43.0


From d9859c80a74e5a282ff39bc93dc871288e100b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 023/185] fix: XRF geometry without distance function

---
 src/spectrocrunch/geometries/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index 149815a..fe0e918 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -360,7 +360,7 @@ class XRFGeometry(with_metaclass(base.Centric)):
         """Sample-detector distance in cm"""
         calc = self.distancefunc
         if calc is None:
-            return super(XRFGeometry, self).distance
+            return super(XRFGeometry, self).distance_rv
         else:
             return calc(rv=True, **self.distancekwargs)
 
@@ -371,7 +371,7 @@ class XRFGeometry(with_metaclass(base.Centric)):
     @distance.setter
     def distance(self, distance):
         if self.distancefunc is None:
-            super(XRFGeometry, self).distance = distance
+            base.Centric.distance.fset(self, distance)
         else:
             if distance is not None:
                 distance = units.Quantity(distance, "cm")
-- 
2.43.0


From 3772d78d3b418f62ca4c25145bc4ed6607a044ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 024/185] fix: adding a beam filter does not replace an
 existing one

---
 src/spectrocrunch/detectors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 8735c72..40adc6a 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -194,7 +194,7 @@ class Material(Copyable):
         for att in self.attenuators:
             m = self.match_beamfilter(att)
             if m:
-                i = max(i, int(m.groups()[0]))
+                i = max(i, int(m.groups()[0]) + 1)
         return "BeamFilter{}".format(i)
 
     def addtofisx(self, setup, cfg):
-- 
2.43.0


From 4cf94144bdfbaf43edff913225513162add9bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 025/185] fix: detector filters include the atmosphere when
 asked for

---
 src/spectrocrunch/detectors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 40adc6a..bf908a2 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -165,7 +165,7 @@ class Material(Copyable):
         return (
             not self.isbeamfilter(name)
             and name != self.DETMATERIALLABEL
-            and (name != self.ATMOSPHERELABEL or not include_atmosphere)
+            and (name != self.ATMOSPHERELABEL or include_atmosphere)
         )
 
     def beamfilters(self, include_atmosphere=False):
-- 
2.43.0


From 0f25a3690f84283a06cc64ef73a3f791caeecf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 026/185] fix: quantities keep the shape of 0-d arrays

---
 src/spectrocrunch/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/units.py b/src/spectrocrunch/utils/units.py
index 542f8e8..dea4b6e 100755
--- a/src/spectrocrunch/utils/units.py
+++ b/src/spectrocrunch/utils/units.py
@@ -20,7 +20,7 @@ def Quantity(x, units=None, forcequantity=True):
     returns:
         x(num|array|Quantity): magnitude is scalar or array, depending on the input
     """
-    if instance.isarray(x):
+    if instance.isarraynot0(x):
         x = asqarray(x, forcequantity=False)
     if forcequantity:
         if not instance.isquantity(x):
-- 
2.43.0


From 1aab337346a9d59268338d4f5629c5a6a9023dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 027/185] fix: restore data from a flattened state

---
 src/spectrocrunch/patch/jsonpickle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/patch/jsonpickle.py b/src/spectrocrunch/patch/jsonpickle.py
index 05194a3..e83a7b7 100755
--- a/src/spectrocrunch/patch/jsonpickle.py
+++ b/src/spectrocrunch/patch/jsonpickle.py
@@ -40,11 +40,11 @@ def restore(state, **kwargs):
     """
     Args:
         state(dict):
-        **kwargs: see Pickler
+        **kwargs: see Unpickler
     Returns:
         Any: data restored from state
     """
-    return jsonpickle.Unpickler.restore(state, reset=True, **kwargs)
+    return jsonpickle.Unpickler(**kwargs).restore(state, reset=True)
 
 
 class QuantityHandler(BaseHandler):
-- 
2.43.0


From dc692b92f915cd913017404c3061d1ae80a176ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 028/185] fix: serialize the simple calibration setting of a
 diode

---
 src/spectrocrunch/detectors/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index b5d24bd..c2985c6 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -275,7 +275,7 @@ class PNdiode(with_metaclass(base.SolidState)):
         state["optics"] = self.optics
         if self.secondarytarget is not None:
             state["secondarytarget"] = self.secondarytarget
-        state["simplecalibration"] = self.simplecalibration
+        state["simplecalibration"] = self._simplecalibration
         state["_lut_chargepersamplephoton"] = self._lut_chargepersamplephoton
         return state
 
-- 
2.43.0


From d1ff4287e0d6d257c859d702231fd09669a88b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 029/185] fix: a deserialized diode keeps its thickness and
 ehole

---
 src/spectrocrunch/detectors/diode.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index c2985c6..7305096 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1687,12 +1687,12 @@ class CalibratedPNdiode(PNdiode):
         self.menergy = energy
         self.mresponse = response
         self.fitresponse = fitresponse
-        self._init_response()
+        self._init_response(fitresponse)
 
-    def _init_response(self):
+    def _init_response(self, fitresponse):
         energy = self.menergy
         response = self.mresponse.to("A/W")  # or e/eV
-        if self.fitresponse:
+        if fitresponse:
             self.fit_spectral_responsivity(energy, response)
         self.finterpol = scipy.interpolate.interp1d(
             energy, response, bounds_error=False, fill_value=np.nan
@@ -1712,7 +1712,8 @@ class CalibratedPNdiode(PNdiode):
         self.menergy = state["menergy"]
         self.mresponse = state["mresponse"]
         self.fitresponse = state["fitresponse"]
-        self._init_response()
+        # Thickness and Ehole are part of the state
+        self._init_response(False)
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
-- 
2.43.0


From b30159634cb2a2ec0eb71a6cd6ebc4848215f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:10 +0000
Subject: [PATCH 030/185] fix: same hash for numpy booleans and other numbers
 of equal value

---
 src/spectrocrunch/utils/hashing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/hashing.py b/src/spectrocrunch/utils/hashing.py
index 9c41ba6..224e6e8 100755
--- a/src/spectrocrunch/utils/hashing.py
+++ b/src/spectrocrunch/utils/hashing.py
@@ -1,5 +1,6 @@
 import hashlib
 import numbers
+import numpy as np
 from ..patch import jsonpickle
 from ..utils import instance
 from ..utils import listtools
@@ -48,7 +49,7 @@ def calchash(x, _depth=0):
         x = [class_repr_to_hash(x)]
     elif instance.isstring(x):
         x = [classname_repr_to_hash("string"), string_repr_to_hash(x)]
-    elif instance.isnumber(x):
+    elif instance.isnumber(x) or isinstance(x, np.bool_):
         if isinstance(x, numbers.Complex) and x.imag == 0:
             x = x.real
         try:
-- 
2.43.0


From 8099504c3afa6c2bb04a16e86c5dbf2959ef5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:10 +0000
Subject: [PATCH 031/185] fix: plot the points of a lookup table which is not
 empty

---
 src/spectrocrunch/utils/lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/lut.py b/src/spectrocrunch/utils/lut.py
index c4bfa82..9a6ebaa 100755
--- a/src/spectrocrunch/utils/lut.py
+++ b/src/spectrocrunch/utils/lut.py
@@ -185,7 +185,7 @@ class LUT(Copyable):
         return self
 
     def plot(self, **kwargs):
-        if self.isempty():
+        if not self.isempty():
             x = self.x.magnitude
             y = self.y.magnitude
             plt.plot(x, y, **kwargs)
-- 
2.43.0


From 0ee93c1a954b9b1f29ed835147a8ac5e99e3b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:03 +0000
Subject: [PATCH 032/185] fix: flat field from flux multiplies with the frame
 time

---
 src/spectrocrunch/simulation/calcnoise.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/simulation/calcnoise.py b/src/spectrocrunch/simulation/calcnoise.py
index 2087f2d..ae7e64d 100755
--- a/src/spectrocrunch/simulation/calcnoise.py
+++ b/src/spectrocrunch/simulation/calcnoise.py
@@ -216,7 +216,13 @@ class id21_ffsetup(object):
 
     def flatfromflux(self, flux, energy, tframe, nframe):
         return self.propagate(
-            flux, energy, tframe, nframe, samplein=False, withnoise=False, forward=True
+            flux * tframe,
+            energy,
+            tframe,
+            nframe,
+            samplein=False,
+            withnoise=False,
+            forward=True,
         )
 
     @staticmethod
-- 
2.43.0


From 516fc787840704a6590e7c6f0e5dce3759d30362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 033/185] fix: propagate the noise of arrays of photon numbers

---
 src/spectrocrunch/detectors/area.py          | 2 +-
 src/spectrocrunch/materials/lenses.py        | 2 +-
 src/spectrocrunch/materials/multilayer.py    | 2 +-
 src/spectrocrunch/materials/scintillators.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/detectors/area.py b/src/spectrocrunch/detectors/area.py
index 15659d4..55979ea 100755
--- a/src/spectrocrunch/detectors/area.py
+++ b/src/spectrocrunch/detectors/area.py
@@ -111,7 +111,7 @@ class AreaDetector(with_metaclass()):
         """
         qe = visspectrum.sample(self.qe).to("dimensionless").magnitude
         N, qe = self.propagate_broadcast(N, qe)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             darkcurrent = noisepropagation.poisson(self.darkcurrent)
             readoutnoise = noisepropagation.randomvariable(0, self.readoutnoise)
 
diff --git a/src/spectrocrunch/materials/lenses.py b/src/spectrocrunch/materials/lenses.py
index 7427445..3a6b5dd 100755
--- a/src/spectrocrunch/materials/lenses.py
+++ b/src/spectrocrunch/materials/lenses.py
@@ -127,7 +127,7 @@ class Lens(with_metaclass()):
         probsuccess = self.transmission(visspectrum)
         N, probsuccess = self.propagate_broadcast(N, probsuccess)
         lightyield = self.lightyield(nrefrac, source=source)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             if forward:
                 proc1 = noisepropagation.bernouilli(probsuccess)
                 proc2 = noisepropagation.poisson(lightyield)
diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 3fd84ae..e250777 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -1768,7 +1768,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         else:
             raise RuntimeError("{} not implemented yet".format(interaction))
         N, probsuccess = self.propagate_broadcast(N, probsuccess)
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             process = noisepropagation.bernouilli(probsuccess)
             Nout = noisepropagation.compound(N, process, forward=forward)
         else:
diff --git a/src/spectrocrunch/materials/scintillators.py b/src/spectrocrunch/materials/scintillators.py
index d132d1a..90cc9ed 100755
--- a/src/spectrocrunch/materials/scintillators.py
+++ b/src/spectrocrunch/materials/scintillators.py
@@ -102,7 +102,7 @@ class Scintillator(with_metaclass()):
 
         N, probsuccess, gain = self.propagate_broadcast(N, probsuccess, gain)
 
-        if instance.isuscalar(N):
+        if instance.isuscalar(N) or instance.isuarray(N):
             if forward:
                 proc1 = noisepropagation.bernouilli(probsuccess)
                 proc2 = noisepropagation.poisson(gain)
-- 
2.43.0


From ef23cb0042bd55b9359ed645fdd05eba2ddf162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 034/185] fix: readonly returns the path

---
 src/spectrocrunch/io/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 42d3e0c..766105f 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -256,7 +256,7 @@ class Path(File):
 
     def readonly(self, **kwargs):
         kwargs["mode"] = "r"
-        self.detach(**kwargs)
+        return self.detach(**kwargs)
 
     def sibling(self, path):
         if isinstance(path, Path):
-- 
2.43.0


From 8e5e52690a53fa0cdb27d8e8e29700cfac850fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 035/185] fix: in-place joining of paths

---
 src/spectrocrunch/io/fs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 766105f..267e84f 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -324,7 +324,8 @@ class Path(File):
         return self[other]
 
     def __iadd__(self, other):
-        self.path += other
+        self.path = self.join(self.path, other)
+        return self
 
     def __getitem__(self, value):
         # Do not use self.location in self.join
-- 
2.43.0


From cbd89426750fe75fb8fc916ab29e221261d57990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 036/185] fix: status of local files

---
 src/spectrocrunch/io/fs.py      | 2 +-
 src/spectrocrunch/io/localfs.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 267e84f..3c71b0d 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -661,7 +661,7 @@ class Path(File):
 
     def get_stat(self, key, default=None, follow=True):
         try:
-            return self.stats(follow=follow).get(key, default=default)
+            return self.stats(follow=follow).get(key, default)
         except Missing:
             return default
 
diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index 99bb4a2..89d5f8f 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -211,11 +211,12 @@ class Path(fs.Path):
         except OSError as err:
             if err.errno == errno.ENOENT:
                 raise fs.Missing(self.location)
+            raise
 
         ret = {k[3:]: getattr(ret, k) for k in dir(ret) if k.startswith("st_")}
 
         for k, v in ret.items():
-            if "time" in k:
+            if k.endswith("time"):
                 ret[k] = datetime.fromtimestamp(v)
 
         # ret['permissions'] = oct(ret.pop('mode') & 0o777)
-- 
2.43.0


From ecb9ca1196523d39d1d71dc0cd651fc7c52426ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:59 +0000
Subject: [PATCH 037/185] fix: copy local links

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index 89d5f8f..9d0897b 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -171,7 +171,7 @@ class Path(fs.Path):
         dest = self._copy_move_prepare(dest, force=force)
         if self.islink and not follow:
             # just copy the link
-            dest.link(self.linkdest)
+            dest.link(self.linkdest())
         else:
             # TODO: missing option: expand softlinks when pointing outside
             #       the tree being copied.
-- 
2.43.0


From d3a5a0e4f01f509f6b0f215a758b8c5aa5101ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:59 +0000
Subject: [PATCH 038/185] fix: do not remove data when copy or move cannot be
 done

---
 src/spectrocrunch/io/fs.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 3c71b0d..222484c 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -368,12 +368,22 @@ class Path(File):
 
     def _copy_move_prepare(self, dest, force=False, rename=False):
         """Called by `move` and `copy`"""
+        if not self.lexists:
+            raise Missing(self.location)
         dest = self.sibling(dest)
         if dest.isdir and not rename:
             dest = dest[self.name]
+        if dest in list(self.iterup):
+            # Do not remove the source
+            raise AlreadyExists(dest.location)
+        if self in list(dest.iterup):
+            raise FileSystemException(
+                "{} is part of {}".format(dest.location, self.location)
+            )
         if dest.exists:
             if force:
-                dest.remove(recursive=True)
+                # Do not remove the destination of a link
+                dest.remove(recursive=not dest.islink)
             else:
                 raise AlreadyExists(dest.location)
         d = dest.parent
-- 
2.43.0


From d5768d512ba3db89d8b3fbdb48bb301bdf2c6bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:59 +0000
Subject: [PATCH 039/185] fix: find paths recursively

---
 src/spectrocrunch/io/fs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 222484c..b90113f 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -751,15 +751,23 @@ class Path(File):
             match(str|callable): regex when str
         """
         if instance.isstring(match):
-            match = re.compile(match).match
+            pattern = re.compile(match)
+
+            def match(path):
+                return pattern.match(path.name)
+
         for path in self:
             if path.isfile and not files:
                 continue
             if match(path):
                 yield path
-            if recursive and path.isdir and _level > depth:
+            if path.isdir and (recursive or _level < depth):
                 for sub in path.find(
-                    match, recursive=True, depth=depth, _level=_level + 1
+                    match,
+                    recursive=recursive,
+                    files=files,
+                    depth=depth,
+                    _level=_level + 1,
                 ):
                     yield sub
 
-- 
2.43.0


From 10c4d4f3a4f39e790bba4794713a9574517d99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:11 +0000
Subject: [PATCH 040/185] fix: paths in a missing HDF5 file do not exist

---
 src/spectrocrunch/io/h5fs.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index ec2d9bf..952a072 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -474,7 +474,7 @@ class Path(fs.Path):
         try:
             with self.h5open(mode="r") as f:
                 return self.path in f
-        except IOError:
+        except (IOError, fs.FileSystemException):
             return False
 
     @property
@@ -483,7 +483,7 @@ class Path(fs.Path):
             with self.h5open(mode="r") as f:
                 node = f.get(self.path, default=None)
                 return isinstance(node, h5py.Group)
-        except IOError:
+        except (IOError, fs.FileSystemException):
             return False
 
     @property
@@ -492,7 +492,7 @@ class Path(fs.Path):
             with self.h5open(mode="r") as f:
                 node = f.get(self.path, default=None)
                 return isinstance(node, h5py.Dataset)
-        except IOError:
+        except (IOError, fs.FileSystemException):
             return False
 
     @property
@@ -691,11 +691,14 @@ class Path(fs.Path):
 
     @property
     def islink(self):
-        with self.h5open(mode="r") as f:
-            if is_link(f, self.path):
-                return True
-            else:
-                return is_reference(f, self.path)
+        try:
+            with self.h5open(mode="r") as f:
+                if is_link(f, self.path):
+                    return True
+                else:
+                    return is_reference(f, self.path)
+        except fs.Missing:
+            return False
 
     @property
     def is_internal_link(self):
-- 
2.43.0


From bb8d0b3299b7e89dd121b2be187adf2aa448ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:11 +0000
Subject: [PATCH 041/185] fix: pop attributes of HDF5 nodes

---
 src/spectrocrunch/io/h5fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 952a072..89890e5 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -637,7 +637,7 @@ class Path(fs.Path):
         if not follow:
             raise ValueError("Hdf5 links do not have attributes themselves")
         try:
-            with self.open(mode="r") as node:
+            with self.open(mode="r+") as node:
                 return node.attrs.pop(instance.asunicode(key), default=default)
         except fs.Missing:
             return default
-- 
2.43.0


From 78a81b4bd3a5d7585e62cf3a3ec34350db8b806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:11 +0000
Subject: [PATCH 042/185] fix: keep the type of empty arrays

---
 src/spectrocrunch/utils/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/utils/instance.py b/src/spectrocrunch/utils/instance.py
index c96feb5..d73d1c9 100755
--- a/src/spectrocrunch/utils/instance.py
+++ b/src/spectrocrunch/utils/instance.py
@@ -175,6 +175,8 @@ def isstringarray(x):
         return False
     if isarray0(x):
         return isstring(x.item())
+    elif isnparray(x) and not x.size:
+        return x.dtype.kind in "SUO"
     else:
         return all(isstring(y) for y in x)
 
-- 
2.43.0


From be47fdef4b08ba66fd6399bbcbc8b5702e009c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:47 +0000
Subject: [PATCH 043/185] fix: relink copied and moved HDF5 links only

---
 src/spectrocrunch/io/h5fs.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 89890e5..9f1f50a 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -563,6 +563,7 @@ class Path(fs.Path):
                     dest = self._move_copyrenamedel(dest)
             else:
                 dest = self._move_copyrenamedel(dest)
+                return self.factory(dest)
             dest._copymove_relink(self, dest)
             return self.factory(dest)
 
@@ -571,13 +572,24 @@ class Path(fs.Path):
         # that point to a destination below self (including self)
         if self.is_external_link:
             return
-        for path in self.listdir():
-            path._copymove_relink(source, dest)
         if self.islink:
-            linkdest = self.linkdest()
+            # The nodes below a link to a group are not copied or moved
+            with self.h5open(mode="r") as f:
+                _, path = dereference_link(f, self.path)
+            if path is None:
+                path = self.linkdest().path
+            elif not self.isabs(path):
+                return
+            # The link refers to the source device
+            linkdest = source.factory(
+                "{}{}{}".format(source.device, source.devsep, path)
+            )
             if source.common(linkdest) == source:
                 self.remove()
                 self.link(dest[source.relpath(linkdest.path)])
+        else:
+            for path in self.listdir():
+                path._copymove_relink(source, dest)
 
     def copy(self, dest, force=False, follow=False, dereference=False):
         with self.h5open() as fsource:
-- 
2.43.0


From 81b28a36c9c61189f7ff947b2bf4bc8badb31e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:47 +0000
Subject: [PATCH 044/185] fix: paths below a broken HDF5 link do not exist

---
 src/spectrocrunch/io/h5fs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 9f1f50a..282b364 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -465,7 +465,8 @@ class Path(fs.Path):
                         return dest.exists
                 else:
                     return self.path in f
-        except (IOError, fs.FileSystemException):
+        except (IOError, RuntimeError, fs.FileSystemException):
+            # RuntimeError: below a broken link
             return False
 
     @property
@@ -474,7 +475,8 @@ class Path(fs.Path):
         try:
             with self.h5open(mode="r") as f:
                 return self.path in f
-        except (IOError, fs.FileSystemException):
+        except (IOError, RuntimeError, fs.FileSystemException):
+            # RuntimeError: below a broken link
             return False
 
     @property
-- 
2.43.0


From 75f53c169d40d7230e1bffc681567b2fe3f24b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 045/185] fix: data group without signals

---
 src/spectrocrunch/io/nxfs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 29ca172..003e154 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -791,7 +791,9 @@ class _NXdata(_NXPath):
     @property
     def signals(self):
         with self._verify():
-            yield self.signal
+            signal = self.signal
+            if signal is not None:
+                yield signal
             for signal in self.auxiliary_signals:
                 yield signal
 
@@ -914,7 +916,10 @@ class _NXdata(_NXPath):
             self[name].remove()
             with self.open():
                 signals = self.pop_stat("auxiliary_signals")
-                if signals is not None:
+                if signals is None:
+                    if self.get_stat("signal") == name:
+                        self.pop_stat("signal")
+                else:
                     if self.signal.name == name:
                         aux = signals[:-1]
                         if aux.size:
-- 
2.43.0


From a61b3ccfd867814ace857ac4af3208a82bc8fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 046/185] fix: do not modify the attributes and files of the
 caller

---
 src/spectrocrunch/io/nxfs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 003e154..3749e54 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -71,6 +71,8 @@ class Path(h5fs.Path):
     def mkfile(self, data=None, units=None, attributes=None, **params):
         if attributes is None:
             attributes = {}
+        else:
+            attributes = dict(attributes)
         if instance.isquantity(data):
             if units is not None:
                 data = data.to(units)
@@ -513,8 +515,7 @@ class Path(h5fs.Path):
         _ = self.nxentry(**openparams)
         if definition is None:
             definition = name
-        if not nxfiles:
-            nxfiles = {}
+        nxfiles = dict(nxfiles) if nxfiles else {}
         nxfiles.update(self._nxfiles_nxentry())
         nxfiles["definition"] = nxfiles.get("definition", definition)
         return self._init_nxclass(
-- 
2.43.0


From 1a05cb33f3e9a3537ba0d87df44c42f3d134e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 047/185] fix: unlock and match names

---
 src/spectrocrunch/io/target.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/target.py b/src/spectrocrunch/io/target.py
index 64112b9..fdcaab8 100755
--- a/src/spectrocrunch/io/target.py
+++ b/src/spectrocrunch/io/target.py
@@ -75,7 +75,7 @@ class Name(object):
         self.locked = True
 
     def unlock(self):
-        self.locked = True
+        self.locked = False
 
     def __repr__(self):
         return repr(str(self))
@@ -97,7 +97,7 @@ class Name(object):
 
     @property
     def matchfunc(self):
-        return match(str(str))
+        return match(str(self))
 
 
 def calc_checksum(dependencies, parameters, alreadyhash=False):
-- 
2.43.0


From c84aa90fb850427b71ca5833edb56d9225505c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 048/185] fix: compare existing axes in the same units

---
 src/spectrocrunch/io/nxfs.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 3749e54..43206b3 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -7,6 +7,7 @@ import logging
 import dateutil.tz
 import dateutil.parser
 import traceback
+import pint.errors as pinterrors
 from importlib.metadata import version as get_version
 
 from . import fs
@@ -1044,7 +1045,7 @@ class _NXcollection(_NXPath):
             axis = self[name]
             if axis.exists:
                 if value is not None:
-                    if not self._axis_equal(axis, value):
+                    if not self._axis_equal(axis, self._axis_value(axis, value, units)):
                         raise ValueError("Axis {} already exists".format(name))
             else:
                 if value is None:
@@ -1074,6 +1075,20 @@ class _NXcollection(_NXPath):
                 self.updated()
             return axis
 
+    @staticmethod
+    def _axis_value(axis, value, valueunits):
+        """Values in the units of an existing axis"""
+        if isinstance(value, h5fs.Path):
+            return value
+        if valueunits and not instance.isquantity(value):
+            value = units.Quantity(np.asarray(value), valueunits)
+        if instance.isquantity(value):
+            try:
+                value = value.to(axis.get_stat("units", "dimensionless")).magnitude
+            except pinterrors.DimensionalityError:
+                return None
+        return value
+
     def get_axis(self, name):
         with self._verify():
             axis = self[name]
-- 
2.43.0


From 97bd171e651d6ddbab9b07f138a25bb83b111099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 049/185] fix: changing the units of an axis does not change
 other axes

---
 src/spectrocrunch/process/axis.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index dd7b2fa..9708e20 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -85,7 +85,13 @@ class Axis(object):
     def units(self, value):
         if self.type != "quantitative":
             raise RuntimeError("{} axis has no units".format(self.type))
-        self.values.ito(value)
+        self._convert_title()
+        self._values = self._values.to(value)
+
+    def _convert_title(self):
+        """Remove the units from the title (before changing the units)"""
+        if self._title:
+            self._title = self.title_nounits
 
     @property
     def unit_suffix(self):
@@ -113,7 +119,7 @@ class Axis(object):
             title = self.name
         suffix = self.unit_suffix
         if suffix:
-            title = title.replace(suffix, "")
+            title = title.replace(suffix, "").strip()
         return title
 
     @property
@@ -505,10 +511,11 @@ class _AxisRegular(Axis):
 
     @units.setter
     def units(self, value):
-        self.values.ito(value)
-        self.start.ito(value)
-        self.end.ito(value)
-        self.stepsize.ito(value)
+        self._convert_title()
+        self._values = self._values.to(value)
+        self._start = self._start.to(value)
+        self._end = self._end.to(value)
+        self._stepsize = self._stepsize.to(value)
 
     def __repr__(self):
         return "{}(start={:~},end={:~},step={:~},size={})".format(
@@ -635,6 +642,17 @@ class AxisSegments(Axis):
     def end(self):
         return self.limits[-1]
 
+    @property
+    def units(self):
+        return self._values.units
+
+    @units.setter
+    def units(self, value):
+        self._convert_title()
+        self._values = self._values.to(value)
+        self._limits = self._limits.to(value)
+        self._stepsizes = self._stepsizes.to(value)
+
     @property
     def limits(self):
         return self._limits
-- 
2.43.0


From 05cc70d53523896383de8049f2258f55c352eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 050/185] fix: changing the limits of a regular axis keeps its
 number of values

---
 src/spectrocrunch/process/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 9708e20..481add6 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -528,11 +528,11 @@ class AxisRegular(_AxisRegular):
 
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.end, self.size
+        self.values = value, self.end, self.nsteps
 
     @_AxisRegular.end.setter
     def end(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
@@ -563,11 +563,11 @@ class AxisRegularInc(_AxisRegular):
 
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.stepsize, self.size
+        self.values = value, self.stepsize, self.nsteps
 
     @_AxisRegular.stepsize.setter
     def stepsize(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
-- 
2.43.0


From 9ff03eb63f7daa5f9496184b5229d981ca3a37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 051/185] fix: last step size of a segmented axis

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 481add6..a6d1cb4 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -690,7 +690,7 @@ class AxisSegments(Axis):
 
     @property
     def end_stepsize(self):
-        return self.stepsizes[1]
+        return self.stepsizes[-1]
 
     @property
     def nsteps(self):
-- 
2.43.0


From 1ff557344bf15316af0ad2bc6e798a4d6aedeed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 052/185] fix: compare nominal axes

---
 src/spectrocrunch/process/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index a6d1cb4..c1a98af 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -211,8 +211,8 @@ class Axis(object):
     def __eq__(self, other):
         if self.size != other.size:
             return False
-        if self.type != "quantitative":
-            return all(self.values == other.values)
+        if self.type != "quantitative" or other.type != "quantitative":
+            return list(self.values) == list(other.values)
         # threshold = max(self.precision, other.precision.to(self.units)).magnitude
         threshold = self.precision.magnitude
         values = self.magnitude
-- 
2.43.0


From ad25b123301dfceadea25e10739d41db80bd5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 053/185] fix: simplified axes represent the values within
 their precision

---
 src/spectrocrunch/process/axis.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index c1a98af..3214eea 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -347,9 +347,11 @@ class Axis(object):
             else:
                 diff = abs(np.diff(np.diff(self.magnitude)))
                 if max(diff) <= self.precision.magnitude:
-                    return AxisRegular(
+                    axis = AxisRegular(
                         self.start, self.end, self.size - 1, **self.initkwargs
                     )
+                    if self._isrepresentedby(axis):
+                        return axis
                 else:
                     n = len(self)
                     ind = np.array(
@@ -362,10 +364,19 @@ class Axis(object):
                         # Limit the number of segments to 1/3 of the number of values
                         limits = self.values[ind]
                         nsteps = np.diff(ind)
-                        return AxisSegments(limits, nsteps, **self.initkwargs)
+                        axis = AxisSegments(limits, nsteps, **self.initkwargs)
+                        if self._isrepresentedby(axis):
+                            return axis
 
         return self
 
+    def _isrepresentedby(self, axis):
+        """Same values within the precision (and rounding errors)"""
+        values = self.magnitude
+        threshold = self.precision.magnitude
+        threshold = threshold + 8 * np.finfo(float).eps * np.max(np.abs(values))
+        return np.all(np.abs(axis.magnitude - values) <= threshold)
+
     @property
     def start_stepsize(self):
         return self[1] - self[0]
-- 
2.43.0


From 79d101602713c02e90808b9e3db30eef9dd50369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 054/185] fix: locate coordinates on an axis of unsigned
 integers

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 3214eea..7c11867 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -9,7 +9,7 @@ def arg_closest_num(arr, value, check):
     if check(value):
         return value
     else:
-        return np.argmin(np.abs(arr - value))
+        return np.argmin(np.abs(np.subtract(arr, value, dtype=float)))
 
 
 def arg_closest_string(arr, value, check):
-- 
2.43.0


From e255a114449fcd68041e13252bcc00a8247daaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 055/185] fix: step sizes of a segmented axis without units

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 7c11867..89b0fb4 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -681,7 +681,7 @@ class AxisSegments(Axis):
         limits = self.limits
 
         u = units.Quantity(values[0]).units
-        if u == "dimensionless":
+        if units.Quantity(values[0]).dimensionless:
             u = limits.units
 
         def func(x):
-- 
2.43.0


From edc9f83747e11bcbc64927d77756b46b04b5ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 056/185] fix: crop axes with a variable step size

---
 src/spectrocrunch/process/axis.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 89b0fb4..86111e6 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -402,7 +402,7 @@ class Axis(object):
         """
         x = self.magnitude
         stepsize = self.start_stepsize
-        newstart = units.Quantity(newstart, units=self.units)
+        newstart = units.Quantity(newstart, units=self.units).to(self.units)
         oldstart = self.start
         nstepsadd = (oldstart - newstart) / stepsize
         nstepsadd = int(np.ceil(nstepsadd.to("dimensionless").magnitude))
@@ -410,9 +410,16 @@ class Axis(object):
             add = oldstart - np.arange(1, nstepsadd + 1)[::-1] * stepsize
             x = np.append(add.magnitude, x)
         elif nstepsadd < 0:
-            x = x[-nstepsadd:]
+            sign = np.sign(stepsize.magnitude)
+            nafter = sign * (newstart - self.end) / abs(self.end_stepsize)
+            if nafter.to("dimensionless").magnitude >= 1:
+                return None
+            inside = np.where(sign * x <= sign * newstart.magnitude)[0]
+            x = x[inside[-1] :]
         if len(x):
-            return self.factory(units.Quantity(x, units=self.units))
+            return self.factory(
+                units.Quantity(x, units=self.units), **self.initkwargs
+            )
         else:
             return None
 
@@ -427,7 +434,7 @@ class Axis(object):
         """
         x = self.magnitude
         stepsize = self.end_stepsize
-        newend = units.Quantity(newend, units=self.units)
+        newend = units.Quantity(newend, units=self.units).to(self.units)
         oldend = self.end
         nstepsadd = (newend - oldend) / stepsize
         nstepsadd = int(np.ceil(nstepsadd.to("dimensionless").magnitude))
@@ -435,9 +442,16 @@ class Axis(object):
             add = oldend + np.arange(1, nstepsadd + 1) * stepsize
             x = np.append(x, add.magnitude)
         elif nstepsadd < 0:
-            x = x[:nstepsadd]
+            sign = np.sign(stepsize.magnitude)
+            nbefore = sign * (self.start - newend) / abs(self.start_stepsize)
+            if nbefore.to("dimensionless").magnitude >= 1:
+                return None
+            inside = np.where(sign * x >= sign * newend.magnitude)[0]
+            x = x[: inside[0] + 1]
         if len(x):
-            return self.factory(units.Quantity(x, units=self.units))
+            return self.factory(
+                units.Quantity(x, units=self.units), **self.initkwargs
+            )
         else:
             return None
 
-- 
2.43.0


From d0c92cb71b7352ea66218c3af9e59541c7f1c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 057/185] fix: interpolation coordinates of an axis with one
 value

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 86111e6..61b3ea3 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -301,7 +301,7 @@ class Axis(object):
         xold = self.magnitude
         xnew = self._extract_magnitude(values)
         if self.type == "quantitative":
-            if xold[1] < xold[0]:
+            if len(xold) > 1 and xold[1] < xold[0]:
                 # Reverse axis
                 m = np.nanmax(xold)
                 xold = m - xold
-- 
2.43.0


From d7af26d1a4011f72e8951bd38a3d1491290c4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 058/185] fix: step sizes of a decreasing axis of unsigned
 integers

---
 src/spectrocrunch/process/axis.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 61b3ea3..64f3e9e 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -345,7 +345,7 @@ class Axis(object):
             elif self.size == 2:
                 return AxisRegular(self.start, self.end, 1, **self.initkwargs)
             else:
-                diff = abs(np.diff(np.diff(self.magnitude)))
+                diff = abs(np.diff(np.diff(self._float_values)))
                 if max(diff) <= self.precision.magnitude:
                     axis = AxisRegular(
                         self.start, self.end, self.size - 1, **self.initkwargs
@@ -379,11 +379,16 @@ class Axis(object):
 
     @property
     def start_stepsize(self):
-        return self[1] - self[0]
+        return units.Quantity(np.diff(self._float_values[:2])[0], units=self.units)
 
     @property
     def end_stepsize(self):
-        return self[-1] - self[-2]
+        return units.Quantity(np.diff(self._float_values[-2:])[0], units=self.units)
+
+    @property
+    def _float_values(self):
+        """Differences of unsigned integers can be negative"""
+        return np.asarray(self.magnitude, dtype=float)
 
     @classmethod
     def factory(cls, data, **kwargs):
-- 
2.43.0


From b6466774cf841a9d93bf68311548976888ddb2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 059/185] fix: step size of a regular axis with unsigned
 integer limits

---
 src/spectrocrunch/process/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 64f3e9e..8c90ff1 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -582,7 +582,9 @@ class AxisRegular(_AxisRegular):
         if self.size == 1:
             self._stepsize = units.Quantity(0, units=u).to(u)
         else:
-            self._stepsize = (self.end - self.start) / self.nsteps
+            a, b = self.start.magnitude, self.end.magnitude
+            step = np.subtract(b, a, dtype=float) / self.nsteps
+            self._stepsize = units.Quantity(step, units=u)
         self._values = units.Quantity(
             np.linspace(self.start.magnitude, self.end.magnitude, self.size), units=u
         )
-- 
2.43.0


From eceabef300fca84573f0c106c02603d88e140b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:31 +0000
Subject: [PATCH 060/185] fix: title of an axis which is converted more than
 once

---
 src/spectrocrunch/process/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 8c90ff1..e2a432c 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -334,7 +334,9 @@ class Axis(object):
     def to(self, u):
         if self.type != "quantitative":
             raise RuntimeError("{} axis has no units".format(self.type))
-        ret = self.__class__(*self.initargs, **self.initkwargs)
+        initkwargs = self.initkwargs
+        initkwargs["title"] = self.title_nounits
+        ret = self.__class__(*self.initargs, **initkwargs)
         ret.units = u
         return ret
 
-- 
2.43.0


From 68644d134aab9803e08c7d495a0c2557068e8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 061/185] fix: convert the units of an edited axis

---
 src/spectrocrunch/process/axis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index e2a432c..99c1b55 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -55,6 +55,7 @@ class Axis(object):
         if self.type == "quantitative":
             values = units.Quantity(values, units=self.units)
             self.values[index] = values
+            self._params = self._values
         else:
             self.values.iloc[index] = values
 
-- 
2.43.0


From c217b3346db368c86e0c697e90cffa6483bc9659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 062/185] fix: simplify an axis with two values of which one is
 NaN

---
 src/spectrocrunch/process/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 99c1b55..3d20013 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -346,7 +346,9 @@ class Axis(object):
             if self.size == 1:
                 return AxisNumber(self.start, **self.initkwargs)
             elif self.size == 2:
-                return AxisRegular(self.start, self.end, 1, **self.initkwargs)
+                axis = AxisRegular(self.start, self.end, 1, **self.initkwargs)
+                if self._isrepresentedby(axis):
+                    return axis
             else:
                 diff = abs(np.diff(np.diff(self._float_values)))
                 if max(diff) <= self.precision.magnitude:
-- 
2.43.0


From fd08e5de193407126b55a1ad380a17027409d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 063/185] fix: step sizes of a segmented axis in other units

---
 src/spectrocrunch/process/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 3d20013..cd99070 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -717,7 +717,8 @@ class AxisSegments(Axis):
         for i, stepsize in enumerate(values):
             stepsize = func(stepsize)
             a, b = limits[i], limits[i + 1]
-            nsteps.append(int(round((b - a) / stepsize)))
+            n = ((b - a) / stepsize).to("dimensionless").magnitude
+            nsteps.append(int(round(n)))
 
         self.values = limits, nsteps
 
-- 
2.43.0


From 8cfbdf995238b95b1e05194e30e9d17ba7535ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 064/185] fix: interpolate grids with few points or unsorted
 coordinates

---
 src/spectrocrunch/math/interpolate.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/math/interpolate.py b/src/spectrocrunch/math/interpolate.py
index e9920d2..dcd3f6c 100755
--- a/src/spectrocrunch/math/interpolate.py
+++ b/src/spectrocrunch/math/interpolate.py
@@ -82,7 +82,8 @@ def interpolate_regular(data, axold, axnew, cval=np.nan, degree=1, asgrid=True):
     if ndim == 1:
         if degree > 3:
             logger.warning("interpolation degree is capped at 3 (cubic)")
-        kind = ["nearest", "linear", "quadratic", "cubic"][min(degree, 3)]
+        degree = min(degree, 3, len(axold[0]) - 1)
+        kind = ["nearest", "linear", "quadratic", "cubic"][degree]
         # nearest==zero, linear==slinear ???
         interp = scipy.interpolate.interp1d(
             axold[0],
@@ -93,10 +94,20 @@ def interpolate_regular(data, axold, axnew, cval=np.nan, degree=1, asgrid=True):
             bounds_error=False,
         )
     elif ndim == 2 and degree > 0:
+        data, axold = np.asarray(data), list(axold)
+        for i, ax in enumerate(axold):
+            if len(ax) == 1:
+                # Constant: splines need at least two points
+                axold[i] = [ax[0], ax[0] + 1]
+                data = np.repeat(data, 2, axis=i)
+        kx, ky = [min(degree, len(ax) - 1) for ax in axold]
         interp = scipy.interpolate.RectBivariateSpline(
-            axold[0], axold[1], data, kx=degree, ky=degree
+            axold[0], axold[1], data, kx=kx, ky=ky
         )
-        kwargs["grid"] = asgrid
+        if asgrid:
+            # Grid coordinates do not need to be sorted
+            args = np.meshgrid(*axnew, indexing="ij")
+        kwargs["grid"] = False
     else:
         if degree == 0:
             method = "nearest"
-- 
2.43.0


From c1c1184800d161601e7fc195d27d97aa4775d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 065/185] fix: in-place operations on grids

---
 src/spectrocrunch/process/h5regulargrid.py |  6 ++++-
 src/spectrocrunch/process/regulargrid.py   | 28 ++++++++++++++--------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index f37082a..8ab2960 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -132,6 +132,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="add",
             )
+        return self
 
     def __isub__(self, value):
         with self.open() as group:
@@ -149,6 +150,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="sub",
             )
+        return self
 
     def __imul__(self, value):
         with self.open() as group:
@@ -166,8 +168,9 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="mul",
             )
+        return self
 
-    def __idiv__(self, value):
+    def __itruediv__(self, value):
         with self.open() as group:
 
             def selector(signal):
@@ -183,6 +186,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="div",
             )
+        return self
 
     @property
     def dtype(self):
diff --git a/src/spectrocrunch/process/regulargrid.py b/src/spectrocrunch/process/regulargrid.py
index a57517a..0e4fd67 100755
--- a/src/spectrocrunch/process/regulargrid.py
+++ b/src/spectrocrunch/process/regulargrid.py
@@ -97,20 +97,28 @@ class RegularGrid(object):
             data[index] = value
 
     def __iadd__(self, value):
-        with self.open() as data:
-            data += value
+        data = self[Ellipsis]
+        data += value
+        self[Ellipsis] = data
+        return self
 
     def __isub__(self, value):
-        with self.open() as data:
-            data -= value
+        data = self[Ellipsis]
+        data -= value
+        self[Ellipsis] = data
+        return self
 
     def __imul__(self, value):
-        with self.open() as data:
-            data *= value
-
-    def __idiv__(self, value):
-        with self.open() as data:
-            data /= value
+        data = self[Ellipsis]
+        data *= value
+        self[Ellipsis] = data
+        return self
+
+    def __itruediv__(self, value):
+        data = self[Ellipsis]
+        data /= value
+        self[Ellipsis] = data
+        return self
 
     @property
     def dtype(self):
-- 
2.43.0


From 936b73ae5f709b185a5610e445a731fc5d19cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 066/185] fix: values of a grid independent of the stack
 dimension

---
 src/spectrocrunch/process/h5regulargrid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index 8ab2960..e0800f9 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -190,15 +190,19 @@ class NXRegularGrid(RegularGrid):
 
     @property
     def dtype(self):
-        with self.signals[0].open(mode="r") as dset:
-            return dset.dtype
+        dtypes = []
+        for signal in self.signals:
+            with signal.open(mode="r") as dset:
+                dtypes.append(dset.dtype)
+        return np.result_type(*dtypes)
 
     @property
     def values(self):
         ret = np.empty(self.shape, dtype=self.dtype)
+        stacked = np.moveaxis(ret, self.stackdim, 0)
         for i, signal in enumerate(self.signals):
             with signal.open(mode="r") as dset:
-                ret[i] = dset[()]
+                stacked[i] = dset[()]
                 # No longer works in h5py 3.1:
                 # dset.read_direct(ret, dest_sel=(i, Ellipsis))
         return ret
-- 
2.43.0


From 589c815e6a1c139da95dddd190a843e7f1a0cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 067/185] fix: grid of data without interpretation

---
 src/spectrocrunch/process/h5regulargrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index e0800f9..44e7391 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -54,6 +54,8 @@ class NXRegularGrid(RegularGrid):
         groups, axes, stackdim_prev = nxresult.regulargriddata(nxgroup)
         self.signals = [signal for group in groups.values() for signal in group]
         axnew = axis.factory(self.signals, type="nominal")
+        if stackdim_prev is None:
+            stackdim_prev = self.DEFAULT_STACKDIM
         if stackdim is None:
             stackdim = stackdim_prev
         axes.insert(stackdim, axnew)
-- 
2.43.0


From 95463d0c2fec814bbb907cb591157cb67e866f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 068/185] fix: interpolate grids of integers or grids in files

---
 src/spectrocrunch/math/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/math/interpolate.py b/src/spectrocrunch/math/interpolate.py
index dcd3f6c..e9fce70 100755
--- a/src/spectrocrunch/math/interpolate.py
+++ b/src/spectrocrunch/math/interpolate.py
@@ -116,7 +116,7 @@ def interpolate_regular(data, axold, axnew, cval=np.nan, degree=1, asgrid=True):
                 logger.warning("interpolation degree is capped at 1 (linear)")
             method = "linear"
         interp = scipy.interpolate.RegularGridInterpolator(
-            axold, data, method=method, fill_value=cval, bounds_error=False
+            axold, np.asarray(data), method=method, fill_value=cval, bounds_error=False
         )
         if asgrid:
             breshape = True
-- 
2.43.0


From 5f5faf950395ca78a69cca25b53956a2a648691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 069/185] fix: expression without other signals

---
 src/spectrocrunch/process/nxexpression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 208d880..731e593 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -32,7 +32,7 @@ class Task(nxregulargrid.Task):
         logger.info("Expression: {}".format(parameters["expression"]))
 
     def _process_data(self, data):
-        if self.variables:
+        if self.variables is not None:
             variables = {"a": data}
             for name, path in self.variables.items():
                 with path.open(mode="r") as dset:
@@ -78,11 +78,11 @@ class Task(nxregulargrid.Task):
 
     def _prepare_signal(self, signal):
         if self._skip(signal):
-            self.variables = {}
+            self.variables = None
             logger.info("skip {}".format(signal.name))
             return False
         elif self._copy(signal):
-            self.variables = {}
+            self.variables = None
             logger.info("copy {}".format(signal.name))
             return True
         else:
-- 
2.43.0


From 48593e465dec20df7bd4cc907b807767ef08c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 070/185] fix: tear-down after a signal outside the signal
 handler

---
 src/spectrocrunch/utils/signalhandling.py | 64 ++++++++++++-----------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/spectrocrunch/utils/signalhandling.py b/src/spectrocrunch/utils/signalhandling.py
index cc292ee..67c354b 100755
--- a/src/spectrocrunch/utils/signalhandling.py
+++ b/src/spectrocrunch/utils/signalhandling.py
@@ -71,55 +71,59 @@ class HandleTermination(object):
     """
 
     def __init__(self, setup=None, teardown=None, resend=True):
-        self._needcleanup = False
         self._setup = setup
         self._teardown = teardown
         self.resend = resend
 
     def __enter__(self):
         """Overwrite signal handlers and call user setup"""
-        self._needcleanup = True
+        self._signals = []
+        self._stop = None
+        self._cleaningup = False
         self._oldhandlers = replace_handlers(self._newhandler, termination_handlers())
         if self._setup is not None:
             try:
                 self._setup()
             except BaseException:
-                restore_handlers(self._oldhandlers)
-                self._needcleanup = False
+                self._restore()
                 raise
 
     def _cleanup(self, exc_type, exc_value, exc_traceback):
-        """User tear-down and reset signal handlers"""
+        """User tear-down, reset signal handlers and resend the signals"""
+        self._cleaningup = True
         ret = 0
-        if self._needcleanup:
-            try:
-                if self._teardown is not None:
-                    ret = self._teardown(exc_type, exc_value, exc_traceback)
-            finally:
-                restore_handlers(self._oldhandlers)
-                self._needcleanup = False
+        try:
+            if self._teardown is not None:
+                ret = self._teardown(exc_type, exc_value, exc_traceback)
+        finally:
+            self._restore()
         return ret
 
+    def _restore(self):
+        """Reset signal handlers and resend the signals"""
+        restore_handlers(self._oldhandlers)
+        if self.resend:
+            send_signals(self._signals, self._oldhandlers)
+
     def _newhandler(self, signum, frame):
-        """Converts signal into exception and reset signals.
-        Optionally resends the signal after user tear-down.
+        """Stop the execution of the context by an exception. The signal is
+        (optionally) resent to the original handlers after user tear-down.
         """
-        msg = "Signal {} received.".format(signalname(signum))
-        logger.debug(msg + " Cleanup and resend...")
-
-        # Convert signal to exception for user tear-down function
-        try:
-            raise RuntimeError(msg)
-        except RuntimeError:
-            exc_type, exc_value, exc_traceback = sys.exc_info()
-
-        # User tear-down and reset signal handlers
-        self._cleanup(exc_type, exc_value, exc_traceback)
-
-        # Resend the signal to the original handlers
-        if self.resend:
-            send_signals([(signum, frame)], self._oldhandlers)
+        logger.debug("Signal {} received.".format(signalname(signum)))
+        self._signals.append((signum, frame))
+        if not self._cleaningup:
+            self._cleaningup = True
+            self._stop = SystemExit(128 + signum)
+            raise self._stop
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """User tear-down and reset signal handlers"""
-        return self._cleanup(exc_type, exc_value, exc_traceback)
+        stopped = exc_value is not None and exc_value is self._stop
+        if self._signals:
+            # Convert signal to exception for user tear-down function
+            msg = "Signal {} received.".format(signalname(self._signals[0][0]))
+            try:
+                raise RuntimeError(msg)
+            except RuntimeError:
+                exc_type, exc_value, exc_traceback = sys.exc_info()
+        return self._cleanup(exc_type, exc_value, exc_traceback) or stopped
-- 
2.43.0


From 75f9967987ee1aa06aeedffea4210877716fa4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 071/185] fix: remove the temporary output when its creation
 fails

---
 src/spectrocrunch/process/nxprocess.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxprocess.py b/src/spectrocrunch/process/nxprocess.py
index de9a00a..4b231c1 100755
--- a/src/spectrocrunch/process/nxprocess.py
+++ b/src/spectrocrunch/process/nxprocess.py
@@ -25,15 +25,21 @@ class Task(basetask.Task):
     def _atomic_context_enter(self):
         self.temp_nxprocess = None
         while True:
+            name = randomstring()
+            if self.outputparent[name].exists:
+                continue
             try:
                 temp_nxprocess = self.outputparent.nxprocess(
-                    randomstring(),
+                    name,
                     noincrement=True,
                     parameters=self.parameters,
                     dependencies=list(self.previous_outputs),
                 )
             except fs.AlreadyExists:
                 pass  # already exists
+            except BaseException:
+                self.outputparent[name].remove(recursive=True)
+                raise
             else:
                 self.temp_nxprocess = temp_nxprocess
                 break
-- 
2.43.0


From 571b36b6dd505bd68c3e60b007601926486808e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 072/185] fix: update times in place

---
 src/spectrocrunch/io/nxfs.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 43206b3..cef0626 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -126,11 +126,22 @@ class Path(h5fs.Path):
         with self.h5open():
             tm = timestamp()
             for path in self.iterup_is_nxclass("NXentry", "NXsubentry"):
-                path["end_time"].write(mode="w", data=tm)
+                self._write_time(path["end_time"], tm)
             for path in self.iterup_is_nxclass("NXprocess", "NXnote"):
-                path["date"].write(mode="w", data=tm)
+                self._write_time(path["date"], tm)
             self.nxroot().update_stats(file_update_time=tm)
 
+    @staticmethod
+    def _write_time(path, tm):
+        if path.exists:
+            # Existing time is never absent when this fails
+            with path.open(mode="r+") as dset:
+                info = h5py.check_string_dtype(dset.dtype)
+                if info is not None and info.length is None and not dset.shape:
+                    dset[()] = tm
+                    return
+        path.write(mode="w", data=tm)
+
     def _read_time(self, name, *nxclasses):
         path = self.findfirstup_is_nxclass(*nxclasses)
         if path is not None:
-- 
2.43.0


From 988c7c5f866a69ed517682e4af008228aaa50adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:12 +0000
Subject: [PATCH 073/185] fix: replace existing local output of a task

---
 src/spectrocrunch/process/nxprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxprocess.py b/src/spectrocrunch/process/nxprocess.py
index 4b231c1..c753acb 100755
--- a/src/spectrocrunch/process/nxprocess.py
+++ b/src/spectrocrunch/process/nxprocess.py
@@ -136,5 +136,5 @@ class Task(basetask.Task):
         old = self.temp_localpath
         if old.exists:
             new = self.output_localpath
-            old.move(new, force=True)
+            old.rename(new, force=True)
             logger.info("Renamed {} to {}".format(old, new))
-- 
2.43.0


From 98700e6ad154c313457fd514047c32b75f057a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 074/185] fix: nanone and nanzero in expressions

---
 src/spectrocrunch/process/nxexpression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 731e593..4376373 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -234,8 +234,8 @@ class MathParser(object):
 
     @staticmethod
     def _fn_nan(a, v):
-        a[np.isnan(a)] = v
-        return a
+        # the argument could be a variable which is used elsewhere
+        return np.where(np.isnan(a), v, a)
 
     def evaluateStack(self, s):
         op = s.pop()
-- 
2.43.0


From d92cd5cd4ce1065623cb7ce2819b163ff2b17d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 075/185] fix: trunc, round and sgn of signals

---
 src/spectrocrunch/process/nxexpression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 4376373..066d755 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -214,10 +214,10 @@ class MathParser(object):
             "cos": np.cos,
             "tan": np.tan,
             "abs": abs,
-            "trunc": lambda a: int(a),
-            "round": round,
+            "trunc": np.trunc,
+            "round": np.round,
             # TODO: or 0?
-            "sgn": lambda a: (abs(a) > epsilon and (1 if a > 0 else -1)) or 0,
+            "sgn": lambda a: np.where(np.abs(a) > epsilon, np.sign(a), 0),
             "max": np.nanmax,
             "min": np.nanmin,
             "nanone": lambda a: self._fn_nan(a, 1),
-- 
2.43.0


From 77bdb1af220250b93bff68cc3f891b54b46dfbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 076/185] fix: expressions with more than three variables

---
 src/spectrocrunch/process/nxexpression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 066d755..051a54d 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -245,9 +245,9 @@ class MathParser(object):
             op2 = self.evaluateStack(s)
             op1 = self.evaluateStack(s)
             return self.opn[op](op1, op2)
-        elif op.upper() == "PI":
+        elif op == "PI":
             return np.pi  # 3.1415926535
-        elif op.upper() == "E":
+        elif op == "E":
             return np.e  # 2.718281828
         elif op in self.fn:
             return self.fn[op](self.evaluateStack(s))
-- 
2.43.0


From c0b1cc58fdacadca68cdb3495c1df8ee2230e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 077/185] fix: recognize any not-a-number in crop and replace
 tasks

---
 src/spectrocrunch/process/nxcrop.py    | 10 +++++++---
 src/spectrocrunch/process/nxreplace.py |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/process/nxcrop.py b/src/spectrocrunch/process/nxcrop.py
index d3e8715..1aa1a12 100755
--- a/src/spectrocrunch/process/nxcrop.py
+++ b/src/spectrocrunch/process/nxcrop.py
@@ -3,6 +3,7 @@ import logging
 
 from . import nxregulargrid
 from . import basetask
+from ..utils import instance
 
 logger = logging.getLogger(__name__)
 
@@ -25,7 +26,9 @@ class Task(nxregulargrid.Task):
             self.roi = self.calccroproi(self.reference_signal)
         elif "roi" in self.parameters:
             self.roi = self.convertuserroi(self.reference_signal)
-        if self.roi is not None:
+        if self.roi is None:
+            self.cropped_shape = self.signalin_shape
+        else:
             self.cropped_shape = tuple([b - a for a, b in self.roi])
             self.indexin = [slice(a, b) for a, b in self.roi]
             self.indexout = [slice(None)] * len(self.roi)
@@ -57,6 +60,7 @@ class Task(nxregulargrid.Task):
 
         nanval = self.parameters["nanval"]
         nanfull = self.parameters["nanfull"]
+        isnan = instance.isnumber(nanval) and np.isnan(nanval)
 
         # Mask (True = valid pixel)
         if self.sliced:
@@ -64,12 +68,12 @@ class Task(nxregulargrid.Task):
             mask = np.ones(shape, dtype=bool)
             for i in range(refgrid.shape[self.signal_stackdim]):
                 img = refgrid[indexgen(i)]
-                if nanval is np.nan:
+                if isnan:
                     mask &= np.logical_not(np.isnan(img))
                 else:
                     mask &= img != nanval
         else:
-            if nanval is np.nan:
+            if isnan:
                 mask = np.isnan(refgrid.values).sum(axis=self.signal_stackdim) == 0
             else:
                 mask = (refgrid.values == nanval).sum(axis=self.signal_stackdim) == 0
diff --git a/src/spectrocrunch/process/nxreplace.py b/src/spectrocrunch/process/nxreplace.py
index 5462d9e..2b719cf 100755
--- a/src/spectrocrunch/process/nxreplace.py
+++ b/src/spectrocrunch/process/nxreplace.py
@@ -1,5 +1,6 @@
 import numpy as np
 from . import nxregulargrid
+from ..utils import instance
 
 
 class Task(nxregulargrid.Task):
@@ -10,7 +11,7 @@ class Task(nxregulargrid.Task):
     def _process_data(self, data):
         v1 = self.parameters["old"]
         v2 = self.parameters["new"]
-        if v1 is np.nan:
+        if instance.isnumber(v1) and np.isnan(v1):
             data[np.isnan(data)] = v2
         else:
             data[data == v1] = v2
-- 
2.43.0


From 279e02186bf955071fb74f2e0d538156da06975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 078/185] fix: resample with given encoder offsets

---
 src/spectrocrunch/process/nxresample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxresample.py b/src/spectrocrunch/process/nxresample.py
index 835c0a5..63ff6f9 100755
--- a/src/spectrocrunch/process/nxresample.py
+++ b/src/spectrocrunch/process/nxresample.py
@@ -198,6 +198,7 @@ class Task(nxregulargrid.Task):
         if offset is None:
             encoder = axis.factory(position.values * resolution)
         else:
+            offset = units.Quantity(offset, units="dimensionless")
             encoder = axis.factory(position.values * resolution + offset)
 
         crop = self.parameters["crop"]
@@ -243,6 +244,7 @@ class Task(nxregulargrid.Task):
                 encoder = axis.factory(encoder.values + offset)
 
             # Encoder (and corresponding motor positions) at which to interpolate the data
+            offset = offset.to("dimensionless").magnitude
             encoder = encoder.newlimits(start_measured, end_measured)
             if encoder is None:
                 logger.warning(
@@ -255,4 +257,4 @@ class Task(nxregulargrid.Task):
                 position = self._new_axis(
                     (encoder.values - offset) / resolution, position
                 )
-                return position, encoder, offset.to("dimensionless").magnitude
+                return position, encoder, offset
-- 
2.43.0


From 5777330c6ad9eeb504d7765ada488e333aa33e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 079/185] fix: replace values of one-dimensional signals slice
 per slice

---
 src/spectrocrunch/process/nxreplace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/nxreplace.py b/src/spectrocrunch/process/nxreplace.py
index 2b719cf..3263cc0 100755
--- a/src/spectrocrunch/process/nxreplace.py
+++ b/src/spectrocrunch/process/nxreplace.py
@@ -12,7 +12,7 @@ class Task(nxregulargrid.Task):
         v1 = self.parameters["old"]
         v2 = self.parameters["new"]
         if instance.isnumber(v1) and np.isnan(v1):
-            data[np.isnan(data)] = v2
+            mask = np.isnan(data)
         else:
-            data[data == v1] = v2
-        return data
+            mask = data == v1
+        return np.where(mask, v2, data)
-- 
2.43.0


From f0458badf649b87b64740a8be3a7e6c8976091bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 080/185] fix: refuse chemical formulae with trailing text

---
 src/spectrocrunch/materials/compoundfromformula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/compoundfromformula.py b/src/spectrocrunch/materials/compoundfromformula.py
index a6a01a6..21a1491 100755
--- a/src/spectrocrunch/materials/compoundfromformula.py
+++ b/src/spectrocrunch/materials/compoundfromformula.py
@@ -47,7 +47,7 @@ class FormulaParser(object):
 
     def eval(self, formula):
         self.elements = {}
-        result = self.formula.parseString(formula)
+        result = self.formula.parseString(formula, parseAll=True)
         self.parseresult(result, 1.0)
         return self.elements.keys(), self.elements.values()
 
-- 
2.43.0


From 1d59e54138a325c40b5103c03b21bcc431020097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 081/185] fix: find the whole formula in the compound database

---
 src/spectrocrunch/materials/compoundfromformula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/compoundfromformula.py b/src/spectrocrunch/materials/compoundfromformula.py
index 21a1491..37e5b76 100755
--- a/src/spectrocrunch/materials/compoundfromformula.py
+++ b/src/spectrocrunch/materials/compoundfromformula.py
@@ -88,4 +88,4 @@ def factory(name):
 
 
 def search(name):
-    return name
+    return [name]
-- 
2.43.0


From 1c52fd91d33e06c94ddb01cd98d6fdede8f6d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 082/185] fix: compounds of elements with one oxidation state

---
 src/spectrocrunch/materials/compoundfromelement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/compoundfromelement.py b/src/spectrocrunch/materials/compoundfromelement.py
index 8fa3b66..b1eb819 100755
--- a/src/spectrocrunch/materials/compoundfromelement.py
+++ b/src/spectrocrunch/materials/compoundfromelement.py
@@ -98,7 +98,7 @@ class CompoundFromElement(compoundfromformula.CompoundFromFormula):
 
         if oxidationstate is None:
             if len(cmpds) == 1:
-                cmpd = cmpds.values()[0]
+                oxidationstate, cmpd = next(iter(cmpds.items()))
             else:
                 if defaultoxidationstate == "max":
                     func = max
@@ -166,4 +166,4 @@ class Oxide(CompoundFromElement):
 class Sulfide(CompoundFromElement):
     def __init__(self, *args, **kwargs):
         kwargs["typ"] = "sulfide"
-        super(Oxide, self).__init__(*args, **kwargs)
+        super(Sulfide, self).__init__(*args, **kwargs)
-- 
2.43.0


From ced5e95a69f684d7738b3a286099b05f7915c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 083/185] fix: set fractions of compounds and mixtures

---
 src/spectrocrunch/materials/multielementbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/multielementbase.py b/src/spectrocrunch/materials/multielementbase.py
index 369c14e..aca6d62 100755
--- a/src/spectrocrunch/materials/multielementbase.py
+++ b/src/spectrocrunch/materials/multielementbase.py
@@ -17,7 +17,7 @@ class MultiElementBase(elementbase.ElementBase):
         return len(self.parts)
 
     def setfraction(self, parts, values, fractype):
-        if instance.isstring(parts):
+        if not instance.isarray(parts):
             parts = [parts]
         values = instance.asarray(values)
 
@@ -33,7 +33,7 @@ class MultiElementBase(elementbase.ElementBase):
 
         # update others
         if w2:
-            v2 = np.asarray(w2.values())
+            v2 = np.asarray(list(w2.values()))
             v2 *= (1 - values.sum()) / v2.sum()
             w.update((k, v) for k, v in zip(w2.keys(), v2))
 
-- 
2.43.0


From df2e2295ee577883897e0ae8d4749b45b4882b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 084/185] fix: elemental mole fractions of a mixture count all
 atoms

---
 src/spectrocrunch/materials/mixture.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/spectrocrunch/materials/mixture.py b/src/spectrocrunch/materials/mixture.py
index a929c6f..286d20d 100755
--- a/src/spectrocrunch/materials/mixture.py
+++ b/src/spectrocrunch/materials/mixture.py
@@ -158,9 +158,8 @@ class Mixture(multielementbase.MultiElementBase):
 
     @property
     def Zeff(self):
-        # equivalent to using elemental_molefractions
-        nfrac = self.molefractions()
-        Z = np.asarray([c.Zeff for c in nfrac])
+        nfrac = self.elemental_molefractions()
+        Z = np.asarray([e.Z for e in nfrac])
         nfrac = np.asarray(list(nfrac.values()))
         return (Z * nfrac).sum()
 
@@ -208,16 +207,9 @@ class Mixture(multielementbase.MultiElementBase):
         return stoichiometry.density_from_molefrac(nfrac, rho, MM)
 
     def elemental_molefractions(self):
-        ret = {}
-        c_nfrac = self.molefractions()
-        for c in c_nfrac:
-            e_nfrac = c.elemental_molefractions()
-            for e in e_nfrac:
-                if e in ret:
-                    ret[e] += c_nfrac[c] * e_nfrac[e]
-                else:
-                    ret[e] = c_nfrac[c] * e_nfrac[e]
-        return ret
+        nfrac = self.elemental_equivalents()
+        total = sum(nfrac.values())
+        return {e: n / total for e, n in nfrac.items()}
 
     def elemental_equivalents(self):
         ret = {}
-- 
2.43.0


From 0cac79157fcb3547f3398c81b5a2b7b40f95bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 085/185] fix: change mass fractions of elements given by name

---
 src/spectrocrunch/materials/compound.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/compound.py b/src/spectrocrunch/materials/compound.py
index 4bd50dd..5dc2681 100755
--- a/src/spectrocrunch/materials/compound.py
+++ b/src/spectrocrunch/materials/compound.py
@@ -130,7 +130,9 @@ class Compound(multielementbase.MultiElementBase):
             dfrac(dict): element fractions
             fractype(types.fraction): fraction type
         """
-        elements = list(dfrac.keys())
+        elements = [
+            e if isinstance(e, element.Element) else element.Element(e) for e in dfrac
+        ]
         fractions = np.asarray(list(dfrac.values()))
         # Element mole fractions
         if fractype == types.fraction.mole:
-- 
2.43.0


From e5f96a04e32ef132cd2ce30f8c4f812fd4edcbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:53 +0000
Subject: [PATCH 086/185] fix: add a tuple of compounds to a mixture

---
 src/spectrocrunch/materials/mixture.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/materials/mixture.py b/src/spectrocrunch/materials/mixture.py
index 286d20d..bc8940d 100755
--- a/src/spectrocrunch/materials/mixture.py
+++ b/src/spectrocrunch/materials/mixture.py
@@ -71,6 +71,7 @@ class Mixture(multielementbase.MultiElementBase):
         """
         if not instance.isarray(compounds):
             compounds = [compounds]
+        compounds = list(compounds)
         if not instance.isarray(fractions):
             fractions = [fractions]
         fractions = np.asarray(fractions)
-- 
2.43.0


From aa4bf1c9093d9020701d6d11bc1665fa7c5b1ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:53 +0000
Subject: [PATCH 087/185] fix: compounds by name starting with a capital

---
 src/spectrocrunch/materials/compoundfromname.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/compoundfromname.py b/src/spectrocrunch/materials/compoundfromname.py
index 7ac729a..97f2c43 100755
--- a/src/spectrocrunch/materials/compoundfromname.py
+++ b/src/spectrocrunch/materials/compoundfromname.py
@@ -428,7 +428,7 @@ def search(name):
 
 
 def compoundfromname(name):
-    if re.match("[A-Z][a-z]?", name):
+    if re.match("[A-Z][a-z]?$", name):
         return element.Element(name)
     else:
         return factory(name)
-- 
2.43.0


From 161299f225005ea6ac25786f45f4712187d3648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 088/185] fix: mixtures with elements know their absorbers

---
 src/spectrocrunch/materials/element.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spectrocrunch/materials/element.py b/src/spectrocrunch/materials/element.py
index fb04c28..4a426e6 100755
--- a/src/spectrocrunch/materials/element.py
+++ b/src/spectrocrunch/materials/element.py
@@ -180,6 +180,9 @@ class Element(elementbase.ElementBase):
     def isabsorber(self):
         return bool(self.shells)
 
+    def hasabsorbers(self):
+        return self.isabsorber
+
     def markscatterer(self, name=None):
         if name is None:
             self.isscatterer = True
-- 
2.43.0


From 1479286764370b3428c9dc126f81f36a396edd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 089/185] fix: scattering of mixtures without scatterers or
 with mixtures

---
 src/spectrocrunch/materials/mixture.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/materials/mixture.py b/src/spectrocrunch/materials/mixture.py
index bc8940d..3099a1b 100755
--- a/src/spectrocrunch/materials/mixture.py
+++ b/src/spectrocrunch/materials/mixture.py
@@ -239,11 +239,11 @@ class Mixture(multielementbase.MultiElementBase):
     def _crosssection(self, method, E, fine=False, decomposed=False, **kwargs):
         """Calculate mixture cross-sections"""
         bscat = self._cs_scattering(method)
-        if bscat and not self.hasscatterers:
+        if bscat and not self.hasscatterers():
             if decomposed:
                 return {}
             else:
-                return E * 0.0
+                return np.zeros_like(E, dtype=float)
         c_wfrac = self.massfractions()
         if decomposed:
             ret = {}
@@ -335,7 +335,11 @@ class Mixture(multielementbase.MultiElementBase):
             c.unmarkscatterer()
 
     def hasscatterers(self):
-        return any([c.isscatterer() for c in self._compounds])
+        return any([c.isscatterer for c in self._compounds])
+
+    @property
+    def isscatterer(self):
+        return self.hasscatterers()
 
     def get_energy(self, energyrange, defaultinc=1):
         """Get absolute energies (keV) from a relative energy range (eV)"""
-- 
2.43.0


From 56f5b034fb3920c1205d56690eccf92253184941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 090/185] fix: compounds from the database do not share their
 elements

---
 src/spectrocrunch/materials/compoundfromname.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/compoundfromname.py b/src/spectrocrunch/materials/compoundfromname.py
index 97f2c43..86a21a5 100755
--- a/src/spectrocrunch/materials/compoundfromname.py
+++ b/src/spectrocrunch/materials/compoundfromname.py
@@ -1,6 +1,6 @@
 import warnings
 import re
-from copy import copy
+from copy import deepcopy
 from . import compound
 from . import compoundfromlist
 from . import compoundfromformula
@@ -420,7 +420,7 @@ def getnames():
 
 
 def factory(name):
-    return copy(compounddb[name])
+    return deepcopy(compounddb[name])
 
 
 def search(name):
-- 
2.43.0


From dd3dedfcd085f2853fa01640258312c9a5ea2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 091/185] fix: the fluorescence cross section does not depend
 on earlier calls

---
 src/spectrocrunch/materials/xrayspectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 79c711a..98cb4b5 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -410,7 +410,8 @@ class Shell(CompHashable, Copyable):
     def fluolines(self):
         if self._fluolines is None:
             # None means all lines, but I need them explicitely now
-            self._fluolines = FluoLine.factory(shells=[self])
+            # (do not keep them: the selection stays "all lines")
+            return FluoLine.factory(shells=[self])
         return self._fluolines
 
     def markinfo(self):
-- 
2.43.0


From d06db8ef7d449ac34f8d294375c13ec2b86b1db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 092/185] fix: collapse cross sections of the compounds in a
 mixture

---
 src/spectrocrunch/materials/multielementbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/multielementbase.py b/src/spectrocrunch/materials/multielementbase.py
index aca6d62..2743206 100755
--- a/src/spectrocrunch/materials/multielementbase.py
+++ b/src/spectrocrunch/materials/multielementbase.py
@@ -173,8 +173,8 @@ class MultiElementBase(elementbase.ElementBase):
         t = cls.cs_type(cs)
         if t == 0:
             return cs
-        elif t == 1:
-            return cs["w"] * cs["cs"]
+        elif "cs" in cs:
+            return cs["w"] * cls.cs_collapse(cs["cs"])
         else:
             return sum(cls.cs_collapse(c) for c in cs.values())
 
-- 
2.43.0


From c183b880df8e7fa05b5a3354287c25725a1f8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:27 +0000
Subject: [PATCH 093/185] fix: partial cross sections of unmarked elements have
 the shape of the energies

---
 src/spectrocrunch/materials/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/element.py b/src/spectrocrunch/materials/element.py
index 4a426e6..fa2b9d6 100755
--- a/src/spectrocrunch/materials/element.py
+++ b/src/spectrocrunch/materials/element.py
@@ -330,7 +330,7 @@ class Element(elementbase.ElementBase):
         E, func = instance.asarrayf(E)
 
         if not self.isabsorber:
-            return func(np.zeros(len(E), dtype=np.float64))
+            return func(np.zeros(E.shape, dtype=np.float64))
 
         if environ is None:
             cs = self._CS_Photo_Partial_DB(E)
@@ -376,7 +376,7 @@ class Element(elementbase.ElementBase):
             if decomposed:
                 cs = {}
             else:
-                cs = func(np.zeros(len(E), dtype=np.float64))
+                cs = func(np.zeros(E.shape, dtype=np.float64))
         return cs
 
     def fluorescence_cross_section_lines(self, E, **kwargs):
-- 
2.43.0


From c67181b5ac2370ed3e435ed510575c4b1635053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 094/185] fix: thickness of a multilayer along the exit path

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index e250777..022595f 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -219,7 +219,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
 
     @property
     def xraythicknessout(self):
-        return np.vectorize(lambda layer: layer.xraythicknessin)(self)
+        return np.vectorize(lambda layer: layer.xraythicknessout)(self)
 
     def arealdensity(self):
         ret = collections.Counter()
-- 
2.43.0


From 1f304f679cbfcfcbf846b4a08f7645b59911b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 095/185] fix: unmark the scatterers of a multilayer

---
 src/spectrocrunch/materials/multilayer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 022595f..243c98d 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -201,9 +201,11 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         for layer in self:
             layer.markscatterer(name)
 
-    def ummarkscatterer(self):
+    def unmarkscatterer(self):
         for layer in self:
-            layer.ummarkscatterer()
+            layer.unmarkscatterer()
+
+    ummarkscatterer = unmarkscatterer
 
     @property
     def density(self):
-- 
2.43.0


From 77cf1a2e86652698dd015ca1e67c70bf328931e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 096/185] fix: weights for the fixed layers when refining a
 multilayer

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 243c98d..f2c4fd7 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -375,7 +375,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
     ):
         y = absorbance
         for layer in self.fixediter():
-            y = y - layer.absorbance(energy)
+            y = y - layer.absorbance(energy, weights=weights)
 
         A = [layer.mass_att_coeff(energy) for layer in self.freeiter()]
         if weights is not None:
-- 
2.43.0


From 9195313f4260f538e4bdecf0b4c08aa50260c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 097/185] fix: bounds when refining a multilayer with a
 constant

---
 src/spectrocrunch/materials/multilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index f2c4fd7..2a057b8 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -354,7 +354,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
             A = np.vstack(A).T
 
             if constraint:
-                lb = np.zeros(len(A), dtype=float)
+                lb = np.zeros(A.shape[1], dtype=float)
                 lb[-1] = -np.inf
                 ub = np.inf
                 params = fit1d.lstsq_bound(A, y, lb, ub)
-- 
2.43.0


From 1a198ec9a557ede42b2bf8619e0c119ddc428a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 098/185] fix: fluorescence and scattering rates of thick
 layers and equal attenuation

---
 src/spectrocrunch/materials/multilayer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 2a057b8..c725eac 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -721,14 +721,19 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
             chicor = cor1[1:-1, :, np.newaxis] - cor0[1:-1, np.newaxis, :]
 
             layerinfo = self.getcache("layerinfo")
-            J2 = np.exp(chi * layerinfo["cumul_thickness"][1:, np.newaxis, np.newaxis])
-            J2 -= np.exp(
-                chi * layerinfo["cumul_thickness"][:-1, np.newaxis, np.newaxis]
-            )
-            J2 /= chi
-            J2 *= np.exp(chicor)
             if not self.geometry.reflection:
-                J2 *= np.exp(-cor1[-1, np.newaxis, :, np.newaxis])
+                chicor = chicor - cor1[-1, np.newaxis, :, np.newaxis]
+            t = layerinfo["cumul_thickness"]
+            J2 = np.exp(chi * t[1:, np.newaxis, np.newaxis] + chicor)
+            J2 -= np.exp(chi * t[:-1, np.newaxis, np.newaxis] + chicor)
+            with np.errstate(divide="ignore", invalid="ignore"):
+                J2 /= chi
+            # lim[chi->0] (exp(chi.zb)-exp(chi.za))/chi = zb-za
+            dt = np.diff(t)[:, np.newaxis, np.newaxis]
+            small = np.abs(chi * dt) < 1e-9
+            if small.any():
+                J2lim = dt * np.exp(chi * t[:-1, np.newaxis, np.newaxis] + chicor)
+                J2[small] = J2lim[small]
 
             # nlayers x nenergy1 x nenergy0 -> nlayers x nsource x nenergy1
             J2 = np.transpose(J2, [0, 2, 1])
-- 
2.43.0


From 8bb07f08002cfd4c04daf0659907b8cf0af3a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 099/185] fix: absorbance of layers with a refined density

---
 src/spectrocrunch/materials/multilayer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index c725eac..4d7efcf 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -49,16 +49,22 @@ class Layer(Copyable):
         self.parent = parent
 
     def __getstate__(self):
-        return {
+        state = {
             "material": self.material,
             "thickness": self.thickness,
             "fixed": self.fixed,
         }
+        if "density" in self.__dict__:
+            # Refined density
+            state["density"] = self.density
+        return state
 
     def __setstate__(self, state):
         self.material = state["material"]
         self.thickness = state["thickness"]
         self.fixed = state["fixed"]
+        if "density" in state:
+            self.density = state["density"]
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -101,6 +107,9 @@ class Layer(Copyable):
             thickness = self.xraythicknessout
         else:
             thickness = self.xraythicknessin
+        if "density" in self.__dict__:
+            # Refined density
+            thickness = thickness * self.density / self.material.density
         return self.material.absorbance(energy, thickness, weights=weights, **kwargs)
 
     def addtofisx(self, setup, cfg):
-- 
2.43.0


From 1ebca44e273032f1ae8b581b85ad655747bdd3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:43 +0000
Subject: [PATCH 100/185] fix: energy of inelastic forward scattering

---
 src/spectrocrunch/materials/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/interaction.py b/src/spectrocrunch/materials/interaction.py
index 859e442..75786a3 100755
--- a/src/spectrocrunch/materials/interaction.py
+++ b/src/spectrocrunch/materials/interaction.py
@@ -65,7 +65,7 @@ class InteractionInelScat(Interaction):
     @property
     def energy(self):
         if self.theta == 0:
-            return self.energy
+            return self._energy
         delta = (
             ureg.Quantity(1 - np.cos(np.radians(self.theta)), "1/(m_e*c^2)")
             .to("1/keV", "spectroscopy")
-- 
2.43.0


From f5ef00805f456c6e06f73a20a5ef8399ff2c6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:43 +0000
Subject: [PATCH 101/185] fix: sort comparable objects by their comparison key

---
 src/spectrocrunch/utils/comparable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/comparable.py b/src/spectrocrunch/utils/comparable.py
index 7a4758a..1f89bee 100755
--- a/src/spectrocrunch/utils/comparable.py
+++ b/src/spectrocrunch/utils/comparable.py
@@ -11,7 +11,7 @@ class Comparable(object):
         return self._repr
 
     def _sortkey(self, other):
-        return self._cmpkey
+        return self._cmpkey(other)
 
     def __repr__(self):
         return self._repr
-- 
2.43.0


From 7efcfab7c6352ea562f2afa869dd89dec8a67911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 102/185] fix: expand only the selected shells

---
 src/spectrocrunch/materials/xrayspectrum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 98cb4b5..d5d3ee5 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -351,8 +351,13 @@ class Shell(CompHashable, Copyable):
         if not instance.isarray(selection):
             selection = [selection]
         for shell in selection:
-            shells = [s for s in shells if not s != shell]
-            shells += cls.expand(shell)
+            if shell not in shells:
+                continue
+            subshells = cls.expand(shell)
+            if not instance.isarray(subshells):
+                subshells = [subshells]
+            shells = [s for s in shells if s != shell]
+            shells += [s for s in subshells if s not in shells]
         return sorted(shells)
 
     @classmethod
-- 
2.43.0


From 23554ef8601ea67adb7d3b9f43e59e57e250434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 103/185] fix: KO and KP lines belong to the KB group

---
 src/spectrocrunch/materials/xrayspectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index d5d3ee5..42815d7 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -247,8 +247,8 @@ class FluoLine(CompHashable, Copyable):
         excitation shell, except the K-shell which is split in KA and KB
         """
         s = self.shell
-        if self.code in xraylib.rcomposites:
-            name = xraylib.code_to_line[xraylib.rcomposites[self.code][0]][0]
+        for composite in xraylib.rcomposites.get(self.code, []):
+            name = xraylib.code_to_line[composite][0]
             if name == "KA" or name == "KB":
                 return name
         return str(s)
-- 
2.43.0


From 12ab6b5ff1db9ebd66d6304b3e4dc09c54639869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 104/185] fix: copy and unpickle fluorescence lines

---
 src/spectrocrunch/materials/xrayspectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 42815d7..8a88e42 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -503,6 +503,9 @@ class FluoZLine(CompHashable, Copyable):
         self.element = element
 
     def __getattr__(self, attr):
+        if attr in ("line", "element"):
+            # Not initialized (yet)
+            raise AttributeError(attr)
         try:
             return getattr(self.line, attr)
         except Exception:
-- 
2.43.0


From 8ff7095e52c773c59d98f39320ddc80e98b386ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 105/185] fix: adding spectra does not modify the added spectra

---
 src/spectrocrunch/materials/xrayspectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 8a88e42..d679596 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -814,7 +814,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
             raise ValueError("Spectra need to be of the same type")
         for k, v in other.items():
             if k in self:
-                self._lines[k] += v
+                self._lines[k] = self[k] + v
             else:
                 self._lines[k] = v
         return self
-- 
2.43.0


From 1756cc8c0277505105e6f7ae26d96b79b9d7234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 106/185] fix: sum the intensities of lines with the same
 energy

---
 src/spectrocrunch/materials/xrayspectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index d679596..aa80be1 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -6,7 +6,6 @@ import collections.abc
 import warnings
 import scipy.integrate
 import copy
-from collections import Counter
 
 from ..patch import xraylib
 from ..patch.pint import ureg
@@ -914,7 +913,10 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
         """
         Line energy and rates (ph/phsource) or probabilities (1/cm/srad)
         """
-        return dict(Counter(self.spectrum()))
+        ret = {}
+        for energy, v in self.spectrum():
+            ret[energy] = ret.get(energy, 0) + v
+        return ret
 
     def linegroups(self, **kwargs):
         ret = {}
-- 
2.43.0


From b642393df6c178dbe56a74e7bff19948d399f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 107/185] fix: spectra decomposed in groups

---
 src/spectrocrunch/materials/xrayspectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index aa80be1..b34ddc0 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -1241,7 +1241,7 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
         for line in lineinfo.values():
             if line["label"]:
                 groups[line["group"]] = line["energy"]
-        groups = zip(*sorted(groups.items(), key=lambda x: x[1]))[0]
+        groups = sorted(groups, key=groups.get)
 
         # Add lines per group
         lineinfo2 = collections.OrderedDict(
-- 
2.43.0


From 7b3e9ef0ddc43c56162b4ffb81f3a0eaed11adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:07 +0000
Subject: [PATCH 108/185] fix: peak profiles with narrow tails

---
 src/spectrocrunch/detectors/xrf.py | 40 +++++++++++-------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index 5247066..86c36f6 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -526,11 +526,20 @@ class XRFDetector(with_metaclass(base.CentricCone)):
         if approx:
             return float(tr)
         else:
-            minusone = np.exp(a / (4.0 * tr**2) - u / tr) * scipy.special.erfc(
-                (a / (2.0 * tr) - u) / b
-            ) + scipy.special.erf(-u / b)
+            minusone = 2 * self._tail(-u, a, b, tr) + scipy.special.erf(-u / b)
             return tr * (1 - minusone) / 2.0
 
+    def _tail(self, diff, a, b, tr):
+        """exp[diff/tr+a/(4.tr^2)].erfc[diff/b+b/(2.tr)]/2 (without overflow)"""
+        arg = diff / b + b / (2.0 * tr)
+        pos = arg > 0
+        expo = diff / tr + a / (4.0 * tr**2)
+        return 0.5 * np.where(
+            pos,
+            np.exp(-(diff**2) / a) * scipy.special.erfcx(np.where(pos, arg, 0)),
+            np.exp(np.where(pos, 0, expo)) * scipy.special.erfc(arg),
+        )
+
     def lineprofile(
         self, x, u, linewidth=0, normalized=None, decomposed=False, onlyheight=False
     ):
@@ -738,33 +747,12 @@ class XRFDetector(with_metaclass(base.CentricCone)):
         ):
             if onlyheight:
                 if btail:
-                    with np.errstate(over="ignore"):
-                        mexp = tail_H / 2.0 * np.exp(gvar / (2.0 * tailslope_ratio**2))
-                        ind = np.isinf(mexp)
-                        if ind.any():
-                            mexp[ind] = 0  # lim_x->inf exp(x)*erfc(x) = 0
-
-                    yti = mexp * scipy.special.erfc(b / (2.0 * tailslope_ratio))
+                    yti = tail_H * self._tail(np.zeros_like(u), a, b, tailslope_ratio)
                 else:
                     yti = np.zeros_like(u)
             else:
                 if btail:
-                    with np.errstate(over="ignore"):
-                        mexp = (
-                            tail_H
-                            / 2.0
-                            * np.exp(
-                                diff / tailslope_ratio
-                                + gvar / (2.0 * tailslope_ratio**2)
-                            )
-                        )
-                        ind = np.isinf(mexp)
-                        if ind.any():
-                            mexp[ind] = 0  # lim_x->inf exp(x)*erfc(x) = 0
-
-                    yti = mexp * scipy.special.erfc(
-                        argstep + b / (2.0 * tailslope_ratio)
-                    )
+                    yti = tail_H * self._tail(diff, a, b, tailslope_ratio)
                 else:
                     yti = np.zeros_like(diff)
             yt.append(yti)
-- 
2.43.0


From 7537884ed7722aa9a7d6dfc0acd6b209da9fe430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:38 +0000
Subject: [PATCH 109/185] fix: source energies of a spectrum

---
 src/spectrocrunch/materials/xrayspectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index b34ddc0..a07865a 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -1069,7 +1069,10 @@ class Spectrum(Copyable, collections.abc.MutableMapping):
 
     @property
     def energysource(self):
-        return self["Rayleigh"].energy()
+        for line in self:
+            if line == "Rayleigh":
+                return line.energy()
+        raise KeyError("Rayleigh")
 
     @property
     def nsource(self):
-- 
2.43.0


From 1092b6b59f5f4c81cde88ec0d9160830a386d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:38 +0000
Subject: [PATCH 110/185] fix: normalized peak profiles of several energies

---
 src/spectrocrunch/detectors/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index 86c36f6..e5e3202 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -256,11 +256,11 @@ class XRFDetector(with_metaclass(base.CentricCone)):
     @staticmethod
     def wpeak(wstail, wltail, wstep):
         s = wstail + wltail + wstep
-        if s < -0.0001 or s > 1.0001:
+        if np.any(s < -0.0001) or np.any(s > 1.0001):
             raise RuntimeError(
                 "Sum of step and tail fractions must be between 0 and 1 ({})".format(s)
             )
-        return min(max(1 - s, 0), 1)
+        return np.clip(1 - s, 0, 1)
 
     @property
     def fractions(self):
-- 
2.43.0


From c2fa5193cdc17632a54287d17c50115df0d94164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:54 +0000
Subject: [PATCH 111/185] fix: Stokes parameters given as integers

---
 src/spectrocrunch/sources/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/sources/polarization.py b/src/spectrocrunch/sources/polarization.py
index a93c914..1c7ee1a 100755
--- a/src/spectrocrunch/sources/polarization.py
+++ b/src/spectrocrunch/sources/polarization.py
@@ -559,7 +559,7 @@ class Stokes(object):
 
     @S.setter
     def S(self, value):
-        self._S = np.array(value)
+        self._S = np.array(value, dtype=float)
 
     def __getitem__(self, index):
         return self.S[index]
-- 
2.43.0


From c2f8bc8507990a04c81f9765fadf7a687ce884f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:54 +0000
Subject: [PATCH 112/185] fix: Stokes parameters of fully polarized light

---
 src/spectrocrunch/sources/polarization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/sources/polarization.py b/src/spectrocrunch/sources/polarization.py
index 1c7ee1a..165768e 100755
--- a/src/spectrocrunch/sources/polarization.py
+++ b/src/spectrocrunch/sources/polarization.py
@@ -697,7 +697,7 @@ class Stokes(object):
     def from_params(
         cls, intensity=None, dop=None, dolp=None, polangle=None, handedness=None
     ):
-        if dolp > dop:
+        if dolp > dop and not np.isclose(dolp, dop):
             raise RuntimeError(
                 "Degree of linear polarization must be smaller or equal to the degree of polarization."
             )
@@ -707,14 +707,14 @@ class Stokes(object):
         polangle2 = np.radians(2 * polangle)  # in [-180,180]
         S2S1 = np.tan(polangle2)  # S2S1 = S2/S1
 
-        S3 = np.sqrt(S123 - S12)
+        S3 = np.sqrt(max(S123 - S12, 0))
         if handedness == "right":
             S3 = -S3
 
         # S12 = S1^2 + S2^2 = S1^2 *(1+S2S1^2)
         S1sq = S12 / (1.0 + S2S1**2)
         S1 = np.sqrt(S1sq) * np.sign(np.cos(polangle2))
-        S2 = np.sqrt(S12 - S1sq) * np.sign(np.sin(polangle2))
+        S2 = np.sqrt(max(S12 - S1sq, 0)) * np.sign(np.sin(polangle2))
 
         return cls(S0, S1, S2, S3)
 
-- 
2.43.0


From 1989d355582e7b76c6f8ff32dd5184d60488616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 113/185] fix: Mueller matrix of a Jones matrix that is not
 symmetric

---
 src/spectrocrunch/sources/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/sources/polarization.py b/src/spectrocrunch/sources/polarization.py
index 165768e..86b56ef 100755
--- a/src/spectrocrunch/sources/polarization.py
+++ b/src/spectrocrunch/sources/polarization.py
@@ -739,7 +739,7 @@ class Stokes(object):
         """
 
         return (
-            cls.pauli44.dot(np.kron(M, M.T.conjugate())).dot(cls.pauli44.T.conjugate())
+            cls.pauli44.dot(np.kron(M, M.conjugate())).dot(cls.pauli44.T.conjugate())
             / 2.0
         )
 
-- 
2.43.0


From 281099d58df3442602ea753ce40acd7c1d875a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 114/185] fix: copy of a transformation

---
 src/spectrocrunch/align/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 172efd4..4b22ea6 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -53,7 +53,7 @@ class LinearMapping(Mapping):
         m = LinearMapping(
             self.transfotype, dtype=self.dtype, cval=self.cval, **self.interpolationargs
         )
-        m.cof = self.cof
+        m.cof = self.cof.copy()
         return m
 
     def copy(self):
-- 
2.43.0


From 3c0f40a3fdef9d41a3f799080414b24523f883ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 115/185] fix: affine transformation of an image

---
 src/spectrocrunch/align/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 4b22ea6..f6ee541 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -79,7 +79,7 @@ class LinearMapping(Mapping):
                 #                   for coordinates (y,x)
                 return affine_transform(
                     img,
-                    self.cof[0:2, 0:2].T,
+                    self.cof[1::-1, 1::-1],
                     offset=self.cof[1::-1, 2],
                     cval=self.cval,
                     **self.interpolationargs,
-- 
2.43.0


From f508e4fc993bc7e2b136465824fc8702c1ac8b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 116/185] fix: setrigid of a translation

---
 src/spectrocrunch/align/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index f6ee541..a50c54f 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -151,7 +151,7 @@ class LinearMapping(Mapping):
     def setrigid(self, theta, tx, ty):
         if self.transfotype == transformationType.translation:
             # trn = self.gettranslation()
-            self.transfotype == transformationType.affine
+            self.transfotype = transformationType.rigid
             self.cof = self.getidentity()
         elif self.transfotype == transformationType.rigid:
             pass
-- 
2.43.0


From 3bf6d3dc881a726a44d30ad566fd0df82074ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 117/185] fix: sign of the rotation angle

---
 src/spectrocrunch/align/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index a50c54f..26c4c91 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -173,7 +173,8 @@ class LinearMapping(Mapping):
         if self.transfotype == transformationType.translation:
             return 0, self.cof[0], self.cof[1]
         elif self.transfotype == transformationType.rigid:
-            return np.arccos(self.cof[0, 0]), self.cof[0, 2], self.cof[1, 2]
+            theta = np.arctan2(self.cof[1, 0], self.cof[0, 0])
+            return theta, self.cof[0, 2], self.cof[1, 2]
         else:
             raise ValueError(
                 "Transformation should be a translation or a rigid transformation"
-- 
2.43.0


From 8185ce6162c36bbafa229e3a07953618faad353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 118/185] fix: getaffine

---
 src/spectrocrunch/align/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 26c4c91..6f6aaa6 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -236,13 +236,13 @@ class LinearMapping(Mapping):
                 [[1, 0, self.cof[0]], [0, 1, self.cof[1]]], dtype=self.dtype
             )
         elif self.transfotype == transformationType.rigid:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.similarity:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.affine:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.projective:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         else:
             raise ValueError("Transformation does not have an affine part")
 
-- 
2.43.0


From da6d7826e37a04d79ebf2b39013b736c4b6ddb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 119/185] fix: setprojective of a non-projective transformation

---
 src/spectrocrunch/align/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 6f6aaa6..6dd2eb0 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -253,11 +253,11 @@ class LinearMapping(Mapping):
             self.cof = self.getidentity()
             self.settranslation(trn)
         elif self.transfotype == transformationType.rigid:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.similarity:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.affine:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.projective:
             pass
         else:
-- 
2.43.0


From 910460817406dc863ce334a37985f00b5ee7ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 120/185] fix: fromtransform between transformation types

---
 src/spectrocrunch/align/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 6dd2eb0..0c5b59d 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -445,7 +445,7 @@ class LinearMapping(Mapping):
         self.transfotype = transformobj.transfotype
         self.dtype = transformobj.dtype
         self.cval = transformobj.cval
-        self.cof[:] = transformobj.cof[:]
+        self.cof = transformobj.cof.copy()
 
     def _solvelinearsystem(self, A, b):
         sol = lstsq(A, b)
-- 
2.43.0


From 76ef06ab02eea444cdb0872f29e1d9c1443f203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 121/185] fix: translation of homogeneous coordinates

---
 src/spectrocrunch/align/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 0c5b59d..fedb478 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -428,14 +428,16 @@ class LinearMapping(Mapping):
                 if xy.shape[0] == 2:
                     return xy + C
                 elif xy.shape[0] == 3:
-                    return np.append(xy[0:2] + C, xy[2])
+                    return np.append(xy[0:2] + C * xy[2], xy[2])
                 else:
                     raise ValueError("Shape of coordinates cannot be handled")
             else:
                 if xy.shape[0] == 2:
                     return xy + C[:, np.newaxis]
                 elif xy.shape[0] == 3:
-                    return np.vstack((xy[0:2, :] + C[:, np.newaxis], xy[2, :]))
+                    return np.vstack(
+                        (xy[0:2, :] + C[:, np.newaxis] * xy[2, :], xy[2, :])
+                    )
                 else:
                     raise ValueError("Shape of coordinates cannot be handled")
         else:
-- 
2.43.0


From 06f3de64ccf89c41e8f36fd4d4c09ca78b095d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 122/185] fix: rigid transformation from exact point pairs

---
 src/spectrocrunch/align/transform.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index fedb478..379aaa2 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -499,8 +499,8 @@ class LinearMapping(Mapping):
         # R.(X-Xcen) = Y-Ycen
         # R.X + T = Y   and   T = Ycen - R.Xcen
 
-        censrc = np.asarray([self.centroid(xdest), self.centroid(ydest)])[:, np.newaxis]
-        cendest = np.asarray([self.centroid(xsrc), self.centroid(ysrc)])[:, np.newaxis]
+        censrc = np.asarray([np.mean(xdest), np.mean(ydest)])[:, np.newaxis]
+        cendest = np.asarray([np.mean(xsrc), np.mean(ysrc)])[:, np.newaxis]
 
         X = np.vstack([xdest, ydest])
         Y = np.vstack([xsrc, ysrc])
@@ -508,8 +508,12 @@ class LinearMapping(Mapping):
         S = np.dot(
             np.dot(X - censrc, np.identity(len(xdest))), np.transpose(Y - cendest)
         )
-        U, s, V = np.linalg.svd(S, full_matrices=False)
-        C = np.dot(V, np.transpose(U))
+        U, s, Vt = np.linalg.svd(S, full_matrices=False)
+        C = np.dot(Vt.T, U.T)
+        if np.linalg.det(C) < 0:
+            # Rotation instead of reflection
+            Vt[-1, :] *= -1
+            C = np.dot(Vt.T, U.T)
         self.setlinear(C)
 
         # self.settranslation(cendest - C.dot(censrc))
-- 
2.43.0


From ea3238aae971f2637767e8a4987374113a1c5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 123/185] fix: shift by whole pixels next to missing data

---
 src/spectrocrunch/align/transform.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 379aaa2..7a9c217 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -65,15 +65,11 @@ class LinearMapping(Mapping):
             return img
         if self.transfotype == transformationType.translation:
             # shift: takes transformation vector for coordinates (y,x)
-            return shift(
-                img, -self.cof[1::-1], cval=self.cval, **self.interpolationargs
-            )
+            return self._shiftimage(img, -self.cof[1::-1])
         else:
             if self.islinearidentity():
                 # shift: takes transformation vector for coordinates (y,x)
-                return shift(
-                    img, -self.cof[1::-1, 2], cval=self.cval, **self.interpolationargs
-                )
+                return self._shiftimage(img, -self.cof[1::-1, 2])
             elif self.isprojidentity():
                 # affine_transform: takes change-of-frame matrix
                 #                   for coordinates (y,x)
@@ -87,6 +83,13 @@ class LinearMapping(Mapping):
             else:
                 raise NotImplementedError()
 
+    def _shiftimage(self, img, trn):
+        interpolationargs = self.interpolationargs
+        if np.array_equal(trn, np.round(trn)):
+            # No interpolation between pixels (they could be NaN)
+            interpolationargs = dict(interpolationargs, order=0)
+        return shift(img, trn, cval=self.cval, **interpolationargs)
+
     def __repr__(self):
         if self.transfotype == transformationType.translation:
             return "tx = {}, ty = {}".format(self.cof[0], self.cof[1])
-- 
2.43.0


From 522155a1ceb031773437bd9de09cb5d333b4f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 124/185] fix: padding has priority over cropping

---
 src/spectrocrunch/align/align.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 67bc140..45bb52a 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -537,6 +537,7 @@ class align(object):
     def bextendfrommask(self, pairwise):
         return (
             self.post_transform_requested["crop"]
+            and not self.pre_transform_requested["pad"]
             and self.cval is np.nan
             and (
                 self.pre_align["roi"] is None
-- 
2.43.0


From b0ca7439f6e47bddf3d30f743cba6b00f3b70334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 125/185] fix: alignment ROI without end

---
 src/spectrocrunch/align/align.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 45bb52a..78d51a8 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -827,15 +827,9 @@ class align(object):
                 else:
                     return a
 
-            def edefault(a):
-                if a is None:
-                    return -1
-                else:
-                    return a
-
             self.pre_align["roi"] = (
-                (bdefault(roi[0][0]), edefault(roi[0][1])),
-                (bdefault(roi[1][0]), edefault(roi[1][1])),
+                (bdefault(roi[0][0]), roi[0][1]),
+                (bdefault(roi[1][0]), roi[1][1]),
             )
         self.calccof_prealign_to_raw()
 
-- 
2.43.0


From 1c825ccb947c5c403426cfe957c068976033ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 126/185] fix: pairwise alignment on raw images without padding
 or cropping

---
 src/spectrocrunch/align/align.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 78d51a8..dcf9fb2 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -803,6 +803,7 @@ class align(object):
                         and self.nopre_align()
                         and self.nopre_transform(i)
                         and self.nopost_transform()
+                        and not (pairwise and self.alignonraw)
                     )
                     if usealignedimage:
                         img = imgaligned
-- 
2.43.0


From b77653f74e915e7f08b9f46c04266a0be8c5e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 127/185] fix: origin of the alignment ROI

---
 src/spectrocrunch/align/align.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index dcf9fb2..aede602 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -283,7 +283,7 @@ class align(object):
         CroiInv = self.defaulttransform(ttype=transformationType.translation)
         if self.pre_align["roi"] is not None:
             # cof raw to pre-align
-            ty, tx = self.pre_align["roi"][:][0]
+            (ty, _), (tx, _) = cliproi(self.source.imgsize, self.pre_align["roi"])
             # cof pre-align to raw
             CroiInv.settranslation(-tx, -ty)
         for prealign_to_raw, prealign_to_pretransform, pretransfo in zip(
-- 
2.43.0


From b2878c5186cd6e087c7a59f0dd4d631117526d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 128/185] fix: cropping when nothing is left

---
 src/spectrocrunch/align/align.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index aede602..b399d8b 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -561,6 +561,12 @@ class align(object):
         """If all transformations are applied, padding/cropping can be calculated"""
         indvalidrow = np.argwhere(self._extendmask.sum(axis=1))
         indvalidcol = np.argwhere(self._extendmask.sum(axis=0))
+        if not indvalidrow.size:
+            logger.warning("Cropping skipped because there would be nothing left.")
+            self.extend = ((0, 0), (0, 0))
+            self.pre_transform["pad"] = False
+            self.post_transform["crop"] = False
+            return
         # When pre_align["roi"]: only valid for translations
         ymin = indvalidrow[0][0]
         ymax = indvalidrow[-1][0] - self._extendmask.shape[0] + self.source.imgsize[0]
-- 
2.43.0


From dee9240296d31937cdfbfc2b855545b6f99587d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 129/185] fix: overwrite aligned HDF5 datasets with a name
 extension

---
 src/spectrocrunch/align/alignDest.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/align/alignDest.py b/src/spectrocrunch/align/alignDest.py
index d16d9df..367a47b 100755
--- a/src/spectrocrunch/align/alignDest.py
+++ b/src/spectrocrunch/align/alignDest.py
@@ -106,11 +106,13 @@ class alignDest(object):
         return self.h5_setnames(path)
 
     def h5_datasetscheck(self, shape, dtype):
-        return all(
-            self.handle[self.h5_composesetname(self.dir, name)].shape == shape
-            and self.handle[name].dtype == dtype
-            for name in self.names
-        )
+        for setname in self.h5_setnames(self.dir):
+            if setname not in self.handle:
+                return False
+            dset = self.handle[setname]
+            if dset.shape != shape or dset.dtype != dtype:
+                return False
+        return True
 
     def h5_createdatasets(self, setnames, shape, dtype):
         self.datasets = [
-- 
2.43.0


From b2b8db09f8f5b9b586473c9c4ab6c4a6fe86ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 130/185] fix: HDF5 group as alignment destination

---
 src/spectrocrunch/align/alignDest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/alignDest.py b/src/spectrocrunch/align/alignDest.py
index 367a47b..9954496 100755
--- a/src/spectrocrunch/align/alignDest.py
+++ b/src/spectrocrunch/align/alignDest.py
@@ -56,7 +56,7 @@ class alignDest(object):
         elif isinstance(dest, h5py.File) or isinstance(dest, h5py.Group):
             self.desttype = dataType.h5
             self.handle = dest
-            self.dir = "/"
+            self.dir = dest.name
             self.names = [s.strip(r"\/") for s in names]
             self.ext = extension
             # Datasets: self.dir+self.names[i]+self.ext
-- 
2.43.0


From f9212fdbf71996101f6957fe1273347287f264fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 131/185] fix: destination directory of aligned images

---
 src/spectrocrunch/align/alignDest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/alignDest.py b/src/spectrocrunch/align/alignDest.py
index 9954496..d9288b8 100755
--- a/src/spectrocrunch/align/alignDest.py
+++ b/src/spectrocrunch/align/alignDest.py
@@ -144,7 +144,7 @@ class alignDest(object):
         )
 
     def singlefile_datasetsexist(self, path):
-        return all(
+        return any(
             len(glob.glob(os.path.join(path, s) + "*" + self.ext)) != 0
             for s in self.names
         )
-- 
2.43.0


From e675ae3256f183ece3a91d803adae90b72c568e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 132/185] fix: merging HDF5 strings (bytes when read)

---
 src/spectrocrunch/process/h5merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 753a068..02d8239 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -151,6 +151,8 @@ def stack_h5datasets(
     else:
         # Cannot make VDS of scalar datasets
         arr = [dset[()] for dset in sources]
+        if isinstance(arr[0], bytes):
+            arr = [s.decode("utf-8") for s in arr]
         if isinstance(arr[0], str):
             if name == "end_time":
                 arr = arr[-1]
-- 
2.43.0


From 3b022b462cdfe02abd5f7b68e5338fa701d8f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 133/185] fix: title of a Bliss mesh (bytes when read)

---
 src/spectrocrunch/process/h5merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 02d8239..757ea3b 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -341,6 +341,8 @@ class MergedBlissMesh(MergedBlissScan):
         cmd = sources[0]["title"][()]
         for s in sources:
             assert cmd == s["title"][()]
+        if isinstance(cmd, bytes):
+            cmd = cmd.decode("utf-8")
         parts = cmd.split(" ")
         shape = int(parts[4]), int(parts[8]) + 1
         return {shape[0] * shape[1]: shape}
-- 
2.43.0


From ab53ff0bf5fe5395e90de9ecc87d594ba915e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 134/185] fix: shape of merged Bliss meshes

---
 src/spectrocrunch/process/h5merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 757ea3b..066b5d5 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -345,7 +345,7 @@ class MergedBlissMesh(MergedBlissScan):
             cmd = cmd.decode("utf-8")
         parts = cmd.split(" ")
         shape = int(parts[4]), int(parts[8]) + 1
-        return {shape[0] * shape[1]: shape}
+        return {(shape[0] * shape[1],): shape}
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 0246a187849c347aac7ad5c3a2929eb0edf3c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 135/185] fix: tiling scans with too many or missing points

---
 src/spectrocrunch/process/h5merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 066b5d5..347d1c5 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -45,6 +45,8 @@ def match_shapes(shapes, keep_shapes_when_equal=True):
         raise ValueError("Cannot match shapes {}".format(shapes))
     n_last_new = n_chunks * chunk_size // chunk_sizes
     new_shapes = [shape[:-1] + (nlast,) for (shape, nlast) in zip(shapes, n_last_new)]
+    if keep_shapes_when_equal:
+        return new_shapes
     return [
         tuple() if shape == new_shape else new_shape
         for shape, new_shape in zip(shapes, new_shapes)
@@ -210,7 +212,6 @@ def tile_h5datasets(dest, name, sources, shape_map, tile_shape, nscandim=1):
         det_idx = tuple(slice(0, n) for n in det_shape)
         if reduced_source_shape != vsource.shape:
             vsource_idx = tuple(slice(0, n) for n in reduced_source_shape)
-            vsource_idx += det_idx
             vsource = vsource[vsource_idx]
         layout_idx += det_idx
         layout[layout_idx] = vsource
-- 
2.43.0


From f247ca167487c81d55ca2ce336b37cf55c4757b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 136/185] fix: tile size when all scans are interrupted

---
 src/spectrocrunch/process/h5merge.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 347d1c5..50c60a4 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -66,14 +66,15 @@ def max_shape(shapes):
     return tuple(numpy.array([list(shape) for shape in shapes]).max(axis=0))
 
 
-def tile_indices(tile_shape, shapes, order="C"):
+def tile_indices(tile_shape, shapes, order="C", max_shapes=None):
     """
     :param tuple tile_shape:
     :param list(tuple) sources:
     :param str order: "C" or "F:
+    :param list(tuple) max_shapes: shapes that need to fit in a tile (`shapes` by default)
     :return tuple, list(slice):
     """
-    dset_max_shape = numpy.array(list(max_shape(shapes)))
+    dset_max_shape = numpy.array(list(max_shape(max_shapes or shapes)))
     layout_shape = dset_max_shape * numpy.array(tile_shape)
     layout_shape = tuple(layout_shape.tolist())
 
@@ -180,6 +181,7 @@ def tile_h5datasets(dest, name, sources, shape_map, tile_shape, nscandim=1):
         shape_map.get(scan_shape, scan_shape) for scan_shape in scan_shapes
     ]  # F-order
     reshaped_scan_shapes = [s[::-1] for s in reshaped_scan_shapes]  # C-order
+    full_scan_shapes = reshaped_scan_shapes
 
     reduced_scan_shapes, reshaped_scan_shapes = zip(
         *(
@@ -191,7 +193,7 @@ def tile_h5datasets(dest, name, sources, shape_map, tile_shape, nscandim=1):
     tile_shape = tile_shape[::-1]  # C-order
 
     layout_scan_shape, indices = tile_indices(
-        tile_shape, reshaped_scan_shapes, order="C"
+        tile_shape, reshaped_scan_shapes, order="C", max_shapes=full_scan_shapes
     )
 
     layout_shape = layout_scan_shape + max_shape(det_shapes)
-- 
2.43.0


From d8fc2aef36b1447f79970fec1f7f48c9c686c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 137/185] fix: stacking interrupted scans with detector
 dimensions

---
 src/spectrocrunch/process/h5merge.py | 38 ++++++++++++++++------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 50c60a4..1f5da68 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -53,13 +53,23 @@ def match_shapes(shapes, keep_shapes_when_equal=True):
     ]
 
 
-def layout_slicing(source_shape, layout_shape):
-    return [
-        tuple(slice(0, n) for n in shape)
-        for shape in match_shapes(
-            [source_shape, layout_shape], keep_shapes_when_equal=False
-        )
-    ]
+def layout_slicing(source_shape, layout_scan_shape, nscandim):
+    """
+    :param tuple source_shape: scan dimensions (F-order) and data dimensions
+    :param tuple layout_scan_shape: scan dimensions (C-order)
+    :param int nscandim: start index of the data dimensions
+    :return 2-tuple(tuple(slice)): source and layout
+    """
+    source_scan_shape = source_shape[:nscandim]
+    data_shape = source_shape[nscandim:]
+    new_source_shape, new_layout_shape = match_shapes(
+        [source_scan_shape, layout_scan_shape[::-1]], keep_shapes_when_equal=True
+    )
+    data_idx = tuple(slice(0, n) for n in data_shape)
+    layout_idx = tuple(slice(0, n) for n in new_layout_shape[::-1]) + data_idx
+    if new_source_shape == source_scan_shape:
+        return tuple(), layout_idx
+    return tuple(slice(0, n) for n in new_source_shape) + data_idx, layout_idx
 
 
 def max_shape(shapes):
@@ -126,8 +136,7 @@ def stack_h5datasets(
                 shape=dset.shape,
                 dtype=dset.dtype,
             )
-            vsource_idx, layout_idx = layout_slicing(dset.shape, shape[::-1])
-            layout_idx = layout_idx[::-1]
+            vsource_idx, layout_idx = layout_slicing(dset.shape, scan_shape, nscandim)
             if vsource_idx:
                 vsource = vsource[vsource_idx]
             layout[layout_idx] = vsource
@@ -141,15 +150,12 @@ def stack_h5datasets(
                     shape=dset.shape,
                     dtype=dset.dtype,
                 )
-                vsource_idx, layout_idx = layout_slicing(dset.shape, shape[-1:0:-1])
-                layout_idx = layout_idx[::-1]
+                vsource_idx, layout_idx = layout_slicing(
+                    dset.shape, scan_shape, nscandim
+                )
                 if vsource_idx:
                     vsource = vsource[vsource_idx]
-                if layout_idx:
-                    layout_idx = (i,) + layout_idx
-                else:
-                    layout_idx = i
-                layout[layout_idx] = vsource
+                layout[(i,) + layout_idx] = vsource
         dest.create_virtual_dataset(name, layout, fillvalue=fillvalue)
     else:
         # Cannot make VDS of scalar datasets
-- 
2.43.0


From 54469484938eb8ed14827447f10ceb2472056399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 138/185] fix: inherited property of annotated parameter keys

---
 src/spectrocrunch/pipelines/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index f78d4c9..e5bc39e 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -21,7 +21,7 @@ class AnnotatedKey(object):
 
     @property
     def inherited(self):
-        return not self.local
+        return not self.localcontext
 
     def __repr__(self):
         if self.localcontext:
-- 
2.43.0


From 279f60b475985a73b37ee8dec726edfed02bb858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 139/185] fix: check whether a parameter is inherited

---
 src/spectrocrunch/pipelines/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index e5bc39e..4fd9258 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -83,7 +83,7 @@ class BaseNode(collections.abc.MutableMapping):
 
     def fromdict(self, dic, override=True, recursive=False):
         if not override:
-            dic = {k: v for k, v in dic.items() if not self.inherited(k)}
+            dic = {k: v for k, v in dic.items() if not self.isinheritedkey(k)}
 
         if recursive:
             self.update_recursive(dic)
@@ -293,7 +293,7 @@ class BaseNode(collections.abc.MutableMapping):
         return any(key in m for m in self._maps())
 
     def isinheritedkey(self, key):
-        return any(key in m for m in self._maps()[1:])
+        return any(key in m for m in self._maps(withself=False))
 
     def islocalkey(self, key):
         return key in self._map()
-- 
2.43.0


From 8f386e684e664f2e02b44868b286786bd06cfde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 140/185] fix: inheritance of nested parameters over more than
 one level

---
 src/spectrocrunch/pipelines/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index 4fd9258..7a67334 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -587,7 +587,7 @@ class SubNodeReferenceUp(SubNodeReference):
             subkeys.append(node._key)
             node = node._direct_parent
         self._node = node
-        self._subkeys = reversed(subkeys)
+        self._subkeys = subkeys[::-1]
 
     @property
     def subnode(self):
-- 
2.43.0


From fdb3194809a45f945188c1c4b61c2e2d0163e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 141/185] fix: reading nested parameters creates them in
 parents and children

---
 src/spectrocrunch/pipelines/parameters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index 7a67334..7c042f0 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -614,7 +614,12 @@ class SubNodeReferenceDown(SubNodeReference):
             return None
         subnode = self.node
         for key in self.subkeys:
-            subnode = subnode._getitem_subnode(key)
+            try:
+                subnode = subnode._getitem_local(key)
+            except KeyError:
+                return None
+            if not isinstance(subnode, BaseSubNode):
+                return None
         return subnode
 
     @property
-- 
2.43.0


From e9541ea74562c0d2373860727f2a0dfa63b0ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 142/185] fix: inserting new parameter nodes before the root or
 after a node

---
 src/spectrocrunch/pipelines/parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index 7c042f0..aab3cf3 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -457,10 +457,10 @@ class Node(BaseNode):
     def insert_before(self, node=None, single=False, **kwargs):
         """Insert a node before this one"""
         newparent = None
-        if node is self.parent or node is self:
-            return node, newparent
         if node is None:
             node = self.__class__(**kwargs)
+        if node is self.parent or node is self:
+            return node, newparent
         if single:
             newparent = node.remove(single=True)
         self.parent, keep = node, self.parent
@@ -471,10 +471,10 @@ class Node(BaseNode):
     def insert_after(self, node=None, single=False, **kwargs):
         """Insert a node after this one"""
         newparent = None
-        if self is node.parent or node is self:
-            return node, newparent
         if node is None:
             node = self.__class__(**kwargs)
+        if self is node.parent or node is self:
+            return node, newparent
         if single:
             newparent = node.remove(single=True)
         for child in list(self.children):
-- 
2.43.0


From a45d19a968bf46cd9f3e87222bf6e50b93291d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 143/185] fix: range of jobs in batch

---
 src/spectrocrunch/pipelines/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/pipelines/batch.py b/src/spectrocrunch/pipelines/batch.py
index 1edc352..4b76456 100755
--- a/src/spectrocrunch/pipelines/batch.py
+++ b/src/spectrocrunch/pipelines/batch.py
@@ -109,7 +109,7 @@ def context():
             else:
                 b = len(jobs)
             a, b = min(a, b), max(a, b)
-            ind = ind + range(a, b + 1)
+            ind = ind + list(range(a, b + 1))
 
         for i in ind:
             try:
-- 
2.43.0


From 2afd722e5ea19b047d23d3f0368dac9c337bc9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 144/185] fix: job numbers below one

---
 src/spectrocrunch/pipelines/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/pipelines/batch.py b/src/spectrocrunch/pipelines/batch.py
index 4b76456..d38c474 100755
--- a/src/spectrocrunch/pipelines/batch.py
+++ b/src/spectrocrunch/pipelines/batch.py
@@ -113,6 +113,8 @@ def context():
 
         for i in ind:
             try:
+                if i < 1:
+                    raise IndexError(i)
                 job = jobs[i - 1]
             except IndexError:
                 logger.error("Invalid job {} of {}".format(i, len(jobs)))
-- 
2.43.0


From f99118bbb12d8f017d4d20da2919b806ad8047f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 145/185] fix: first job beyond the last job

---
 src/spectrocrunch/pipelines/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/pipelines/batch.py b/src/spectrocrunch/pipelines/batch.py
index d38c474..9d05a79 100755
--- a/src/spectrocrunch/pipelines/batch.py
+++ b/src/spectrocrunch/pipelines/batch.py
@@ -108,7 +108,8 @@ def context():
                 b = args.bjob
             else:
                 b = len(jobs)
-            a, b = min(a, b), max(a, b)
+            if args.bjob > 0:
+                a, b = min(a, b), max(a, b)
             ind = ind + list(range(a, b + 1))
 
         for i in ind:
-- 
2.43.0


From ff5d3bb21e0b489950a0a2e3cff986c336e25786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:45 +0000
Subject: [PATCH 146/185] fix: instantiate references to nested parameters

---
 src/spectrocrunch/pipelines/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index aab3cf3..d093908 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -537,6 +537,10 @@ class SubNodeReference(BaseSubNode):
     def __init__(self):
         super(SubNodeReference, self).__init__()
 
+    @property
+    def name(self):
+        return self.subkeys[-1]
+
     @property
     def parent(self):
         if self.node is None:
-- 
2.43.0


From 8f112c3a86821d05f6d3c2d82505c099e8a42bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:43 +0000
Subject: [PATCH 147/185] fix: save the distance calibration data of a linear
 XRF geometry

---
 src/spectrocrunch/geometries/xrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index fe0e918..3e1e318 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -498,7 +498,7 @@ class LinearXRFGeometry(XRFGeometry):
 
     def set_calibrc(self, calibrc):
         calibrc["positionunits"] = calibrc.get("positionunits", self.positionunits)
-        super(LinearXRFGeometry, self).set_calibrc(calibrc)
+        self._set_calibrc(calibrc)
 
 
 class sxm120(LinearXRFGeometry):
-- 
2.43.0


From 23ade94e4bc7a3ee0c50197685cf381ffc8faf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:43 +0000
Subject: [PATCH 148/185] fix: position sign of XRF geometries

---
 src/spectrocrunch/geometries/xrf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index 3e1e318..993ec62 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -510,7 +510,7 @@ class sxm120(LinearXRFGeometry):
         kwargs["sample_azimuth"] = kwargs.get("sample_azimuth", 180)
         kwargs["detector_azimuth"] = kwargs.get("detector_azimuth", 0)
         kwargs["positionunits"] = kwargs.get("positionunits", "mm")
-        kwargs["positionsign"] = kwargs.get("sign", 1)
+        kwargs["positionsign"] = kwargs.get("positionsign", 1)
         kwargs["zerodistance"] = units.Quantity(kwargs.get("zerodistance", 57.0), "mm")
         kwargs["detectorposition"] = kwargs.get("detectorposition", 0)
         super(sxm120, self).__init__(**kwargs)
@@ -525,7 +525,7 @@ class sxm90(LinearXRFGeometry):
         kwargs["sample_azimuth"] = kwargs.get("sample_azimuth", 180)
         kwargs["detector_azimuth"] = kwargs.get("detector_azimuth", 0)
         kwargs["positionunits"] = kwargs.get("positionunits", "mm")
-        kwargs["positionsign"] = kwargs.get("sign", 1)
+        kwargs["positionsign"] = kwargs.get("positionsign", 1)
         kwargs["zerodistance"] = units.Quantity(
             kwargs.get("zerodistance", 85.571), "mm"
         )
@@ -542,7 +542,7 @@ class microdiff(LinearXRFGeometry):
         kwargs["sample_azimuth"] = kwargs.get("sample_azimuth", 180)
         kwargs["detector_azimuth"] = kwargs.get("detector_azimuth", 0)
         kwargs["positionunits"] = kwargs.get("positionunits", "mm")
-        kwargs["positionsign"] = kwargs.get("sign", -1)
+        kwargs["positionsign"] = kwargs.get("positionsign", -1)
         kwargs["zerodistance"] = units.Quantity(
             kwargs.get("zerodistance", -56.667), "mm"
         )
@@ -558,7 +558,7 @@ class ID16b_Virtual1(LinearXRFGeometry):
         kwargs["sample_azimuth"] = kwargs.get("sample_azimuth", 180)
         kwargs["detector_azimuth"] = kwargs.get("detector_azimuth", 0)
         kwargs["positionunits"] = kwargs.get("positionunits", "mm")
-        kwargs["positionsign"] = kwargs.get("sign", 1)
+        kwargs["positionsign"] = kwargs.get("positionsign", 1)
         kwargs["zerodistance"] = units.Quantity(kwargs.get("zerodistance", 0.0), "mm")
         kwargs["detectorposition"] = units.Quantity(
             kwargs.get("detectorposition", 20.0), "mm"
-- 
2.43.0


From f4cc501fcb44cb8774bc1c715c3aa8fbc469eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:43 +0000
Subject: [PATCH 149/185] fix: linear motor expected values

---
 src/spectrocrunch/geometries/xrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index 993ec62..e18afc8 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -80,7 +80,7 @@ class LinearMotor(Copyable):
         if rv:
             zerodistance = self.zerodistance_rv
         else:
-            zerodistance = self.zerodistance_rv
+            zerodistance = self.zerodistance
 
         if detectorposition is None:
             if distance is not None:
-- 
2.43.0


From 413ea37e30e345d6d571a8a9c99af5d1043a34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:36 +0000
Subject: [PATCH 150/185] fix: noise and Fano factor of the ID16b detector

---
 src/spectrocrunch/detectors/xrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/xrf.py b/src/spectrocrunch/detectors/xrf.py
index e5e3202..2315335 100755
--- a/src/spectrocrunch/detectors/xrf.py
+++ b/src/spectrocrunch/detectors/xrf.py
@@ -986,8 +986,8 @@ class ID16b_Virtual1(XRFDetector):
         kwargs["activearea"] = units.Quantity(activearea, "cm^2")
         kwargs["mcazero"] = kwargs.get("mcazero", 0.0)  # keV
         kwargs["mcagain"] = kwargs.get("mcagain", 10e-3)  # keV
-        kwargs["mcanoise"] = kwargs.get("mcagain", 0.1)  # keV
-        kwargs["mcafano"] = kwargs.get("mcagain", 0.114)
+        kwargs["mcanoise"] = kwargs.get("mcanoise", 0.1)  # keV
+        kwargs["mcafano"] = kwargs.get("mcafano", 0.114)
         ehole = kwargs.get("ehole", constants.eholepair_si())
         kwargs["ehole"] = units.Quantity(ehole, "eV")
         super(ID16b_Virtual1, self).__init__(**kwargs)
-- 
2.43.0


From 63bf74ff01771e33f942c2d2e3ccc8de267c367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 151/185] fix: copies of XRF geometries equal the original

---
 src/spectrocrunch/geometries/xrf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/geometries/xrf.py b/src/spectrocrunch/geometries/xrf.py
index e18afc8..0cc5188 100755
--- a/src/spectrocrunch/geometries/xrf.py
+++ b/src/spectrocrunch/geometries/xrf.py
@@ -319,9 +319,11 @@ class XRFGeometry(with_metaclass(base.Centric)):
 
     def __setstate__(self, state):
         self.distancefunc = state["distancefunc"]
-        self.distancekwargs = state["distancekwargs"]
+        self.distancekwargs = None
         self._calibrcfile = state["_calibrcfile"]
         super(XRFGeometry, self).__setstate__(state)
+        # Restore exactly (modified by restoring the distance)
+        self.distancekwargs = state["distancekwargs"]
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -449,8 +451,8 @@ class LinearXRFGeometry(XRFGeometry):
 
     def __setstate__(self, state):
         super(LinearXRFGeometry, self).__setstate__(state)
+        # Detector position is part of "distancekwargs"
         self.positionunits = state["positionunits"]
-        self.detectorposition = state["detectorposition"]
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
-- 
2.43.0


From dc55f7f7557e95df57aebf3a6a01b926b574a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 152/185] fix: diode counts to current or voltage

---
 src/spectrocrunch/detectors/diode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 7305096..5d7ec00 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1046,7 +1046,7 @@ class PNdiode(with_metaclass(base.SolidState)):
         Returns:
             callable: slope (C/cts), intercept(C/s)
         """
-        return self.op_cpstocurrent * self.op_countstocps(time)
+        return self.op_cpstocurrent() * self.op_countstocps(time)
 
     def op_voltagetocps(self):
         """Operator to convert voltage to counts-per-second
@@ -1317,7 +1317,7 @@ class PNdiode(with_metaclass(base.SolidState)):
         Returns:
             num or array: voltage (V)
         """
-        op = self.op_cpstovoltage(time)
+        op = self.op_countstovoltage(time)
         return op(units.Quantity(counts, "dimensionless")).to("volt")
 
     def voltagetoflux(self, energy, voltage, weights=None):
-- 
2.43.0


From 6696e5bd25cab6898dc671699f7d8d4ea3850488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 153/185] fix: diode gain from a scalar response or from counts

---
 src/spectrocrunch/detectors/diode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 5d7ec00..cb281c4 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1467,7 +1467,7 @@ class PNdiode(with_metaclass(base.SolidState)):
             tmp = response_after.to("dimensionless")
             if time is None:
                 raise RuntimeError("Need exposure time to convert counts to flux.")
-            V_meas = self.countstovoltage(time, tmp, weights=weights)
+            V_meas = self.countstovoltage(time, tmp)
 
         # Voltage from the signal before the gain is applied
         response_before = units.Quantity(response_before, "Hz")
@@ -1490,8 +1490,9 @@ class PNdiode(with_metaclass(base.SolidState)):
             # V_calc: proportional to the assumed gain
             r = units.magnitude(V_meas / V_calc, "dimensionless")
 
+        r = np.asarray(r)
         r = np.median(r[np.isfinite(r)])
-        if np.isfinite(r and r > 0):
+        if np.isfinite(r) and r > 0:
             return self.gainrounder(self.gain * r)
         else:
             return None
-- 
2.43.0


From 6399e13f9280e4dbaa4e3d2c13329618c850546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 154/185] fix: direct detection of several source lines

---
 src/spectrocrunch/detectors/diode.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index cb281c4..5224a2f 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -664,7 +664,6 @@ class PNdiode(with_metaclass(base.SolidState)):
                 * self.filter_transmission(energy, source=True)
                 * self.filter_transmission(energy, source=False)
             )
-            wY = wY.sum(axis=-1, keepdims=True)
         else:
             # Target spectrum energies and rates (ph/phsource)
             secondarytarget_ratedict = None
-- 
2.43.0


From 23a1ba4bb8f0670ccb4271aade0c055a98fa033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 155/185] fix: simple calibration with several source lines

---
 src/spectrocrunch/detectors/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 5224a2f..179e68d 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -789,7 +789,7 @@ class PNdiode(with_metaclass(base.SolidState)):
             # Cs = SUM_i [SUM_j[wi.Yij.Cj]] / SUM_k [wk.Tks]
             #    = SUM_i [wi . Csi]
             self._lut_chargepersamplephoton.replace(
-                units.Quantity(energy, "keV"), Cscalib / weights
+                units.Quantity(energy, "keV"), Cscalib * np.ones_like(weights)
             )
             Cscalc = self._chargepersamplephoton(energy, weights=weights)
         else:
-- 
2.43.0


From 4a3ed3d32c3a0f523ab533d221759de52198ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 156/185] fix: optics transmission calibration with several
 source lines

---
 src/spectrocrunch/detectors/diode.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 179e68d..095904e 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -849,9 +849,16 @@ class PNdiode(with_metaclass(base.SolidState)):
                     if plot:
                         print(info)
                 else:
+                    if caliboption == "optics":
+                        # Same correction for the transmission of all lines
+                        x0 = 1.0
+                        scale = xorg
+                    else:
+                        scale = 1.0
                     x, infodict, ier, emsg = scipy.optimize.fsolve(
-                        func, x0=x0, full_output=True
+                        lambda xi: func(xi * scale), x0=x0, full_output=True
                     )
+                    x = x * scale
                     if plot:
                         print(infodict)
                         print(emsg, ier)
@@ -904,7 +911,7 @@ class PNdiode(with_metaclass(base.SolidState)):
         return Cs, xorg, x0
 
     def _calibrate_apply(self, energy, x, xorg, caliboption="optics"):
-        if np.isnan(x):
+        if np.isnan(x).any():
             logger.error("Diode calibration not succesfull")
             x = xorg
         if caliboption == "thickness":
@@ -917,7 +924,7 @@ class PNdiode(with_metaclass(base.SolidState)):
                 )
             self.thickness = x
         elif caliboption == "optics":
-            if x < 0 or x > 1:
+            if np.any(x < 0) or np.any(x > 1):
                 logger.warning(
                     "Transmission of {} % is not valid but will be accepted anyway".format(
                         x * 100
-- 
2.43.0


From 64938596d5cddb9ae5cf9599376e2a39a0fcce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 157/185] fix: tabulated spectral responsivity of several
 multi-line sources

---
 src/spectrocrunch/detectors/diode.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 095904e..d02f2ef 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1749,9 +1749,12 @@ class CalibratedPNdiode(PNdiode):
             r = self.finterpol(energy)
             ind = np.isnan(r)
             try:
-                if any(ind):
-                    r[ind] = super(CalibratedPNdiode, self).spectral_responsivity(
-                        energy[ind]
+                if ind.any():
+                    r[ind] = (
+                        super(CalibratedPNdiode, self)
+                        .spectral_responsivity(energy[ind])
+                        .to("A/W")
+                        .magnitude
                     )
             except TypeError:
                 if ind:
-- 
2.43.0


From 0ea129f6bbbbbe277ec5220568842d05182566e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 158/185] fix: quantification info of a QXRF geometry

---
 src/spectrocrunch/geometries/qxrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/qxrf.py b/src/spectrocrunch/geometries/qxrf.py
index 947a4a0..1b6bb19 100755
--- a/src/spectrocrunch/geometries/qxrf.py
+++ b/src/spectrocrunch/geometries/qxrf.py
@@ -451,7 +451,7 @@ class QXRFGeometry(with_metaclass(Copyable)):
             quant["activearea"] = geom.detector.activearea
             quant["anglein"] = geom.anglein
             quant["angleout"] = geom.angleout
-            quant["distance"] = self.getxrfdistance()
+            quant["distance"] = geom.distance
             quants.append(quant)
 
         return xrfnormop, quants
-- 
2.43.0


From 2d237c3b6599e319d7ae6790bb6d3983402c3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 159/185] fix: diode calibration without specifying whether the
 beam is dark

---
 src/spectrocrunch/geometries/qxrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/geometries/qxrf.py b/src/spectrocrunch/geometries/qxrf.py
index 1b6bb19..795edc2 100755
--- a/src/spectrocrunch/geometries/qxrf.py
+++ b/src/spectrocrunch/geometries/qxrf.py
@@ -582,7 +582,7 @@ class QXRFGeometry(with_metaclass(Copyable)):
         # Prepare devices
         resetdevices = params.pop("resetdevices", False)
         params2 = self._validate_data(
-            data, staticdata, resetdevices=resetdevices, dark=params["dark"]
+            data, staticdata, resetdevices=resetdevices, dark=params.get("dark", False)
         )
         gaindiodeI0 = params.pop("gaindiodeI0", None)
         gaindiodeIt = params.pop("gaindiodeIt", None)
-- 
2.43.0


From 979413ef34195fa10f0a34a990bb1f5daf11d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:53 +0000
Subject: [PATCH 160/185] fix: units of the ID21 diode currents

---
 src/spectrocrunch/instruments/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/instruments/configuration.py b/src/spectrocrunch/instruments/configuration.py
index a33e72c..d475187 100755
--- a/src/spectrocrunch/instruments/configuration.py
+++ b/src/spectrocrunch/instruments/configuration.py
@@ -261,8 +261,8 @@ class ESRF_ID21_SXM(InstrumentInfo):
         info["units"]["It_counts"] = info["units"].get("It_counts", ureg.dimensionless)
         info["units"]["I0_cps"] = info["units"].get("I0_cps", ureg.Unit("Hz"))
         info["units"]["It_cps"] = info["units"].get("It_cps", ureg.Unit("Hz"))
-        info["units"]["I0_current"] = info["units"].get("I0_current", ureg.Unit("Hz"))
-        info["units"]["It_current"] = info["units"].get("It_current", ureg.Unit("Hz"))
+        info["units"]["I0_current"] = info["units"].get("I0_current", ureg.Unit("A"))
+        info["units"]["It_current"] = info["units"].get("It_current", ureg.Unit("A"))
         info["units"]["I0_photons"] = info["units"].get(
             "I0_photons", ureg.dimensionless
         )
-- 
2.43.0


From 4606c12f4bd9871d9f88443b4935b9d75b678ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:55 +0000
Subject: [PATCH 161/185] fix: diode calibration always converges

---
 src/spectrocrunch/detectors/diode.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index d02f2ef..0a666f5 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -827,7 +827,7 @@ class PNdiode(with_metaclass(base.SolidState)):
                 energy2, wiYij = self._detection_rates(
                     energy, weights
                 )  # nSource x nSecondary, nSource x nSecondary
-                # Solve: func(x) = (Cscalib-Cs(x))^2 = 0
+                # Solve: func(x) = Cscalib-Cs(x) = 0
                 Cs, xorg, x0 = self._calibrate_init(
                     energy, caliboption=caliboption, bound=bound
                 )
@@ -838,9 +838,16 @@ class PNdiode(with_metaclass(base.SolidState)):
                     return (
                         Cscalibm
                         - Cs(x, energy, weights, energy2, wiYij).to("e").magnitude
-                    ) ** 2
+                    )
 
-                if bound:
+                if caliboption == "optics":
+                    # Same correction for the transmission of all lines:
+                    #  transmission' = transmission*Cs/Cscalib
+                    x = xorg * units.magnitude(
+                        Cs(xorg, energy, weights, energy2, wiYij) / Cscalib,
+                        "dimensionless",
+                    )
+                elif bound:
                     x, info = scipy.optimize.bisect(
                         func, x0[0], x0[-1], full_output=True, disp=False
                     )
@@ -849,16 +856,9 @@ class PNdiode(with_metaclass(base.SolidState)):
                     if plot:
                         print(info)
                 else:
-                    if caliboption == "optics":
-                        # Same correction for the transmission of all lines
-                        x0 = 1.0
-                        scale = xorg
-                    else:
-                        scale = 1.0
                     x, infodict, ier, emsg = scipy.optimize.fsolve(
-                        lambda xi: func(xi * scale), x0=x0, full_output=True
+                        func, x0=x0, full_output=True
                     )
-                    x = x * scale
                     if plot:
                         print(infodict)
                         print(emsg, ier)
-- 
2.43.0


From 6ac68cb40474cf919efce652e0cd18c957a4fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:55 +0000
Subject: [PATCH 162/185] fix: diode current due to different lines with the
 same energy

---
 src/spectrocrunch/detectors/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index 0a666f5..b6cd1f3 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -673,7 +673,7 @@ class PNdiode(with_metaclass(base.SolidState)):
                 spectra = self.secondarytarget.xrayspectrum(
                     energy, weights=weights, withdetectorresponse=False, method="mc"
                 )
-                spectra = [dict(spectrum.spectrum()) for spectrum in spectra]
+                spectra = [spectrum.spectrum_dict for spectrum in spectra]
             else:
                 # Soure weights before the sample:
                 weights = weights * self.filter_transmission(energy, source=True)
-- 
2.43.0


From 261fe1a610eb0cff03abbc2e75b1adf82f4f78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 163/185] fix: reading big-endian EDF data modifies the file

---
 src/spectrocrunch/io/edf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/edf.py b/src/spectrocrunch/io/edf.py
index 5f8e89c..0bbafe2 100755
--- a/src/spectrocrunch/io/edf.py
+++ b/src/spectrocrunch/io/edf.py
@@ -15,7 +15,12 @@ class edfmemmap:
         self.ndim = len(self.shape)
         offset = f._frames[f.currentframe].start
         self.mdata = np.memmap(
-            filename, dtype=self.dtype, offset=offset, shape=self.shape, order="C"
+            filename,
+            dtype=self.dtype,
+            mode="c",
+            offset=offset,
+            shape=self.shape,
+            order="C",
         )
 
         if f.swap_needed():
-- 
2.43.0


From 8b9d362be0815ad0ec2f473a5ade9fb06555763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 164/185] fix: reading MCA files

---
 src/spectrocrunch/io/mca.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/mca.py b/src/spectrocrunch/io/mca.py
index c42fb82..0fbba4f 100755
--- a/src/spectrocrunch/io/mca.py
+++ b/src/spectrocrunch/io/mca.py
@@ -63,13 +63,10 @@ def read(filename):
     for s in h:
         if s.startswith("#@CALIB"):
             coeff = s.replace("#@CALIB", "").strip()
-            coeff = np.array(map(float, coeff.split(" ")))
+            coeff = np.array(list(map(float, coeff.split(" "))))
         elif s.startswith("#@CHANN"):
             tmp = s.replace("#@CHANN", "").strip()
             _, ch0, ch1, _ = list(map(int, tmp.split(" ")))
-    if len(mca):
-        # Bug in MCA reading: last channel is not read
-        mca = np.append(mca, 0)
     if ch0 == ch1:
         ch0 = 0
         ch1 = len(mca) - 1
-- 
2.43.0


From 5f39957981462ddebcdb4a7ca7104fe9c305ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 165/185] fix: reading ascii tables

---
 src/spectrocrunch/io/ascii.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/ascii.py b/src/spectrocrunch/io/ascii.py
index d11f6b0..afaa3f1 100755
--- a/src/spectrocrunch/io/ascii.py
+++ b/src/spectrocrunch/io/ascii.py
@@ -40,9 +40,9 @@ class asciifile(object):
             raise IOError("No table with header found.")
 
         # Extract data
-        colheader = re.split(r"\s*", p.group(1))
+        colheader = p.group(1).split()
         data = np.array(
-            [re.split(r"\s*", line.strip()) for line in re.split(endline, p.group(2))],
+            [line.split() for line in re.split(endline, p.group(2)) if line.strip()],
             dtype=dtype,
         )
         return (data, colheader)
-- 
2.43.0


From 6d7f88a9a5c5a8681280ed49f155003a2dd9105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 166/185] fix: target names with curly braces

---
 src/spectrocrunch/io/target.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/target.py b/src/spectrocrunch/io/target.py
index fdcaab8..af08b83 100755
--- a/src/spectrocrunch/io/target.py
+++ b/src/spectrocrunch/io/target.py
@@ -15,10 +15,15 @@ def locate_number(name):
 
 def naming_format(name):
     start, end, num, nonumber = locate_number(name)
+
+    def escape(s):
+        return s.replace("{", "{{").replace("}", "}}")
+
     if nonumber:
-        fmt = name + ".{:d}"
+        fmt = escape(name) + ".{:d}"
     else:
-        fmt = name[:start] + "{{:0{}d}}".format(end - start) + name[end:]
+        fmt = escape(name[:start]) + "{{:0{}d}}".format(end - start)
+        fmt += escape(name[end:])
     return fmt, num, nonumber
 
 
-- 
2.43.0


From 24627ab4ba40b222a3473b4d2f61447487b70c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 167/185] fix: reading a single sheet of an excel file

---
 src/spectrocrunch/io/excel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spectrocrunch/io/excel.py b/src/spectrocrunch/io/excel.py
index f191d3e..af65de3 100755
--- a/src/spectrocrunch/io/excel.py
+++ b/src/spectrocrunch/io/excel.py
@@ -88,6 +88,9 @@ class DataFrame(object):
                 return {}
             else:
                 raise
+        if isinstance(data, pd.DataFrame):
+            # single sheet
+            data = {sheet_name: data}
         return {
             sheet_name: cls(df=df, sheet_name=sheet_name)
             for sheet_name, df in data.items()
-- 
2.43.0


From 506d7382ca791f9ead6a22e4729abf113e8f6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 168/185] fix: saving excel tables with numbers as row or
 column names

---
 src/spectrocrunch/io/excel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/excel.py b/src/spectrocrunch/io/excel.py
index af65de3..01e41d1 100755
--- a/src/spectrocrunch/io/excel.py
+++ b/src/spectrocrunch/io/excel.py
@@ -426,22 +426,24 @@ class DataFrame(object):
         width = self.columnwidth
         for c in range(c0):
             if c0 == 1:
-                width = max(width, max(len(rowindex) for rowindex in self.df.index))
+                width = max(
+                    width, max(len(str(rowindex)) for rowindex in self.df.index)
+                )
             else:
                 width = max(
                     width, max(len(str(rowindex[c])) for rowindex in self.df.index)
                 )
             hname = self.df.index.names[c]
             if hname:
-                width = max(width, len(hname))
+                width = max(width, len(str(hname)))
             worksheet.set_column(c, c, width)
 
         # Width of data columns:
         for i, colindex in enumerate(self.df.columns, c0):
             if r0 == 1:
-                width = max(len(colindex), self.columnwidth)
+                width = max(len(str(colindex)), self.columnwidth)
             else:
-                width = max(max(len(c) for c in colindex), self.columnwidth)
+                width = max(max(len(str(c)) for c in colindex), self.columnwidth)
             worksheet.set_column(i, i, width)
 
         # Freeze index and column names:
-- 
2.43.0


From b7e06af947bba93759f1bec0678c7afcba40073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 169/185] fix: scan commands with numbers in scientific
 notation

---
 src/spectrocrunch/io/spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index f6d6a6d..29b46cd 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -157,7 +157,7 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
 
 class cmd_parser(object):
     def __init__(self):
-        self.fnumber = r"(?:[+-]?[0-9]*\.?[0-9]+)"
+        self.fnumber = r"(?:[+-]?[0-9]*\.?[0-9]+(?:[eE][+-]?[0-9]+)?)"
         self.inumber = r"\d+"
         self.blanks = r"\s+"
         self.motor = r"[a-zA-Z]+"
-- 
2.43.0


From 28b5aeffc3610302932505fd238862748db086ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 170/185] fix: dimensions of ascan and mesh

---
 src/spectrocrunch/io/spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 29b46cd..0093fa9 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -878,14 +878,14 @@ class spec(SpecFileDataSource.SpecFileDataSource):
             if result["motfast"] in motors:
                 ret[result["motfast"]] = np.array(
                     ascan_range(
-                        result["startfast"], result["endsfast"], result["nstepsfast"]
+                        result["startfast"], result["endfast"], result["nstepsfast"]
                     )
                 )
         elif result["name"] == "mesh":
             if result["motfast"] in motors:
                 ret[result["motfast"]] = np.array(
                     ascan_range(
-                        result["startfast"], result["endfast"], result["npixelsfast"]
+                        result["startfast"], result["endfast"], result["nstepsfast"]
                     )
                 )
             if result["motslow"] in motors:
-- 
2.43.0


From dd3beff567e3aeee17ecf7c7da49f567a32fda7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 171/185] fix: scan and pixel size of images in spec files

---
 src/spectrocrunch/io/spec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 0093fa9..2820062 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -29,7 +29,7 @@ def zapline_range(start, end, npixels):
 
 def zapline_pixelsize(start, end, npixels):
     """Pixel size"""
-    return (end - start) / float(npixels - 1)
+    return (end - start) / float(npixels)
 
 
 def zapline_scansize(start, end, npixels):
@@ -900,7 +900,7 @@ class spec(SpecFileDataSource.SpecFileDataSource):
     @staticmethod
     def addunit(value, mot, units):
         u = units.get(mot, None)
-        if units is None:
+        if u is None:
             return value
         else:
             return ureg.Quantity(value, u)
@@ -948,11 +948,11 @@ class spec(SpecFileDataSource.SpecFileDataSource):
                 # uslow = units.get(result["motslow"], None)
 
                 add["scansize_units"] = "{} x {}".format(
-                    ffast(zapline_scansize), ffast(ascan_scansize)
+                    ffast(zapline_scansize), fslow(ascan_scansize)
                 )
 
                 add["pixelsize"] = "{} x {}".format(
-                    ffast(zapline_pixelsize), ffast(ascan_pixelsize)
+                    ffast(zapline_pixelsize), fslow(ascan_pixelsize)
                 )
 
                 add["puzzle"] = result["name"] == "puzzle"
-- 
2.43.0


From 5c9671e6f06d491f47ee791b50887a4a4c4a8051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:39 +0000
Subject: [PATCH 172/185] fix: motor names with upper case in the dimensions of
 a scan

---
 src/spectrocrunch/io/spec.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 2820062..6f59106 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -851,16 +851,19 @@ class spec(SpecFileDataSource.SpecFileDataSource):
     def getdimensions(self, scannumber, motors):
         """Get scan dimensions for the specified motors"""
         info = self._get_scan_info(scannumber)
-        motors = self._parse_labels(motors)
         names = self._parse_labels(info["MotorNames"])
         values = info["MotorValues"]
         cmd = info["Command"]
 
         # Parse motor positions
-        ret = {mot: values[names.index(mot)] for mot in motors}
+        ret = {mot: values[names.index(self._parse_labels(mot))] for mot in motors}
 
         # Parse command
         result = self.parser.parse(cmd)
+        for key in ["motfast", "motslow"]:
+            for mot in motors:
+                if self._parse_labels(mot) == result.get(key, "").lower():
+                    result[key] = mot
         if result["name"] == "zapimage":
             if result["motfast"] in motors:
                 ret[result["motfast"]] = np.array(
-- 
2.43.0


From 921484540ac6dac480bbd5fb573cc64c32ae6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:39 +0000
Subject: [PATCH 173/185] fix: sub-region of a zap image

---
 src/spectrocrunch/io/spec.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 6f59106..3099d1e 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -104,6 +104,18 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
     islowa = (np.abs(slowvalues - pslowa)).argmin()
     islowb = (np.abs(slowvalues - pslowb)).argmin()
 
+    if ifasta > ifastb:
+        ifast = -1
+    else:
+        ifast = 1
+    if islowa > islowb:
+        islow = -1
+    else:
+        islow = 1
+
+    # Signed distance between the pixel centers in the new map
+    d = ifast * (result["endfast"] - result["startfast"]) / result["npixelsfast"]
+
     result["startfast"] = fastvalues[ifasta]
     result["endfast"] = fastvalues[ifastb]
     result["npixelsfast"] = abs(ifastb - ifasta) + 1
@@ -116,11 +128,9 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
     startpositions[result["motfast"]] = result["startfast"]
     startpositions[result["motslow"]] = result["startslow"]
 
-    d = (result["endfast"] - result["startfast"]) / (result["npixelsfast"] - 1.0)
-
     scancmd = "zapimage {} {} {} {} {} {} {} {} {} 0".format(
         result["motfast"],
-        result["startfast"] + d / 2.0,
+        result["startfast"] - d / 2.0,
         result["endfast"] + d / 2.0,
         result["npixelsfast"],
         result["motslow"],
@@ -134,15 +144,6 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
         "{} {}".format(mot, pos) for mot, pos in startpositions.items()
     )
 
-    if ifasta > ifastb:
-        ifast = -1
-    else:
-        ifast = 1
-    if islowa > islowb:
-        islow = -1
-    else:
-        islow = 1
-
     for k, v in currentpos.items():
         if k != result["motfast"] and k != result["motslow"]:
             if v != startpositions[k]:
@@ -152,7 +153,12 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
                     )
                 )
 
-    return scancmd, mvcmd, [[ifasta, ifastb + 1, ifast], [islowa, islowb + 1, islow]]
+    ifastc, islowc = ifastb + ifast, islowb + islow
+    if ifastc < 0:
+        ifastc = None
+    if islowc < 0:
+        islowc = None
+    return scancmd, mvcmd, [[ifasta, ifastc, ifast], [islowa, islowc, islow]]
 
 
 class cmd_parser(object):
-- 
2.43.0


From f8c9d29c253f24fa2c53cb7e3c2192a27bc11127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:42 +0000
Subject: [PATCH 174/185] fix: exposure time of a sub-region of a zap image

---
 src/spectrocrunch/io/spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 3099d1e..84456dc 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -137,7 +137,7 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
         result["startslow"],
         result["endslow"],
         result["nstepsslow"],
-        int(result["time"].to("ms").magitude),
+        int(result["time"].to("ms").magnitude),
     )
 
     mvcmd = "mv " + " ".join(
-- 
2.43.0


From bcab27320e77e64aabc1214658a95527563980e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:42 +0000
Subject: [PATCH 175/185] fix: XIA file radix with the letter X

---
 src/spectrocrunch/io/spec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index 84456dc..a496ba0 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -780,7 +780,8 @@ class spec(SpecFileDataSource.SpecFileDataSource):
             if s.startswith("#@XIAFILE "):
                 filename = s[10:]
                 loc["DIRECTORY"] = os.path.dirname(filename)
-                filename = os.path.basename(filename).replace("X", "0")
+                radix, sep, suffix = os.path.basename(filename).rpartition("_xia")
+                filename = radix + sep + suffix.replace("X", "0")
                 o = XiaNameParser().parse(filename)
                 loc["RADIX"] = o.radix
                 loc["ZAP SCAN NUMBER"] = o.mapnum
-- 
2.43.0


From 62732d71a10f99df7fcb913cb571283c5dd12f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 176/185] fix: indexing mode of XIA data after an exception

---
 src/spectrocrunch/io/xiaedf.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 56b1a69..a089c72 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -900,32 +900,40 @@ class xiadata(object):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlydata()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_onlystats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlystats()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_onlycounters(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlycounters()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_allstats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlyicrocr(False)
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_cache(self):
-- 
2.43.0


From f578daf00624cfc56fb5270e5b8a04ecc94d9840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 177/185] fix: normalization in the XIA configuration

---
 src/spectrocrunch/io/xiaedf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index a089c72..05d55a8 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -614,9 +614,9 @@ class xiadict(dict):
         if "norm" not in self:
             self["norm"] = {"ctr": None, "func": lambda x: x}
         else:
-            if "ctr" not in "norm":
+            if "ctr" not in self["norm"]:
                 self["norm"]["ctr"] = None
-            if "func" not in "norm":
+            if "func" not in self["norm"]:
                 self["norm"]["func"] = lambda x: x
 
         if "maxlevel" not in self:
-- 
2.43.0


From 7a2847edb9b292767d27fe33047fa3f5898db28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 178/185] fix: statistics of XIA data with a selection of
 detectors

---
 src/spectrocrunch/io/xiaedf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 05d55a8..d21510b 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2104,21 +2104,27 @@ class xialine(xiadata):
             img = fabio.edfimage.EdfImage(data=data[..., i], header=header)
             self._write(img, self._fileformat.format(xialabels[i]), makedir=i == 0)
 
-    def _save_stats(self, stats):
+    def _save_stats(self, stats, xialabels=None):
         """
         Args:
             stats(array): dimensions = nspec x nstats x ndet
+            xialabels(Optional(list)): len(xialabels) = ndet
 
         Returns:
             None
         """
         ndet = stats.shape[2]
         nstats = stats.shape[1] * ndet
+        detectors = list(range(ndet))
+        if xialabels is not None and len(xialabels) == ndet:
+            numbers = [xiadetector_tonumber(label) for label in xialabels]
+            if None not in numbers:
+                detectors = numbers
         header = {
             "xdata": 3,
             "xcorr": 0,
             "xnb": ndet,
-            "xdet": " ".join(str(i) for i in range(ndet)),
+            "xdet": " ".join(str(i) for i in detectors),
         }
 
         tmp = stats.reshape((stats.shape[0], nstats))
@@ -2150,12 +2156,12 @@ class xialine(xiadata):
             #        self._save_data(data,xialabels=xialabels)
 
             if stats is not None or stats is True:
-                self._save_stats(data.allstats)
+                self._save_stats(data.allstats, xialabels=xialabels)
         else:
             self._save_data(data, xialabels=xialabels)
 
             if stats is not None:
-                self._save_stats(stats)
+                self._save_stats(stats, xialabels=xialabels)
 
     def datafilenames(self):
         """
-- 
2.43.0


From 2a23d2d51b919af3ab4c4248b768bead7ec0b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 179/185] fix: XIA images and stacks without files

---
 src/spectrocrunch/io/xiaedf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index d21510b..273f540 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -1562,7 +1562,7 @@ class xiacompound(xiadata):
         """
         items = self.getitems()
         if len(items) == 0:
-            np.empty((0,) * self.ndim, dtype=self.XIADTYPE)
+            return np.empty((0,) * self.ndim, dtype=self.XIADTYPE)
 
         # Generate sliced stack
         def generator(line):
@@ -1598,7 +1598,7 @@ class xiacompound(xiadata):
         """
         items = self.getitems()
         if len(items) == 0:
-            np.empty((0,) * self.ndim, dtype=self.XIADTYPE)
+            return np.empty((0,) * self.ndim, dtype=self.XIADTYPE)
 
         # Generate sliced stack
         def generator(image):
@@ -1617,7 +1617,7 @@ class xiacompound(xiadata):
         """
         items = self.getitems()
         if len(items) == 0:
-            np.empty((0,) * self.ndim, dtype=self.XIADTYPE)
+            return np.empty((0,) * self.ndim, dtype=self.XIADTYPE)
 
         # Generate sliced stack
         def generator(line):
-- 
2.43.0


From 27d0f64714a89e09e8f22acd2c28db29492ad4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 180/185] fix: shape of XIA counters with detector selection

---
 src/spectrocrunch/io/xiaedf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 273f540..0f3a393 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2219,7 +2219,7 @@ class xiaimage(xiacompound):
     @property
     def cshape(self):
         # nrow x ncol x nctrs x 1
-        files = self.ctrfilenames()
+        files = self.ctrfilenames_used()
         if files:
             s = self._getedfimage(files[0], cache=True).shape
             return s + (len(files), 1)
-- 
2.43.0


From 9874ae3f7c151ab941dfe65115c71bd520285e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 181/185] fix: normalization of XIA data with a number or a
 missing counter

---
 src/spectrocrunch/io/xiaedf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 0f3a393..cddbfd4 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2342,15 +2342,14 @@ class xiaimage(xiacompound):
             m = self._xiaconfig["norm"]["ctr"]
             try:
                 1 / m
-                # if instance.isnumber(m):
-                #    m = np.full(self.dshape[0:2],m)
             except TypeError:
                 logger.warning(
                     'No "{}" counter for {} (set normalization counter = 1)'.format(
                         m, self
                     )
                 )
-                m = 1  # np.ones(self.dshape[0:2])
+                m = 1
+            m = np.full(self.dshape[:2], m)
         else:
             m = self._getedfimage(f)
 
-- 
2.43.0


From e8866018fccee7b00d39b35838584e1e3ddbbbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 182/185] fix: header of XIA images without statistics

---
 src/spectrocrunch/io/xiaedf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index cddbfd4..11b278f 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2307,6 +2307,8 @@ class xiaimage(xiacompound):
             files = self.statfilenames()
 
         for f in files:
+            if not f:
+                continue
             header = edf.edfimage(f).header
             if header:
                 break
-- 
2.43.0


From f80f0936131e14f66d7763e77e677e210d6bd7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 183/185] fix: XIA files with brackets in their path or radix

---
 src/spectrocrunch/io/xiaedf.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 11b278f..9bd6102 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -1,5 +1,5 @@
 import os
-from glob import glob
+from glob import glob, escape
 import fabio
 import numpy as np
 import itertools
@@ -202,9 +202,12 @@ def xiasearch(
     onlyctrs=False,
 ):
     strict_radix = True
+    path = escape(path)
     if radix is None:
-        radix = "*"
+        radixmask = "*"
         strict_radix = False
+    else:
+        radixmask = escape(radix)
     if mapnum is None:
         mapnum = "[0-9][0-9][0-9][0-9]*"
     if instance.isnumber(mapnum):
@@ -217,7 +220,7 @@ def xiasearch(
             ctrlabel = "*"
 
         # Cannot be done unless using regex (or xianameparser.parse afterwards like done here)
-        mask = os.path.join(path, ctrformat().format(radix, ctrlabel, mapnum))
+        mask = os.path.join(path, ctrformat().format(radixmask, ctrlabel, mapnum))
         ctrfiles = glob(mask)
 
         def valid(f):
@@ -241,7 +244,7 @@ def xiasearch(
     if instance.isnumber(linenum):
         linenum = "{:04d}".format(linenum)
 
-    mask = os.path.join(path, xiaformat().format(radix, label, mapnum, linenum))
+    mask = os.path.join(path, xiaformat().format(radixmask, label, mapnum, linenum))
     files = glob(mask)
 
     def valid(f):
@@ -2411,7 +2414,7 @@ class xialine_number(xialine):
 
     def search(self):
         """Find data and statistics files"""
-        files = glob(self._fileformat.format("*"))
+        files = glob(escape(self._fileformat).format("*"))
         files.sort(key=xiasortkey)
 
         def valid(x):
-- 
2.43.0


From 4d2a81335602ca253b00d80fc224d82363f44c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 184/185] fix: xiaedf: copying counters of processed data
 selects them by name

---
 src/spectrocrunch/io/xiaedf.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 9bd6102..0f48b58 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -1750,6 +1750,17 @@ class xiacompound(xiadata):
                 img = fabio.edfimage.EdfImage(data=v, header=ctrheaders)
                 self._write(img, self._ctrformat.format(k))
 
+    @staticmethod
+    def _ctrindices(counters, ctrnames):
+        for k in ctrnames:
+            if k not in counters:
+                raise RuntimeError(
+                    "Counter {} is not in the list of available counters: {}".format(
+                        k, counters
+                    )
+                )
+        return [counters.index(k) for k in ctrnames]
+
     def _save_xiadata(
         self,
         selfitems,
@@ -1768,8 +1779,11 @@ class xiacompound(xiadata):
                 stats = data.allstats
             if ctrs is not None or ctrs is True:
                 ctrs = data.counters[..., 0]
-                if not ctrnames:
-                    ctrnames = data.counterbasenames()
+                counters = data.counterbasenames()
+                if ctrnames:
+                    ctrs = ctrs[..., self._ctrindices(counters, ctrnames)]
+                else:
+                    ctrnames = counters
             self._save_data(
                 selfitems,
                 data.data,
@@ -1809,15 +1823,7 @@ class xiacompound(xiadata):
                     ctrnames = counters
                 data = data.counters[..., 0]
                 # nctrs = data.shape[-1]
-                for k in ctrnames:
-                    try:
-                        i = counters.index(k)
-                    except ValueError:
-                        raise RuntimeError(
-                            "Counter {} is not in the list of available counters: {}".format(
-                                k, counters
-                            )
-                        )
+                for k, i in zip(ctrnames, self._ctrindices(counters, ctrnames)):
                     img = fabio.edfimage.EdfImage(data=data[..., i], header=ctrheaders)
                     self._write(img, self._ctrformat.format(k))
 
-- 
2.43.0


From b18d04e6a639509696a6a4f18144b9e04f23d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:36 +0000
Subject: [PATCH 185/185] fix: xiaedf: normalize a cancelled map with one line

---
 src/spectrocrunch/io/xiaedf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 0f48b58..95f0a4d 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -1299,8 +1299,8 @@ class xiadata(object):
                     s4 = list(s2)
                     ind = [slice(None)] * len(s1)
                     for i, (a, b) in enumerate(zip(s1[:-2], s2[:-2])):
-                        # Dimension 1 is broadcasted
-                        if a != b and a > 1 and b > 1:
+                        # Normalizer with dimension 1 is broadcasted
+                        if a != b and b > 1:
                             s3[i] = min(a, b)
                             s4[i] = s3[i]
                             ind[i] = slice(0, s3[i])
-- 
2.43.0

