From 64cbbe3f118d2bb189dfcd9eb2d14cae153f2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 01/59] fix: interval algebra on shared end points, empty
 operands, contiguous constituents and large numbers

---
 src/jpt/base/constants.py  |   4 +-
 src/jpt/base/intervals.pyx | 116 ++++++++++++++++++++++---------------
 2 files changed, 70 insertions(+), 50 deletions(-)

diff --git a/src/jpt/base/constants.py b/src/jpt/base/constants.py
index 40fcf5e..e2a1df1 100644
--- a/src/jpt/base/constants.py
+++ b/src/jpt/base/constants.py
@@ -92,10 +92,10 @@ class Epsilon:
     '''
 
     def __radd__(self, x):
-        return np.nextafter(x, x + 1)
+        return x if np.isinf(x) else np.nextafter(x, np.inf)
 
     def __rsub__(self, x):
-        return np.nextafter(x, x - 1)
+        return x if np.isinf(x) else np.nextafter(x, -np.inf)
 
 
 eps = Epsilon()
diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 196b5a6..70639f1 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -19,6 +19,7 @@ from typing import Iterable, Any, Tuple, List, Dict
 import numpy as np
 cimport numpy as np
 cimport cython
+from libc.math cimport nextafter, isinf, INFINITY
 from dnutils import ifnone, first, ifnot
 
 from jpt.base.constants import eps
@@ -100,6 +101,17 @@ NOTATIONS = {
 interval_notation = 'par'
 
 
+# ----------------------------------------------------------------------------------------------------------------------
+# The float neighbors of a number. Infinite values have no neighbors and are mapped to themselves.
+
+cdef inline DTYPE_t _succ(DTYPE_t x):
+    return x if isinf(x) else nextafter(x, INFINITY)
+
+
+cdef inline DTYPE_t _pred(DTYPE_t x):
+    return x if isinf(x) else nextafter(x, -INFINITY)
+
+
 # ----------------------------------------------------------------------------------------------------------------------
 
 def chop(seq: Iterable[Any]) -> Iterable[Tuple[Any, Iterable]]:
@@ -220,7 +232,7 @@ cdef class RealSet(NumberSet):
 
     def to_json(self) -> Dict[str, Any]:
         return {
-            'intervals': i.to_json() for i in self.intervals
+            'intervals': [i.to_json() for i in self.intervals]
         }
 
     @staticmethod
@@ -310,9 +322,12 @@ cdef class RealSet(NumberSet):
         :return: bool
         """
         if isinstance(other, RealSet):
-            return all([self.contains_interval(i) for i in other.intervals])
+            return all([self.contains_interval(i) for i in other.intervals if not i.isempty()])
+        cdef NumberSet simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return simplified.contains_interval(other)
         cdef ContinuousSet s
-        for s in self.intervals:
+        for s in simplified.intervals:
             if s.contains_interval(other):
                 return True
         return False
@@ -478,14 +493,14 @@ cdef class RealSet(NumberSet):
                     tail.extend(diff.intervals)
         if not intervals:
             return EMPTY
-        head, tail = first(chop(sorted(intervals, key=attrgetter('upper'))))
-        intervals = [head]
+        head, tail = first(chop(sorted(intervals, key=attrgetter('lower', 'upper', 'left'))))
+        intervals = [head.copy()]
         for subset in tail:
             if intervals[-1].contiguous(subset):
                 intervals[-1].upper = subset.upper
                 intervals[-1].right = subset.right
             else:
-                intervals.append(subset)
+                intervals.append(subset.copy())
         if len(intervals) == 1:
             return first(intervals)
         return RealSet(intervals)
@@ -528,8 +543,12 @@ cdef class RealSet(NumberSet):
         return RealSet([R]).difference(self).simplify()
 
     def chop(self, points: Iterable[float]) -> Iterable[ContinuousSet]:
-        for i in self.simplify().intervals:
-            yield from i.chop(points)
+        cdef NumberSet simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            yield from simplified.chop(points)
+        else:
+            for i in simplified.intervals:
+                yield from i.chop(points)
 
     cpdef inline RealSet xmirror(self):
         '''
@@ -682,14 +701,14 @@ cdef class ContinuousSet(NumberSet):
         Check if this interval is infinite to the left (negative infty)
         :return: 
         """
-        return np.isinf(self.lower)
+        return self.lower == np.NINF
 
     cpdef inline np.int32_t ispinf(ContinuousSet self):
         """
         Check if this interval is infinite to the right (positive infty)
         :return: 
         """
-        return np.isinf(self.upper)
+        return self.upper == np.PINF
 
     cpdef inline np.int32_t isinf(ContinuousSet self):
         """
@@ -740,8 +759,8 @@ cdef class ContinuousSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
 
-        cdef DTYPE_t upper = self.upper if self.right == _INC else np.nextafter(self.upper, self.upper - 1)
-        cdef DTYPE_t lower = self.lower if self.left == _INC else np.nextafter(self.lower, self.lower + 1)
+        cdef DTYPE_t upper = self.upper if self.right == _INC else _pred(self.upper)
+        cdef DTYPE_t lower = self.lower if self.left == _INC else _succ(self.lower)
 
         if result is None:
             result = np.random.uniform(
@@ -848,10 +867,10 @@ cdef class ContinuousSet(NumberSet):
                     val += space
 
         if self.left == EXC and self.lower != np.NINF:
-            samples[0] = np.nextafter(samples[0], samples[0] + 1)
+            samples[0] = _succ(samples[0])
 
         if self.right == EXC and self.upper != np.PINF:
-            samples[-1] = np.nextafter(samples[-1], samples[-1] - 1)
+            samples[-1] = _pred(samples[-1])
 
         return samples
 
@@ -888,7 +907,8 @@ cdef class ContinuousSet(NumberSet):
             return False
         if isinstance(other, RealSet):
             return all(
-                [self.contains_interval(i, proper_containment=proper_containment) for i in other.intervals]
+                [self.contains_interval(i, proper_containment=proper_containment)
+                 for i in other.intervals if not i.isempty()]
             )
         if self.lowermost() > other.lowermost() or self.uppermost() < other.uppermost():
             return False
@@ -925,7 +945,7 @@ cdef class ContinuousSet(NumberSet):
         :returns True if the two intervals intersect, False otherwise
         :rtype: bool
         """
-        if other.isempty():
+        if self.isempty() or other.isempty():
             return False
         if isinstance(other, RealSet):
             return other.intersects(self)
@@ -982,24 +1002,24 @@ cdef class ContinuousSet(NumberSet):
                         else (self.right if self.upper < other.upper else other.right))
         if left == _INC and result.left == _EXC:
             result.left = _INC
-            result.lower = np.nextafter(result.lower, result.lower + 1)
+            result.lower = _succ(result.lower)
         elif left == _EXC and result.left == _INC:
             result.left = _EXC
-            result.lower = np.nextafter(result.lower, result.lower - 1)
+            result.lower = _pred(result.lower)
         if right == _INC and result.right == _EXC:
             result.right = _INC
-            result.upper = np.nextafter(result.upper, result.upper - 1)
+            result.upper = _pred(result.upper)
         elif right == _EXC and result.right == _INC:
             result.right = _EXC
-            result.upper = np.nextafter(result.upper, result.upper + 1)
+            result.upper = _succ(result.upper)
         return result
 
     cpdef inline ContinuousSet boundaries(ContinuousSet self, int left= 0, int right=0):
         cdef ContinuousSet result = self.copy()
-        cdef lower_minus_eps = np.nextafter(result.lower, result.lower - 1.)
-        cdef lower_plus_eps = np.nextafter(result.lower, result.lower + 1.)
-        cdef upper_minus_eps = np.nextafter(result.upper, result.upper - 1.)
-        cdef upper_plus_eps = np.nextafter(result.upper, result.upper + 1.)
+        cdef lower_minus_eps = _pred(result.lower)
+        cdef lower_plus_eps = _succ(result.lower)
+        cdef upper_minus_eps = _pred(result.upper)
+        cdef upper_plus_eps = _succ(result.upper)
 
         if result.left == _INC and left == _EXC:
             result.lower = lower_minus_eps
@@ -1041,37 +1061,33 @@ cdef class ContinuousSet(NumberSet):
             return self.copy()
         if isinstance(other, RealSet):
             return RealSet([self]).difference(other)
-        cdef NumberSet result
-        if other.contains_interval(self):
-            return ContinuousSet.c_emptyset()
-
-        elif self.contains_interval(other, proper_containment=True):
-            result = RealSet([
+        if not self.intersects(other):
+            return self.copy()
+        # the pieces of this interval remaining to the left and to the right of ``other``
+        cdef list pieces = []
+        if self.lower < other.lower or self.lower == other.lower and self.left == _INC and other.left == _EXC:
+            pieces.append(
                 ContinuousSet(
                     self.lower,
                     other.lower,
                     self.left,
                     _INC if other.left == _EXC else _EXC
-                ),
+                )
+            )
+        if self.upper > other.upper or self.upper == other.upper and self.right == _INC and other.right == _EXC:
+            pieces.append(
                 ContinuousSet(
                     other.upper,
                     self.upper,
                     _INC if other.right == _EXC else _EXC,
                     self.right
                 )
-            ])
-            return result
-        elif self.intersects(other):
-            result = self.copy()
-            if self.contains_value(other.uppermost()) and self.uppermost() != other.uppermost():
-                result.lower = other.upper
-                result.left = _INC if other.right == _EXC else _EXC
-            elif self.contains_value(other.lowermost()) and self.lowermost() != other.lowermost():
-                result.upper = other.lower
-                result.right = _INC if other.left == _EXC else _EXC
-            return result
-        else:
-            return self.copy()
+            )
+        if not pieces:
+            return ContinuousSet.c_emptyset()
+        elif len(pieces) == 1:
+            return first(pieces)
+        return RealSet(pieces)
 
     cpdef inline NumberSet complement(ContinuousSet self):
         """
@@ -1102,7 +1118,7 @@ cdef class ContinuousSet(NumberSet):
             if self.left == _INC:
                 return self.lower
             else:
-                return np.nextafter(self.lower, self.lower + 1)
+                return _succ(self.lower)
         else:
             return np.finfo(np.float64).min
 
@@ -1110,13 +1126,13 @@ cdef class ContinuousSet(NumberSet):
         """
         :return: The highest computer-representable value in this ``ContinuousSet``.
         """
-        return self.upper if self.right == _INC else np.nextafter(self.upper, self.upper - 1)
+        return self.upper if self.right == _INC else _pred(self.upper)
 
     cpdef inline DTYPE_t lowermost(ContinuousSet self):
         """
         :return: The lowest computer-representable value in this ``ContinuousSet``.
         """
-        return self.lower if self.left == _INC else np.nextafter(self.lower, self.lower + 1)
+        return self.lower if self.left == _INC else _succ(self.lower)
 
     @property
     def min(self):
@@ -1203,7 +1219,7 @@ cdef class ContinuousSet(NumberSet):
             if isinstance(x, ContinuousSet):
                 return self.contains_interval(x)
             elif isinstance(x, RealSet):
-                return all([self.contains_interval(i) for i in x.intervals])
+                return all([self.contains_interval(i) for i in x.intervals if not i.isempty()])
             else:
                 return self.contains_value(x)
         except TypeError:
@@ -1240,9 +1256,13 @@ cdef class ContinuousSet(NumberSet):
         return not self == other
 
     def __or__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.union(self)
         return self.union(other)
 
     def __and__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.intersection(self)
         return self.intersection(other)
 
     def __sub__(self, other: NumberSet) -> NumberSet:
-- 
2.43.0


From b7278116f4cb94bfe9b8cb48663377f86b36d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 02/59] fix: hash of interval sets consistent with their
 equality, sampling from unions with empty parts

---
 src/jpt/base/intervals.pyx | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 70639f1..2991c38 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -192,6 +192,8 @@ cdef class RealSet(NumberSet):
         return (' %s ' % _CUP).join([str(i) for i in self.intervals])
 
     def __eq__(self, other):
+        if not isinstance(other, NumberSet):
+            return False
         if self.isempty() and other.isempty():
             return True
         self_ = self.simplify()
@@ -209,10 +211,11 @@ cdef class RealSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        tmp = sorted(self.intervals, key=attrgetter('right'))
-        tmp = sorted(self.intervals, key=attrgetter('upper'))
-        tmp = sorted(self.intervals, key=attrgetter('left'))
-        return hash((RealSet, tuple(sorted(tmp, key=attrgetter('lower')))))
+        # must be consistent with __eq__, which ignores the decomposition and notation of the intervals
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return hash(simplified)
+        return hash((RealSet, tuple(simplified.intervals)))
 
     def __round__(self, n: int):
         return RealSet(
@@ -286,8 +289,9 @@ cdef class RealSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
         cdef ContinuousSet i_
+        cdef list intervals = [i_ for i_ in self.intervals if not i_.isempty()]
         cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower)
-                                              for i_ in self.intervals if i_.size()], dtype=np.float64)
+                                              for i_ in intervals], dtype=np.float64)
         if sum(weights) == 0:
             weights[...] = 1.
         cdef DTYPE_t[::1] upperbounds = np.cumsum(weights)
@@ -299,7 +303,7 @@ cdef class RealSet(NumberSet):
             resval = np.random.uniform(0, min([np.finfo(np.float64).max, upperbounds[-1]]))
             for j, bound in enumerate(upperbounds):
                 if resval <= bound:
-                    self.intervals[j].sample(result=result[i:i+1])
+                    intervals[j].sample(result=result[i:i+1])
                     break
         return result
 
@@ -1227,6 +1231,8 @@ cdef class ContinuousSet(NumberSet):
         raise ValueError('Invalid data type: %s' % type(x).__name__)
 
     def __eq__(self, other):
+        if not isinstance(other, NumberSet):
+            return False
         if isinstance(other, RealSet):
             return other == self
         return all((
@@ -1317,8 +1323,11 @@ cdef class ContinuousSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
+        # must be consistent with __eq__, which ignores the notation of the interval
+        if self.isempty():
+            return hash((ContinuousSet, None))
         return hash(
-            (ContinuousSet, self.lower, self.upper, self.left, self.right)
+            (ContinuousSet, self.min, self.max)
         )
 
     def __getstate__(self):
-- 
2.43.0


From d55242335e111f1c7411e3137de67faa65d27c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 03/59] fix: piecewise functions: pointwise comparison,
 undefined pieces, evaluation outside the domain, reflected operands, aliasing
 of simplify()

---
 src/jpt/base/functions.pyx | 121 +++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 58 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 370a61c..84896b8 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -93,6 +93,8 @@ cdef class Function:
         raise NotImplementedError()
 
     def __add__(self, other):
+        if not isinstance(self, Function):  # cython also calls this for reflected operands
+            self, other = other, self
         if isinstance(other, numbers.Real):
             return self.add(
                 ConstantFunction(other)
@@ -108,6 +110,8 @@ cdef class Function:
             )
 
     def __mul__(self, other: Union[float, Function]) -> 'Function':
+        if not isinstance(self, Function):  # cython also calls this for reflected operands
+            self, other = other, self
         if isinstance(other, numbers.Real):
             return self.mul(
                 ConstantFunction(other)
@@ -176,7 +180,7 @@ cdef class Undefined(Function):
             return True
         elif isinstance(other, ConstantFunction) and np.isnan(other.value):
             return True
-        elif isinstance(other, LinearFunction) and any(np.isnan(other.m), np.isnan(other.c)):
+        elif isinstance(other, LinearFunction) and any((np.isnan(other.m), np.isnan(other.c))):
             return True
         return False
 
@@ -195,6 +199,9 @@ cdef class Undefined(Function):
     cpdef Function xshift(self, DTYPE_t delta):
         return Undefined()
 
+    cpdef Function xmirror(self):
+        return Undefined()
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
@@ -572,6 +579,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m * f.value, self.c * f.value)
         elif isinstance(f, LinearFunction):
             return QuadraticFunction(self.m * f.m, self.m * f.c + f.m * self.c, self.c * f.c).simplify()
+        elif isinstance(f, Undefined):
+            return f.mul(self)
         else:
             raise TypeError('No operator "*" defined for objects of '
                             'types %s and %s' % (type(self).__name__, type(f).__name__))
@@ -583,6 +592,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m, self.c + f)
         elif isinstance(f, ConstantFunction):
             return LinearFunction(self.m, self.c + f.value)
+        elif isinstance(f, (QuadraticFunction, Undefined)):
+            return f.add(self)
         else:
             raise TypeError('Operator "+" undefined for types %s '
                             'and %s' % (type(f).__name__, type(self).__name__))
@@ -760,8 +771,10 @@ cdef class QuadraticFunction(Function):
     cpdef Function mul(self, Function f):
         if isinstance(f, ConstantFunction):
             return QuadraticFunction(self.a * f.value, self.b * f.value, self.c * f.value).simplify()
+        elif isinstance(f, Undefined):
+            return f.mul(self)
         else:
-            TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
+            raise TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
                                                                              type(f).__name__))
 
     cpdef Function add(self, Function f):
@@ -771,6 +784,11 @@ cdef class QuadraticFunction(Function):
             return QuadraticFunction(self.a, self.b + f.m, self.c + f.c)
         elif isinstance(f, QuadraticFunction):
             return QuadraticFunction(self.a + f.a, self.b + f.b, self.c + f.c)
+        elif isinstance(f, Undefined):
+            return f.add(self)
+        else:
+            raise TypeError('Unsupported operand type(s) for add(): %s and %s.' % (type(self).__name__,
+                                                                                   type(f).__name__))
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
         return self.a * x * x + self.b * x + self.c
@@ -920,7 +938,7 @@ cdef class PiecewiseFunction(Function):
         self.intervals: List[ContinuousSet] = []
 
     def __hash__(self):
-        return hash((PiecewiseFunction, ((i, f) for i, f in self.iter())))
+        return hash((PiecewiseFunction, tuple((i, f) for i, f in self.iter())))
 
     def append(self, interval: ContinuousSet, f: Function) -> None:
         self.intervals.append(interval)
@@ -936,6 +954,8 @@ cdef class PiecewiseFunction(Function):
                 'An object of type "PiecewiseFunction" '
                 'is required, but got "%s".' % type(other).__name__
             )
+        if len(self) != len(other):
+            return False
         for i1, f1, i2, f2 in zip(self.intervals, self.functions, other.intervals, other.functions):
             if i1 != i2 or f1 != f2:
                 return False
@@ -1027,7 +1047,10 @@ cdef class PiecewiseFunction(Function):
         return plf
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
-        return self.at(x).eval(x)
+        cdef Function f = self.at(x)
+        if f is None:
+            return np.nan
+        return f.eval(x)
 
     def __call__(self, x: float or np.ndarray):
         if isinstance(x, numbers.Real):
@@ -1110,7 +1133,7 @@ cdef class PiecewiseFunction(Function):
             return result
         elif isinstance(f, PiecewiseFunction):
             domain = RealSet(self.intervals).intersections(RealSet(f.intervals))
-            undefined = self.domain().union(f.domain()).difference(domain)
+            undefined = (self.domain() | f.domain()).difference(domain)
             if not isinstance(undefined, RealSet):
                 undefined = RealSet([undefined])
             result = PiecewiseFunction.from_dict({
@@ -1146,9 +1169,7 @@ cdef class PiecewiseFunction(Function):
                 RealSet(f.intervals)
             )
 
-            undefined = self.domain().union(
-                f.domain()
-            ).difference(domain)
+            undefined = (self.domain() | f.domain()).difference(domain)
 
             if not isinstance(undefined, RealSet):
                 undefined = RealSet([undefined])
@@ -1374,67 +1395,43 @@ cdef class PiecewiseFunction(Function):
         y_ = ConstantFunction(y)
         prev_f = None
         for i, f in zip(self.intervals, self.functions):
+            if isinstance(f, Undefined):
+                prev_f = None
+                continue
             x = f.intersection(y_)
-            if x and x in i:
+            if x.intersects(i):
                 result_set.intervals.append(i.intersection(x))
             elif prev_f and (prev_f(i.lower) < y < f(i.lower) or prev_f(i.lower) > y > f(i.lower)):
                 result_set.intervals.append(ContinuousSet(i.lower, i.lower))
             prev_f = f
         return result_set
 
-    cpdef RealSet lt(self, DTYPE_t y):
-        result_set = RealSet()
+    def _satisfying(self, y: float, sign: int) -> RealSet:
+        # the set of points x subject to sign * self(x) > sign * y
+        cdef RealSet result_set = RealSet()
+        cdef ContinuousSet i, x
         y_ = ConstantFunction(y)
-        prev_f = None
-        current = None
         for i, f in zip(self.intervals, self.functions):
+            if isinstance(f, Undefined):
+                continue
             x = f.intersection(y_)
-            if x.size() == 1 and x.lower in i:
-                if f.m > 0:
-                    if current is None:
-                        result_set.intervals.append(ContinuousSet(np.NINF, x.upper, 2, 2))
-                    else:
-                        current.upper = x.upper
-                        result_set.intervals.append(current)
-                        current = None
-                elif f.m < 0:
-                    current = ContinuousSet(x.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) < y and current is None:
-                current = ContinuousSet(i.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) >= y and current is not None:
-                current.upper = i.lower
-                result_set.intervals.append(current)
-                current = None
-            prev_f = f
-        if current is not None:
-            result_set.intervals.append(current)
-        return result_set
+            if x.size() != 1:  # the function is constant
+                solution = R if sign * f.eval(0) > sign * y else EMPTY
+            elif sign * f.m > 0:
+                solution = ContinuousSet(x.upper, np.PINF, EXC, EXC)
+            else:
+                solution = ContinuousSet(np.NINF, x.lower, EXC, EXC)
+            result_set.intervals.append(i.intersection(solution))
+        solution = result_set.simplify()
+        if isinstance(solution, ContinuousSet):
+            return RealSet() if solution.isempty() else RealSet([solution])
+        return solution
+
+    cpdef RealSet lt(self, DTYPE_t y):
+        return self._satisfying(y, -1)
 
     cpdef RealSet gt(self, DTYPE_t y):
-        result_set = RealSet()
-        y_ = ConstantFunction(y)
-        current = None
-        for i, f in zip(self.intervals, self.functions):
-            x = f.intersection(y_)
-            if x.size() == 1 and x.lower in i:
-                if f.m < 0:
-                    if current is None:
-                        result_set.intervals.append(ContinuousSet(np.NINF, x.upper, 2, 2))
-                    else:
-                        current.upper = x.upper
-                        result_set.intervals.append(current)
-                        current = None
-                elif f.m > 0:
-                    current = ContinuousSet(x.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) > y and current is None:
-                current = ContinuousSet(i.lower, np.PINF, 1, 2)
-            elif (not x and f(i.lower) < y or x == R and f(i.lower) == y) and current is not None:
-                current.upper = i.lower
-                result_set.intervals.append(current)
-                current = None
-        if current is not None:
-            result_set.intervals.append(current)
-        return result_set
+        return self._satisfying(y, 1)
 
     @staticmethod
     def merge(f1: PiecewiseFunction, f2: PiecewiseFunction, mergepoint: float) -> PiecewiseFunction:
@@ -1548,6 +1545,7 @@ cdef class PiecewiseFunction(Function):
             i, f = queue.popleft()
             if i.isempty():
                 continue
+            i, f = i.copy(), f.copy()
             if not plf.functions:
                 plf.append(i, f)
                 continue
@@ -1574,7 +1572,14 @@ cdef class PiecewiseFunction(Function):
         plf = PiecewiseFunction()
         while queue:
             i = queue.popleft()
-            i_center = (i.min + i.max) * .5
+            if i.isninf() and i.ispinf():
+                i_center = 0
+            elif i.isninf():
+                i_center = i.max - np.maximum(1, np.abs(i.max))
+            elif i.ispinf():
+                i_center = i.min + np.maximum(1, np.abs(i.min))
+            else:
+                i_center = (i.min + i.max) * .5
             l1 = f1.at(i_center)
             l2 = f2.at(i_center)
             if (not isinstance(l1, (LinearFunction, ConstantFunction)) or
-- 
2.43.0


From 3cc14c75454dc3b7a664c1825355e265a3e6ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:38 +0000
Subject: [PATCH 04/59] fix: rounding the functions of a piecewise function
 shares no intervals with the original

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 84896b8..b869324 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1514,8 +1514,8 @@ cdef class PiecewiseFunction(Function):
 
         plf = PiecewiseFunction()
         for interval, function in zip(self.intervals, self.functions):
+            interval = interval.copy()
             if include_intervals:
-                interval = interval.copy()
                 interval.lower = round_(interval.lower) if not np.isinf(interval.lower) else interval.lower
                 interval.upper = round_(interval.upper) if not np.isinf(interval.upper) else interval.upper
             plf.intervals.append(interval)
-- 
2.43.0


From 64178caed64c819e83b1f22da908fad97cb4d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 05/59] fix: univariate numeric distributions account for point
 masses, never change on cropping, and merge, invert and crop exactly

---
 src/jpt/distributions/quantile/quantiles.pyx | 364 ++++++++++---------
 src/jpt/distributions/univariate/numeric.py  |  66 ++--
 2 files changed, 213 insertions(+), 217 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index da44c3c..32d6170 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -7,6 +7,7 @@
 __module__ = 'quantiles.pyx'
 
 from cmath import isnan
+from collections import deque
 from operator import itemgetter, attrgetter
 from typing import Iterable
 
@@ -99,21 +100,31 @@ cdef class QuantileDistribution:
         '''Convert a PDF into a CDF by piecewise integration'''
         cdf = PiecewiseFunction()
         pdf = pdf.rectify()
-        head = 0
-        dirac_weights = normalized(dirac_weights) if dirac_weights is not None else []
-        dirac_offsets = []
 
+        # The mass that is not covered by the density is distributed over the dirac impulses
+        impulses = [i for i, f in pdf.iter() if np.isinf(f.value)]
+        residual = 1 - sum(f.value * (i.upper - i.lower) for i, f in pdf.iter() if f.value and not np.isinf(f.value))
+
+        if residual < -1e-8:
+            raise ValueError(
+                'Illegal CDF value > 1: %f' % (1 - residual)
+            )
+        dirac_weights = normalized(dirac_weights) if dirac_weights is not None else [1. / len(impulses)] * len(impulses)
+        if len(dirac_weights) != len(impulses):
+            raise ValueError(
+                'Got %d weights for %d dirac impulses.' % (len(dirac_weights), len(impulses))
+            )
+        dirac_weights = deque(w * max(residual, 0) for w in dirac_weights)
+
+        head = 0
         last_int: ContinuousSet = None
         for i, f in pdf.iter():
+            if np.isinf(f.value):
+                head += dirac_weights.popleft()
+                last_int = i if last_int is None else last_int.union(i)
+                continue
             if not f.value:
                 f_ = ConstantFunction(head)
-            elif np.isinf(f.value):
-                dirac_offsets.append((
-                    len(cdf),
-                    dirac_offsets.pop(-1) if dirac_offsets else 1
-                ))
-                last_int = i
-                continue
             else:
                 f_ = LinearFunction(
                     f.value,
@@ -122,26 +133,9 @@ cdef class QuantileDistribution:
             head = f_.eval(i.upper)
             if last_int is not None and last_int.contiguous(i):
                 i = last_int.union(i)
-                last_int = None
+            last_int = None
             cdf.append(i.copy(), f_)
 
-        # Weigh the dirac impulses proportionally
-        residual = 1 - cdf.eval(cdf.intervals[-1].any_point())
-
-        if residual < -1e-8:
-            raise ValueError(
-                'Illegal CDF value > 1: %f' % (1 - residual)
-            )
-        elif residual > 0:
-            dirac_offsets = [(i, w * residual) for i, w in dirac_offsets]
-
-        # Apply offsets by dirac impulses
-        offset = 0
-        for i, (_, f) in enumerate(cdf.iter()):
-            if dirac_offsets and dirac_offsets[0][0] == i:
-                offset += dirac_offsets.pop(0)[1]
-            f += offset
-
         return cdf.stretch(
             1 / cdf.eval(
                 cdf.intervals[-1].any_point()
@@ -244,6 +238,51 @@ cdef class QuantileDistribution:
 
         return self
 
+    @staticmethod
+    def _left_limit(cdf: PiecewiseFunction, x: float) -> float:
+        """
+        The limit of the ``cdf`` when approaching ``x`` from the left.
+        """
+        idx = cdf.idx_at(x)
+        if idx > 0 and cdf.intervals[idx].lower == x:
+            idx -= 1
+        return cdf.functions[idx].eval(x)
+
+    def atoms(self):
+        """
+        The points that carry a positive probability mass, i.e. the jumps of the CDF.
+
+        :return: a list of pairs of the points and their probability mass
+        """
+        result = []
+        for i in range(1, len(self._cdf.intervals)):
+            x = self._cdf.intervals[i].lower
+            weight = self._cdf.functions[i].eval(x) - self._cdf.functions[i - 1].eval(x)
+            if weight > 1e-12:
+                result.append((x, weight))
+        return result
+
+    def mass(self, interval: ContinuousSet) -> float:
+        """
+        The probability mass of the ``interval``.
+        """
+        if interval.isempty():
+            return 0.
+        if interval.upper == np.PINF:
+            upper = 1.
+        elif interval.right == EXC:
+            upper = self._left_limit(self._cdf, interval.upper)
+        else:
+            upper = self._cdf.eval(interval.upper)
+        if interval.lower == np.NINF:
+            lower = 0.
+        elif interval.left == INC:
+            lower = self._left_limit(self._cdf, interval.lower)
+        else:
+            lower = self._cdf.eval(interval.lower)
+        # differences in the order of the machine precision do not represent probability mass
+        return upper - lower if upper - lower > 1e-15 else 0.
+
     cpdef crop(self, ContinuousSet interval):
         """
         Return a copy this quantile distribution that is cropped to the ``interval``.
@@ -253,10 +292,25 @@ cdef class QuantileDistribution:
         if self._cdf is None:
             raise RuntimeError('No quantile distribution fitted. Call fit() first.')
 
-        # if given interval is outside quantile boundaries,
+        if interval.size() == 1:
+            # A single point is a possible event also if it has no probability mass, but a positive density
+            x = interval.lowermost()
+            if not self.pdf.eval(x) > 0 and not self.mass(ContinuousSet(x, x)):
+                raise Unsatisfiability(
+                    'Distribution has zero density at %s' % x
+                )
+            result = QuantileDistribution(self.epsilon, min_samples_mars=self.min_samples_mars)
+            cdf = PiecewiseFunction()
+            cdf.intervals.append(ContinuousSet(np.NINF, x, EXC, EXC))
+            cdf.intervals.append(ContinuousSet(x, np.PINF, INC, EXC))
+            cdf.functions.append(ConstantFunction(0.))
+            cdf.functions.append(ConstantFunction(1.))
+            result.cdf = cdf
+            return result
+
+        # if there is no probability mass in the given interval,
         # cropping would result in a non-valid quantile
-        if (interval.uppermost() < self._cdf.intervals[0].upper or
-                interval.lowermost() > self._cdf.intervals[-1].lower):
+        if not self.mass(interval):
             raise Unsatisfiability(
                 'CDF has zero Probability in %s (should be in %s)' % (
                     interval,
@@ -271,7 +325,10 @@ cdef class QuantileDistribution:
         cdf_ = self.cdf.crop(interval)
 
         # II: add constant to move to
-        cdf_ += -cdf_.eval(cdf_.intervals[0].lowermost())
+        if interval.left == INC:
+            cdf_ += -self._left_limit(self._cdf, interval.lower)
+        else:
+            cdf_ += -cdf_.eval(cdf_.intervals[0].lowermost())
 
         # everything left of the leftmost point of the cropped function evaluates to 0
         cdf = PiecewiseFunction()
@@ -281,13 +338,19 @@ cdef class QuantileDistribution:
         # III: stretch function to represent a proper quantile fn
         alpha = cdf_.functions[-1].eval(interval.uppermost())
 
+        # Probability mass concentrated at the left end of the interval
+        jump = cdf_.functions[0].eval(cdf_.intervals[0].lower)
+
         f_ = cdf_.functions[0]
         for i, f in zip(cdf_.intervals, cdf_.functions):
             if f == ConstantFunction(0.):
                 cdf.intervals[-1].upper = i.upper
                 continue
             y = cdf.functions[-1].eval(i.lower)
-            c = (f.eval(i.lower) - f_.eval(i.lower)) * alpha  # If the function is continuous (no jump), c = 0
+            if i is cdf_.intervals[0]:
+                c = jump / alpha if jump > 1e-12 else 0
+            else:
+                c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha  # If the function is continuous (no jump), c = 0
             f_ = f
             cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
             upper_ = np.nextafter(i.upper, i.upper - 1)
@@ -345,18 +408,13 @@ cdef class QuantileDistribution:
 
         elif self._pdf is None:
             pdf = self._cdf.differentiate()
-            if len(self._cdf.intervals) == 2:
-                pdf.intervals.insert(
-                    1,
-                    ContinuousSet(
-                        pdf.intervals[0].upper,
-                        pdf.intervals[0].upper + eps,
-                        INC,
-                        EXC
-                    )
-                )
-                pdf.intervals[-1].lower += eps
-                pdf.functions.insert(1, ConstantFunction(np.PINF))
+            if all(isinstance(f, ConstantFunction) for f in self._cdf.functions):
+                # The distribution is made up of point masses only
+                for x, _ in self.atoms():
+                    idx = pdf.idx_at(x)
+                    pdf.intervals[idx].lower += eps
+                    pdf.intervals.insert(idx, ContinuousSet(x, x + eps, INC, EXC))
+                    pdf.functions.insert(idx, ConstantFunction(np.PINF))
             self._pdf = pdf
         return self._pdf
 
@@ -378,65 +436,30 @@ cdef class QuantileDistribution:
 
         elif self._ppf is None:
 
-            ppf.intervals.append(ContinuousSet(np.NINF, np.PINF, EXC, EXC))
-
             self._assert_consistency()
 
-            if len(self._cdf.functions) == 2:
-                ppf.intervals[-1].upper = 1
-                ppf.functions.append(Undefined())
-                ppf.intervals.append(ContinuousSet(1, one_plus_eps, INC, EXC))
-                ppf.functions.append(ConstantFunction(self._cdf.intervals[-1].lower))
-                ppf.intervals.append(ContinuousSet(one_plus_eps, np.PINF, INC, EXC))
-                ppf.functions.append(Undefined())
-                self._ppf = ppf
-                return ppf
-
-            y_cdf = 0
-            for interval, f in zip(self._cdf.intervals, self._cdf.functions):
+            ppf.intervals.append(ContinuousSet(np.NINF, 0, EXC, EXC))
+            ppf.functions.append(Undefined())
 
-                if f.is_invertible():
-                    ppf.functions.append(f.invert())
-                    const = 0
-                elif not f.c:
-                    ppf.functions.append(Undefined())
-                elif f(interval.lower) > y_cdf:
+            y = 0
+            for interval, f in zip(self._cdf.intervals, self._cdf.functions):
+                if interval.lower != np.NINF and f.eval(interval.lower) - y > 1e-12:
+                    # The CDF has a jump: all quantiles skipped coincide in its knot
+                    y_ = min(f.eval(interval.lower), 1)
+                    ppf.intervals.append(ContinuousSet(y, y_, INC, EXC))
                     ppf.functions.append(ConstantFunction(interval.lower))
-                else:
-                    continue
-
-                if not np.isinf(interval.upper):
-                    ppf.intervals[-1].upper = min(one_plus_eps, f(interval.upper))
-                else:
-                    ppf.intervals[-1].upper = one_plus_eps
-
-                ppf.intervals.append(ContinuousSet(ppf.intervals[-1].upper, np.PINF, INC, EXC))
-                y_cdf = min(one_plus_eps, f(interval.upper))
-
-            ppf.intervals[-2].upper = ppf.intervals[-1].lower = one_plus_eps
+                    y = y_
+                if isinstance(f, LinearFunction) and f.m > 0:
+                    y_ = min(f.eval(interval.upper), 1)
+                    if y_ > y:
+                        ppf.intervals.append(ContinuousSet(y, y_, INC, EXC))
+                        ppf.functions.append(f.invert())
+                        y = y_
+
+            # The right-most quantile is included
+            ppf.intervals[-1].upper = one_plus_eps
+            ppf.intervals.append(ContinuousSet(one_plus_eps, np.PINF, INC, EXC))
             ppf.functions.append(Undefined())
-
-            if not np.isnan(ppf.eval(one_plus_eps)):
-                print(ppf.functions[ppf.idx_at(one_plus_eps)],
-                      (<LinearFunction> ppf.functions[ppf.idx_at(one_plus_eps)]).eval(one_plus_eps),
-                      ppf.eval(one_plus_eps))
-                raise ValueError('ppf(%.16f) = %.20f [fct: %d]:\n %s\n===cdf\n%s' % (one_plus_eps,
-                                                                                     ppf.eval(one_plus_eps),
-                                                                                     ppf.idx_at(one_plus_eps),
-                                                                                     ppf.pfmt(),
-                                                                                     self._cdf.pfmt()))
-
-            if np.isnan(ppf.eval(1.)):
-                raise ValueError(
-                    str(one_plus_eps) +
-                    'ppf:\n %s\n===cdf\n%s\nval' % (
-                        ppf.pfmt(),
-                        (self._cdf.pfmt() + str(ppf.intervals[-1].lower)
-                         + ' ' + str(ppf.intervals[-2].upper)
-                         + ' ' + str(ppf.eval(1.))
-                         + ' ' + str(ppf.eval(one_plus_eps)))
-                    )
-                )
             self._ppf = ppf
         return self._ppf
 
@@ -445,8 +468,6 @@ cdef class QuantileDistribution:
         '''
         Construct a merged quantile-distribution from the passed distributions using the ``weights``.
         '''
-        intervals = [ContinuousSet(np.NINF, np.PINF, EXC, EXC)]
-        functions = [ConstantFunction(0)]
         if weights is None:
             weights = [1. / len(distributions)] * len(distributions)
 
@@ -463,92 +484,71 @@ cdef class QuantileDistribution:
             )
 
         # --------------------------------------------------------------------------------------------------------------
-        # We preprocess the CDFs that are in the form of "jump" functions
-        jumps = {}
-        for w, cdf in [(w, d.cdf) for w, d in zip(weights, distributions) if len(d.cdf) == 2]:
-            jumps[cdf.intervals[0].upper] = jumps.get(cdf.intervals[0].upper, Jump(cdf.intervals[0].upper, 1, 0))
-            jumps.get(cdf.intervals[0].upper).weight += w
-
-        # --------------------------------------------------------------------------------------------------------------
-
-        lower = sorted(
-            [
-                (i.lower, f, w)
-                for d, w in zip(distributions, weights)
-                    for i, f in zip(d.cdf.intervals, d.cdf.functions)
-                if not isinstance(f, ConstantFunction) and w > 0
-            ] + [
-                (j.knot, j, j.weight) for j in jumps.values() if j.weight > 0
-            ],
-            key=itemgetter(0)
-        )
-        upper = sorted(
-            [
-                (i.upper, f, w)
-                for d, w in zip(distributions, weights)
-                    for i, f in zip(d.cdf.intervals, d.cdf.functions)
-                if not isinstance(f, ConstantFunction) and w > 0
-            ],
-            key=itemgetter(0)
-        )
+        # Collect the changes of the slope and the jumps at every knot of any of the CDFs
 
-        # --------------------------------------------------------------------------------------------------------------
-
-        m = 0
-        c = 0
-
-        while lower or upper:
-            pivot = None
-            m_ = m
-            offset = 0
-
-            # Process all function intervals whose lower bound is minimal and
-            # smaller than the smallest upper interval bound
-            while lower and (pivot is None and first(lower, first) <= first(upper, first, np.PINF) or
-                   pivot == first(lower, first, np.PINF)):
-                l, f, w = lower.pop(0)
-                if isinstance(f, ConstantFunction) or l == np.NINF or isinstance(f, LinearFunction) and f.m == 0:
-                    continue
-                if isinstance(f, Jump):  # and isinstance(functions[-1], LinearFunction):
-                    offset += w
-                if isinstance(f, LinearFunction):
-                    m_ += f.m * w
-                pivot = l
-
-            # Do the same for the upper bounds...
-            while upper and (pivot is None and first(upper, first) <= first(lower, first, np.PINF) or
-                   pivot == first(upper, first, np.PINF)):
-                u, f, w = upper.pop(0)
-                if isinstance(f, (ConstantFunction, Jump)) or u == np.PINF or isinstance(f, LinearFunction) and f.m == 0:
-                    continue
-                m_ -= f.m * w
-                pivot = u
-
-            if pivot is None:
+        changes = []
+        for d, w in zip(distributions, weights):
+            if not w > 0:
                 continue
+            cdf = d.cdf
+            for idx in range(1, len(cdf.intervals)):
+                x = cdf.intervals[idx].lower
+                before, after = cdf.functions[idx - 1], cdf.functions[idx]
+                jump = after.eval(x) - before.eval(x)
+                changes.append((
+                    x,
+                    before.m * w,
+                    after.m * w,
+                    jump * w if abs(jump) > 1e-12 else 0
+                ))
+        changes.sort(key=itemgetter(0))
 
-            y = m * pivot + c
-            m = m_ if abs(m_) > 1e-8 else 0
-            c = y - m * pivot + offset
+        # --------------------------------------------------------------------------------------------------------------
 
-            intervals[-1].upper = pivot
-            if (c or m) and (m != functions[-1].m or c != functions[-1].c):
-                # Split the last interval at the pivot point
-                intervals.append(ContinuousSet(pivot, np.PINF, INC, EXC))
-                # Evaluate the old function at the new pivot point to get the intercept
-                functions.append(LinearFunction(m, c) if abs(m) > 1e-8 else ConstantFunction(c))
+        intervals = [ContinuousSet(np.NINF, np.PINF, EXC, EXC)]
+        functions = [ConstantFunction(0)]
 
-        # If the merging ends with an "approximate" constant function
-        # remove it. This may happen for numerical imprecision.
-        while len(functions) > 1 and abs(functions[-1].m) <= 1e-08 and functions[-1].m:
-            del intervals[-1]
-            del functions[-1]
+        m = 0       # Current slope...
+        err = 0     # ...its accumulated rounding error...
+        active = 0  # ...and the number of linear functions it consists of
+        y = 0       # Function value at the current position
+        slope = 0
+        x_ = np.NINF
+        pos = 0
+
+        while pos < len(changes):
+            x = changes[pos][0]
+            if slope:
+                y += slope * (x - x_)
+            while pos < len(changes) and changes[pos][0] == x:
+                _, m_old, m_new, jump = changes[pos]
+                for m_ in (-m_old, m_new):
+                    if m_:
+                        t = m + m_
+                        err += (m - t) + m_ if abs(m) >= abs(m_) else (m_ - t) + m
+                        m = t
+                active += (1 if m_new else 0) - (1 if m_old else 0)
+                y += jump
+                pos += 1
+            if not active:
+                m = err = 0
+            slope = max(m + err, 0)
+            x_ = x
+            f = LinearFunction(slope, y - slope * x) if slope else ConstantFunction(y)
+            if isinstance(functions[-1], ConstantFunction) and isinstance(f, ConstantFunction) and f.c == functions[-1].c:
+                continue
+            if isinstance(functions[-1], LinearFunction) and f == functions[-1]:
+                continue
+            intervals[-1].upper = x
+            intervals.append(ContinuousSet(x, np.PINF, INC, EXC))
+            functions.append(f)
 
         cdf = PiecewiseFunction()
         cdf.functions = functions
         cdf.intervals = intervals
 
-        cdf.ensure_right(ConstantFunction(1), cdf.intervals[-1].lower)
+        # Right of the right-most knot, the CDF is 1 exactly
+        cdf.functions[-1] = ConstantFunction(1)
 
         distribution = QuantileDistribution()
         distribution.cdf = cdf
@@ -565,10 +565,14 @@ cdef class QuantileDistribution:
         if len(self.cdf.intervals) == 2:
             return np.full(n, self.cdf.intervals[0].upper)
 
-        # create probability distribution with the probabilities of each function part
+        # create probability distribution with the probabilities of each function part and each jump
+        intervals = self.cdf.intervals[1:-1]
+        intervals = intervals + [ContinuousSet(x, x) for x, _ in self.atoms()]
         interval_probabilities = np.array([function.eval(interval.upper) - function.eval(interval.lower)
                                            for function, interval in
-                                           zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])])
+                                           zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])] +
+                                          [weight for _, weight in self.atoms()])
+        interval_probabilities = interval_probabilities / interval_probabilities.sum()
 
         # sample in which function part the samples will be
         sample_intervals = np.random.choice(list(range(0, len(interval_probabilities))), size=(n,),
@@ -578,7 +582,7 @@ cdef class QuantileDistribution:
         result = np.zeros((n, ))
 
         # for every interval
-        for idx, interval in enumerate(interval for interval in self.cdf.intervals[1:-1]):
+        for idx, interval in enumerate(intervals):
 
             # get the indices where the samples are from this interval
             indices = np.where(sample_intervals == idx)[0]
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 25ca797..42ceeeb 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -11,6 +11,7 @@ from dnutils import ifnone, ifnot, first
 from matplotlib import pyplot as plt
 
 from ..utils import Identity, DataScaler, DataScalerProxy
+from ...base.errors import Unsatisfiability
 from ...base.utils import save_plot, pairwise, normalized, none2nan
 from . import Distribution
 
@@ -206,7 +207,7 @@ class Numeric(Distribution):
         :param k: The number of solutions to generate, defaults to the maximum possible number.
         :return: A list containing a tuple containing the likelihood and state in descending order.
         """
-        likelihoods = [f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)]
+        likelihoods = {f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)}
         sorted_likelihood = sorted(
             likelihoods,
             reverse=True
@@ -268,22 +269,15 @@ class Numeric(Distribution):
         if not isinstance(value, (NumberSet, numbers.Number)):
             raise TypeError(
                 'Argument must be numbers.Number or '
-                'jpt.base.intervals.NumberSet (got %s).' % type(labels)
+                'jpt.base.intervals.NumberSet (got %s).' % type(value)
             )
         if isinstance(value, numbers.Number):
             value = ContinuousSet(value, value)
         elif isinstance(value, RealSet):
-            return sum(self._p(i) for i in value.intervals)
-        probspace = self.pdf.gt(0)
-        if probspace.isdisjoint(value):
-            return 0
-        probmass = (
-                (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
-                (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
-        )
-        if not probmass:
-            return probspace in value
-        return probmass
+            value = value.simplify()
+            if isinstance(value, RealSet):
+                return sum(self._p(i) for i in value.intervals)
+        return self._quantile.mass(value)
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
         return self._p(self.label2value(labels))
@@ -331,7 +325,7 @@ class Numeric(Distribution):
     ) -> 'Numeric':
         if not all(distributions[0].__class__ == d.__class__ for d in distributions):
             raise TypeError('Only distributions of the same type can be merged.')
-        return type(distributions[0])().set(
+        return type(distributions[0])(**distributions[0].settings).set(
             QuantileDistribution.merge(
                 distributions,
                 weights
@@ -373,28 +367,30 @@ class Numeric(Distribution):
 
         # for real sets the result is a merge of the single ContinuousSet crops
         if isinstance(restriction, RealSet):
-            distributions = []
+            restriction = restriction.simplify()
 
-            for idx, continuous_set in enumerate(restriction.intervals):
-                distributions.append(
-                    self._crop(continuous_set)
+        if isinstance(restriction, RealSet):
+            weights = [self._p(i) for i in restriction.intervals]
+            if not sum(weights):
+                # none of the parts has probability mass: they can only be weighted by their densities
+                weights = [self.pdf.eval(i.lower) if i.size() == 1 else 0 for i in restriction.intervals]
+            if not sum(weights):
+                raise Unsatisfiability(
+                    'Distribution has zero probability in %s' % restriction
                 )
-
+            parts = [(i, w) for i, w in zip(restriction.intervals, weights) if w > 0]
             return self.merge(
-                distributions,
-                [1 / len(distributions)] * len(distributions)
+                [self._crop(i) for i, _ in parts],
+                normalized([w for _, w in parts])
             )
 
         elif isinstance(restriction, ContinuousSet):
-            if restriction.size() == 1:
-                return self._crop(restriction.lower)
-            else:
-                return type(self)().set(
-                    self._quantile.crop(restriction)
-                )
+            return type(self)(**self.settings).set(
+                self._quantile.crop(restriction)
+            )
 
         elif isinstance(restriction, numbers.Number):
-            return self.create_dirac_impulse(restriction)
+            return self._crop(ContinuousSet(restriction, restriction))
 
         else:
             raise ValueError(
@@ -553,17 +549,13 @@ class Numeric(Distribution):
                        the result is the central moment of the distribution.
         """
         value_transform = ifnone(value_transform, lambda _: _)
-        # We have to catch the special case in which the
-        # PDF is an impulse function
-        if self.is_dirac_impulse():
-            if order == 1:
-                return self.pdf.gt(0).min
-            elif order >= 2:
-                return 0
-        result = 0
+        # Points with positive probability mass are not represented by the PDF
+        result = sum(
+            pow(value_transform(x) - center, order) * weight for x, weight in self._quantile.atoms()
+        )
         for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
             interval_ = value_transform(interval)
-            if interval_.width == 0:
+            if interval_.width == 0 or np.isinf(function.value):
                 continue
             # We have to "stretch" the pdf value over the interval in label space:
             function_value = function.value * interval.width / interval_.width
-- 
2.43.0


From a493472dfcb28a4efa7c65b610af5a6638659b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 06/59] fix: point masses and rounding in learned
 distributions; impossible symbolic values; distribution function of integers

---
 src/jpt/distributions/quantile/quantiles.pyx  | 32 +++++++++++++------
 src/jpt/distributions/univariate/integer.py   |  2 +-
 .../distributions/univariate/multinomial.py   |  2 +-
 src/jpt/distributions/univariate/numeric.py   |  2 +-
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 32d6170..7e0eb1c 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -220,8 +220,7 @@ cdef class QuantileDistribution:
 
             # overwrite right most interval by an interval with an including right border
             self._cdf.intervals[-1] = ContinuousSet(self._cdf.intervals[-1].lower,
-                                                    np.nextafter(self._cdf.intervals[-1].upper,
-                                                                 self._cdf.intervals[-1].upper + 1), INC, EXC)
+                                                    np.nextafter(self._cdf.intervals[-1].upper, np.PINF), INC, EXC)
 
             self._cdf.functions.append(ConstantFunction(1))
             self._cdf.intervals.append(ContinuousSet(self._cdf.intervals[-1].upper, np.PINF, INC, EXC))
@@ -248,6 +247,16 @@ cdef class QuantileDistribution:
             idx -= 1
         return cdf.functions[idx].eval(x)
 
+    @staticmethod
+    def _jump(before: Function, after: Function, x: float) -> float:
+        """
+        The height of the jump from the function ``before`` to the function ``after`` at ``x``.
+        """
+        jump = after.eval(x) - before.eval(x)
+        # differences in the order of the rounding errors of the function evaluations do not represent jumps
+        noise = 1e-12 + 1e-15 * (abs(before.m * x) + abs(before.c) + abs(after.m * x) + abs(after.c))
+        return jump if abs(jump) > noise else 0.
+
     def atoms(self):
         """
         The points that carry a positive probability mass, i.e. the jumps of the CDF.
@@ -257,8 +266,8 @@ cdef class QuantileDistribution:
         result = []
         for i in range(1, len(self._cdf.intervals)):
             x = self._cdf.intervals[i].lower
-            weight = self._cdf.functions[i].eval(x) - self._cdf.functions[i - 1].eval(x)
-            if weight > 1e-12:
+            weight = self._jump(self._cdf.functions[i - 1], self._cdf.functions[i], x)
+            if weight > 0:
                 result.append((x, weight))
         return result
 
@@ -339,7 +348,11 @@ cdef class QuantileDistribution:
         alpha = cdf_.functions[-1].eval(interval.uppermost())
 
         # Probability mass concentrated at the left end of the interval
-        jump = cdf_.functions[0].eval(cdf_.intervals[0].lower)
+        jump = 0
+        if interval.left == INC and interval.lower != np.NINF:
+            for x, weight in self.atoms():
+                if x == interval.lower:
+                    jump = weight
 
         f_ = cdf_.functions[0]
         for i, f in zip(cdf_.intervals, cdf_.functions):
@@ -348,7 +361,7 @@ cdef class QuantileDistribution:
                 continue
             y = cdf.functions[-1].eval(i.lower)
             if i is cdf_.intervals[0]:
-                c = jump / alpha if jump > 1e-12 else 0
+                c = jump / alpha
             else:
                 c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha  # If the function is continuous (no jump), c = 0
             f_ = f
@@ -442,8 +455,9 @@ cdef class QuantileDistribution:
             ppf.functions.append(Undefined())
 
             y = 0
+            f_ = None
             for interval, f in zip(self._cdf.intervals, self._cdf.functions):
-                if interval.lower != np.NINF and f.eval(interval.lower) - y > 1e-12:
+                if f_ is not None and self._jump(f_, f, interval.lower) > 0 and f.eval(interval.lower) > y:
                     # The CDF has a jump: all quantiles skipped coincide in its knot
                     y_ = min(f.eval(interval.lower), 1)
                     ppf.intervals.append(ContinuousSet(y, y_, INC, EXC))
@@ -455,6 +469,7 @@ cdef class QuantileDistribution:
                         ppf.intervals.append(ContinuousSet(y, y_, INC, EXC))
                         ppf.functions.append(f.invert())
                         y = y_
+                f_ = f
 
             # The right-most quantile is included
             ppf.intervals[-1].upper = one_plus_eps
@@ -494,12 +509,11 @@ cdef class QuantileDistribution:
             for idx in range(1, len(cdf.intervals)):
                 x = cdf.intervals[idx].lower
                 before, after = cdf.functions[idx - 1], cdf.functions[idx]
-                jump = after.eval(x) - before.eval(x)
                 changes.append((
                     x,
                     before.m * w,
                     after.m * w,
-                    jump * w if abs(jump) > 1e-12 else 0
+                    QuantileDistribution._jump(before, after, x) * w
                 ))
         changes.sort(key=itemgetter(0))
 
diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index a6aa223..d8dc096 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -81,7 +81,7 @@ class Integer(Distribution):
         if self._params is None:
             raise Exception(f'Fit!')
 
-        for v1, v2, p in zip(['-inf']+vals[:-1], vals, self._params):
+        for v1, v2, p in zip(['-inf']+vals[:-1], vals, np.cumsum(self._params)):
             # constant for each value and undefined for everything in between
             cdf.append(interval=ContinuousSet.parse(f']{v1},{v2}['), f=Undefined())
             cdf.append(interval=ContinuousSet.parse(f'[{v2},{v2}]'), f=ConstantFunction(p))
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 5830481..298555f 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -370,7 +370,7 @@ class Multinomial(Distribution):
             restriction: Union[int, Collection[int]],
     ) -> 'Multinomial':
         if not isinstance(restriction, Collections):
-            return self.create_dirac_impulse(restriction)
+            restriction = {restriction}
 
         result = self.copy()
         for idx, value in enumerate(result.values.values()):
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 42ceeeb..a94eed4 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -343,7 +343,7 @@ class Numeric(Distribution):
             raise TypeError('Can only update with distribution of the same type, got %s' % type(dist))
         tmp = Numeric.merge(
             [self, dist],
-            normalized([1, weight])
+            [1 - weight, weight]
         )
         self.values = tmp.values
         self.labels = tmp.labels
-- 
2.43.0


From 2fb26cf01cc1bc4911d695252e69efdfd628cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:04 +0000
Subject: [PATCH 07/59] fix: discrete label translation and cropping accept
 arrays; equality of ordered label dictionaries checks length

---
 src/jpt/distributions/univariate/integer.py     | 4 ++++
 src/jpt/distributions/univariate/multinomial.py | 6 +++++-
 src/jpt/distributions/utils.py                  | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index d8dc096..b0d93b5 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -172,6 +172,8 @@ class Integer(Distribution):
             cls,
             value: Union[int, Iterable[int]]
     ) -> Union[int, Iterable[int]]:
+        if isinstance(value, np.ndarray):
+            return np.array([cls.value2label(value_) for value_ in value], dtype=object)
         if not isinstance(value, Iterable):
             value_ = {value}
         else:
@@ -196,6 +198,8 @@ class Integer(Distribution):
             cls,
             label: Union[int, Iterable[int]]
     ) -> Union[int, Iterable[int]]:
+        if isinstance(label, np.ndarray):
+            return np.array([cls.label2value(label_) for label_ in label], dtype=np.int64)
         if not isinstance(label, Iterable):
             label_ = {label}
         else:
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 298555f..aa19462 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -53,6 +53,8 @@ class Multinomial(Distribution):
             cls,
             value: Union[int, Iterable[int]]
     ) -> Union[Symbol, Collection[Symbol]]:
+        if isinstance(value, np.ndarray):
+            return np.array([cls.value2label(value_) for value_ in value], dtype=object)
         if not isinstance(value, Collections):
             value_ = {value}
         else:
@@ -77,6 +79,8 @@ class Multinomial(Distribution):
             cls,
             label: Union[Symbol, Collection[Symbol]]
     ) -> Union[int, Collection[int]]:
+        if isinstance(label, np.ndarray):
+            return np.array([cls.label2value(label_) for label_ in label], dtype=np.int64)
         if not isinstance(label, Collections):
             label_ = {label}
         else:
@@ -369,7 +373,7 @@ class Multinomial(Distribution):
             self,
             restriction: Union[int, Collection[int]],
     ) -> 'Multinomial':
-        if not isinstance(restriction, Collections):
+        if not isinstance(restriction, (np.ndarray, *Collections)):
             restriction = {restriction}
 
         result = self.copy()
diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index af41384..6bb0ba0 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -204,6 +204,8 @@ class OrderedDictProxy:
     def __eq__(self, other):
         if not isinstance(other, OrderedDictProxy):
             return False
+        if len(self) != len(other):
+            return False
         for self_, other_ in zip(self._dict.items(), other._dict.items()):
             if self_[0] != other_[0] or self_[1] != other_[1]:
                 return False
-- 
2.43.0


From 94069e01a175569daa13e3cfc2e341d218bfcd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:28 +0000
Subject: [PATCH 08/59] fix: variables restored from JSON keep their settings;
 deep copies of variable maps keep all values

---
 src/jpt/variables.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 875b3b4..47293a6 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -250,13 +250,14 @@ class NumericVariable(Variable):
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'NumericVariable':
         domain = Distribution.from_json(data['domain'])
+        settings = data.get('settings', data)
         return NumericVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT),
-            max_std=data.get(NumericVariable.MAX_STDEV),
-            precision=data.get(NumericVariable.PRECISION),
-            blur=data.get(NumericVariable.BLUR)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            max_std=settings.get(NumericVariable.MAX_STDEV),
+            precision=settings.get(NumericVariable.PRECISION),
+            blur=settings.get(NumericVariable.BLUR)
         )
 
     @property
@@ -383,7 +384,7 @@ class IntegerVariable(Variable):
         return IntegerVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT)
+            min_impurity_improvement=data.get('settings', data).get(Variable.MIN_IMPURITY_IMPROVEMENT)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -423,9 +424,12 @@ class SymbolicVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'SymbolicVariable':
+        settings = data.get('settings', data)
         return SymbolicVariable(
             name=data['name'],
-            domain=Distribution.from_json(data['domain'])
+            domain=Distribution.from_json(data['domain']),
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            invert_impurity=settings.get(INVERT_IMPURITY)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -689,10 +693,9 @@ class VariableMap:
 
         vmap = type(self)(variables=self._variables.values())
         for vname, value in self.items():
-            if isinstance(value, (numbers.Number, str)):
-                vmap[vname] = value
-            elif isinstance(value, (set, list, tuple, NumberSet)):
-                vmap[vname] = value.copy()
+            if isinstance(value, (set, list, dict, NumberSet, Distribution)):
+                value = value.copy()
+            vmap[vname] = value
         return vmap
 
     @classmethod
-- 
2.43.0


From 0ec8fec24a2f23817f7460bd7c6e23551cf5750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:28 +0000
Subject: [PATCH 09/59] fix: k-MPE solver orders symbolic states by their
 likelihood and copes with point masses

---
 src/jpt/inference/mpe.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index bb851de..3d7851d 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -129,7 +129,8 @@ class MPESolver:
 
             if isinstance(dist, Numeric):
                 _, likelihood_max = dist._mpe()
-                likelihoods.append(likelihood_max)
+                if np.isfinite(likelihood_max):
+                    likelihoods.append(likelihood_max)
 
         # Build the unary constraints given by the log of
         # an events probability
@@ -143,14 +144,14 @@ class MPESolver:
                 list(
                     sorted([
                         (
-                            frozenset(val) if not isinstance(dist, Numeric) else val,
+                            val,
                             -np.log(
-                                (dist.pdf / likelihood_divisor).eval(val.any_point())
+                                likelihood / likelihood_divisor
                                 if isinstance(dist, Numeric)
-                                else dist._p(val)
+                                else likelihood
                             )
                         )
-                        for val in self.domains[var]],
+                        for val, likelihood in self.domains[var].items()],
                         key=itemgetter(1)
                     )
                 )
@@ -177,7 +178,7 @@ class MPESolver:
 
     def likelihood(self, solution: BnBSolution):
         return prod([
-            self.domains[var][val] for var, val in solution.state.assignment.items()
+            domain[solution.state.assignment[var]] for var, domain in self.domains.items()
         ])
 
     def is_goal_state(self, state: MPEState) -> bool:
-- 
2.43.0


From e809a1443be7a44b0ad9601db1ffc34dbf83083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:28 +0000
Subject: [PATCH 10/59] fix: JPT queries: joint query and evidence on one
 variable, cropped posteriors, single values, k-MPE order over leaves, leaf
 membership on split boundaries, conditioned trees with single branches

---
 src/jpt/trees.py | 81 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 28 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1bd8661..bdd093a 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -68,6 +68,12 @@ DISCRIMINATIVE = 'discriminative'
 GENERATIVE = 'generative'
 
 
+def _scalars_to_sets(assignment: VariableMap) -> VariableMap:
+    """Represent single values in the ``assignment`` by their respective singleton sets."""
+    return assignment.scalar2sets() if isinstance(assignment, VariableAssignment) else assignment
+
+
+
 # ----------------------------------------------------------------------------------------------------------------------
 
 
@@ -123,7 +129,7 @@ class Node:
                 if variable.numeric:
 
                     # and a range is given
-                    if isinstance(value, ContinuousSet):
+                    if isinstance(value, (ContinuousSet, RealSet)):
                         # if the ranges don't intersect return false
                         if value.isdisjoint(restriction):
                             return False
@@ -131,7 +137,7 @@ class Node:
                     # if it is a singular value
                     else:
                         # check if the path allows this value
-                        if not restriction.lower < value <= restriction.upper:
+                        if not restriction.contains_value(value):
                             return False
 
                 # if the variable is symbolic or integer
@@ -176,7 +182,9 @@ class Node:
         for variable, restriction in self.path.items():
             index = variable_index_map[variable]
             if variable.numeric:
-                result *= (samples[:, index] > restriction.lower) & (samples[:, index] <= restriction.upper)
+                values = samples[:, index]
+                result *= values >= restriction.lower if restriction.left == INC else values > restriction.lower
+                result *= values <= restriction.upper if restriction.right == INC else values < restriction.upper
             if variable.symbolic or variable.integer:
                 result *= np.isin(samples[:, index], list(restriction))
 
@@ -297,12 +305,11 @@ class DecisionNode(Node):
                 fmt='logic'
             )
         elif self.variable.symbolic:
-            negate = len(self.splits[1]) > 1
+            split = self.splits[idx_split]
+            negate = len(split) > 1
             if negate:
-                label = self.variable.domain.labels[fst(self.splits[0])]
-                return '%s%s' % ('\u00AC' if idx_split > 0 else '', label)
-            else:
-                return str(self.variable.domain.labels[fst(self.splits[idx_split])])
+                split = set(self.variable.domain.values.values()) - set(split)
+            return '%s%s' % ('\u00AC' if negate else '', self.variable.domain.labels[fst(split)])
         elif self.variable.integer:
             return setstr_int(self.variable.domain.value2label(self.splits[idx_split]))
 
@@ -366,6 +373,7 @@ class Leaf(Node):
         """
         if isinstance(query, LabelAssignment):
             query = query.value_assignment()
+        query = _scalars_to_sets(query)
         path = self.path
         for var in set(query.keys()).intersection(set(path.keys())):
             if path.get(var).isdisjoint(query.get(var)):
@@ -1060,27 +1068,34 @@ class JPT:
 
         self._check_variable_assignment(evidence_)
 
+        query_ = _scalars_to_sets(query_)
+        evidence_ = _scalars_to_sets(evidence_)
+
         p_q = 0.
         p_e = 0.
 
         for leaf in self.apply(evidence_):
-            p_m = 1
-            for var in set(evidence_.keys()):
-                evidence_val = evidence_[var]
-                if var in leaf.path:  # var.numeric and
-                    evidence_val = evidence_val.intersection(leaf.path[var])
+            path = leaf.path
+            evidence_sets = {}
+            p_m = leaf.prior
+            for var, evidence_val in evidence_.items():
+                if var in path:  # var.numeric and
+                    evidence_val = evidence_val.intersection(path[var])
+                evidence_sets[var.name] = evidence_val
                 p_m *= leaf.distributions[var]._p(evidence_val)
 
-            w = leaf.prior
-            p_m *= w
             p_e += p_m
 
-            if leaf.applies(query_):
-                for var in set(query_.keys()):
-                    query_val = query_[var]
-                    if var in leaf.path:
-                        query_val = query_val.intersection(leaf.path[var])
-                    p_m *= leaf.distributions[var]._p(query_val)
+            if p_m and leaf.applies(query_):
+                for var, query_val in query_.items():
+                    if var in path:
+                        query_val = query_val.intersection(path[var])
+                    p_var = leaf.distributions[var]._p
+                    if var in evidence_:  # query and evidence must hold jointly
+                        evidence_val = evidence_sets[var.name]
+                        p_m *= p_var(query_val & evidence_val) / p_var(evidence_val)
+                    else:
+                        p_m *= p_var(query_val)
                 p_q += p_m
 
         if p_e == 0:
@@ -1124,6 +1139,7 @@ class JPT:
             evidence_ = evidence
 
         self._check_variable_assignment(evidence_)
+        evidence_ = _scalars_to_sets(evidence_)
 
         variables = ifnone(variables, self.variables)
         result = VariableMap()
@@ -1171,7 +1187,7 @@ class JPT:
                 if evidence_set is not None:
                     if var in leaf.path:
                         evidence_set = evidence_set.intersection(leaf.path[var])
-                        distribution = distribution._crop(evidence_set)
+                    distribution = distribution._crop(evidence_set)
                 distributions[var].append(distribution)
 
         weights = [l * p for l, p in zip(likelihoods, priors)]
@@ -1310,6 +1326,10 @@ class JPT:
         :param k: the number of solutions to return
         :return: An iterator with states ordered by likelihood.
         """
+        if evidence is None:
+            evidence = {}
+        if isinstance(evidence, dict):
+            evidence = self.bind(evidence)
         if isinstance(evidence, LabelAssignment):
             evidence_ = evidence.value_assignment()
         else:
@@ -1329,21 +1349,23 @@ class JPT:
                     if not np.isnan(likelihood_max) and not np.isinf(likelihood_max):
                         likelihoods.append(likelihood_max)
         likelihood_max = ifnot(likelihoods, 1, max)
+        leaves = [leaf for leaf in conditional_jpt.leaves.values() if leaf.prior > 0]
         mpe_solvers = [
             MPESolver(
                 distributions=leaf.distributions,
                 likelihood_divisor=likelihood_max if likelihoods else None
-            ).solve() for leaf in conditional_jpt.leaves.values()
+            ).solve() for leaf in leaves
         ]
 
+        # The solutions of all leaves are weighted by the prior of their leaf, most likely solutions first
         mpe_candidates = Heap(
-            data=[(*next(solver), solver) for solver in mpe_solvers],
-            key=itemgetter(1)
+            data=[(*next(solver), solver, leaf) for leaf, solver in zip(leaves, mpe_solvers)],
+            key=lambda candidate: -candidate[1] * candidate[3].prior
         )
 
         count = 0
         while mpe_candidates and (not k or count < k):
-            solution, likelihood, solver = mpe_candidates.pop()
+            solution, likelihood, solver, leaf = mpe_candidates.pop()
             values = ValueAssignment(
                 [
                     (variable, value if variable.numeric else set(value))
@@ -1351,9 +1373,9 @@ class JPT:
                 ]
             )
             values = values.label_assignment()
-            yield values, likelihood
+            yield values, likelihood * leaf.prior
             try:
-                mpe_candidates.push((*next(solver), solver))
+                mpe_candidates.push((*next(solver), solver, leaf))
             except StopIteration:
                 pass
             count += 1
@@ -1514,6 +1536,7 @@ class JPT:
                 'JPT not fitted yet.'
             )
 
+        query = _scalars_to_sets(query)
         fringe = deque([self.root])
         while fringe:
             node = fringe.popleft()
@@ -2608,6 +2631,8 @@ class JPT:
         queue: deque[DecisionNode] = deque(list(jpt.innernodes.values()))
         while queue:
             node: DecisionNode = queue.popleft()
+            if len(node.children) != 2:  # conditional JPTs may have lost one of the branches
+                continue
             left, right = node.children
             if (
                     node.idx not in jpt.innernodes
-- 
2.43.0


From 217e06976c6d240b2fe7567b4b6aaeb2e9353e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 11/59] fix: evidence made of single values: weighted by mass
 or density in posterior and conditional models alike, closed intervals
 touching a split weigh nothing beyond it; moments with centers in label space

---
 src/jpt/distributions/quantile/quantiles.pyx |  2 ++
 src/jpt/trees.py                             | 30 +++++++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 7e0eb1c..71e5990 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -277,6 +277,8 @@ cdef class QuantileDistribution:
         """
         if interval.isempty():
             return 0.
+        if interval.lower == interval.upper:
+            return sum(weight for x, weight in self.atoms() if x == interval.lower)
         if interval.upper == np.PINF:
             upper = 1.
         elif interval.right == EXC:
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index bdd093a..954cef6 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -522,7 +522,17 @@ class Leaf(Node):
             validation processes.
         """
         if isinstance(value, RealSet):
-            return sum(self._numeric_probability(variable, cs, dirac_scaling, min_distances) for cs in value.intervals)
+            value = value.simplify()
+            # single values are only weighted by their density if the set does not comprise
+            # any proper interval and none of the values has a positive probability
+            mass = self.distributions[variable]._p(value)
+            if np.isinf(value.size()) or mass and not min_distances:
+                return mass
+            elif isinstance(value, RealSet):
+                return sum(
+                    self._numeric_probability(variable, cs, dirac_scaling, min_distances) for cs in value.intervals
+                )
+            return self._numeric_probability(variable, value, dirac_scaling, min_distances)
 
         # handle ContinuousSet
         elif isinstance(value, ContinuousSet):
@@ -531,7 +541,7 @@ class Leaf(Node):
                 return 0
 
             elif value.size() == 1:
-                return self._numeric_probability(variable, value.lower, dirac_scaling, min_distances)
+                return self._numeric_probability(variable, value.lowermost(), dirac_scaling, min_distances)
 
             else:
                 return self.distributions[variable]._p(value)
@@ -542,6 +552,11 @@ class Leaf(Node):
             # get the likelihood
             likelihood = self.distributions[variable].pdf(value)
 
+            # a value that has a positive probability is weighted by its probability mass
+            mass = self.distributions[variable]._p(value)
+            if mass and not min_distances:
+                likelihood = mass
+
             # if it is infinity and no handling is provided replace it with 1.
             if likelihood == float("inf") and not min_distances:
                 result *= 1
@@ -1161,9 +1176,10 @@ class JPT:
                 if var in leaf.path:
                     evidence_set = evidence_set.intersection(leaf.path[var])
 
-                if isinstance(evidence_set, ContinuousSet) and evidence_set.size() == 1:
-                    l_var = leaf.distributions[var].pdf(evidence_set.lower)
-                    l_var = 1 if np.isinf(l_var) else l_var
+                # single values are weighted by their density, but not the ones that
+                # only remain of a proper interval at the borders of the leaf
+                if var.numeric and np.isfinite(evidence_[var].size()):
+                    l_var = leaf._numeric_probability(var, evidence_set)
                 else:
                     l_var = leaf.distributions[var]._p(evidence_set)
 
@@ -2567,8 +2583,8 @@ class JPT:
                                     fail_on_unsatisfiability)
 
         # Convert c, if necessary, labels to internal value representations
-        if isinstance(center, LabelAssignment):
-            center = center.value_assignment()
+        if isinstance(center, ValueAssignment):  # moments are computed in label space
+            center = center.label_assignment()
 
         if posteriors is None:
             return None
-- 
2.43.0


From 28505f4d680c1a39aae7d864ea120e895d71e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 12/59] fix: conditioning reaches leaves below inner nodes with
 a single child

---
 src/jpt/trees.py | 78 +++++++++++++-----------------------------------
 1 file changed, 21 insertions(+), 57 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 954cef6..6c135af 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2247,65 +2247,29 @@ class JPT:
         if not evidence_:
             return conditional_jpt
 
-        # initialize exploration queue
-        fringe = deque([conditional_jpt.root])
-
-        while fringe:
-            # get the next node to inspect
-            node = fringe.popleft()
-            # clear the path of each node as we will re-construct it later
-
-            # the node might have been deleted already
-            if node.idx not in conditional_jpt.allnodes:
+        # weight every leaf by the probability of the evidence
+        for leaf in list(conditional_jpt.leaves.values()):
+            probability = leaf.probability(evidence_)
+            if probability > 0:
+                leaf.prior *= probability
                 continue
 
-            # initialize remove as false
-            rm = False
-
-            # if it is a decision node
-            if isinstance(node, DecisionNode):
-
-                # that has no children
-                if not node.children:
-
-                    # remove it and update flag
-                    del conditional_jpt.innernodes[node.idx]
-                    rm = True
-
-                # else recurse into its children
-                elif len(node.children) == 2:
-                    fringe.extendleft(node.children)
-                    continue
-
-            # if it is a leaf node
-            else:
-                # type hinting
-                leaf: Leaf = node
-
-                # calculate probability of this leaf being selected given the evidence
-                probability = leaf.probability(evidence_)
-
-                # if the leaf's probability is 0 with the evidence
-                if probability > 0:
-                    leaf.prior *= probability
-                else:
-                    # remove the leaf and set the flag
-                    rm = True
-                    del conditional_jpt.leaves[node.idx]
-
-            # if the node has been removed and the removed node has a parent
-            if rm and node.parent is not None:
-
-                # mark the parent node for further processing
-                fringe.append(node.parent)
-
-                idx = node.parent.children.index(node)
-                del node.parent.children[idx]
-                del node.parent.splits[idx]
-
-            # if the resulting model is empty
-            if rm and node is conditional_jpt.root:
-                conditional_jpt.root = None
+            # remove leaves of no probability along with
+            # all predecessors that have no children left
+            node: Optional[Node] = leaf
+            del conditional_jpt.leaves[leaf.idx]
+            while node is not None:
+                parent = node.parent
+                if parent is None:
+                    conditional_jpt.root = None
+                    break
+                idx = next(i for i, c in enumerate(parent.children) if c is node)
+                del parent.children[idx]
+                del parent.splits[idx]
+                if parent.children:
+                    break
+                del conditional_jpt.innernodes[parent.idx]
+                node = parent
 
         # calculate remaining probability mass
         probability_mass = sum(
-- 
2.43.0


From 1f89fb5ec8ccb430c9f3a85d0574130a8cf137d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 13/59] fix: pruning leaves of no weight, merged leaves keep
 their sample indices

---
 src/jpt/trees.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 6c135af..51b6e14 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -630,7 +630,7 @@ class Leaf(Node):
         Hence, not path or parent etc. is set. The copy only provides querying functionality."""
         result = Leaf(self.idx, None, self.prior)
         result.samples = self.samples
-        result.s_indices = self.s_indices
+        result.s_indices = np.array(self.s_indices)
         result.distributions = VariableMap(
             {
                variable:  type(distribution).from_json(distribution.to_json()) for variable, distribution in self.distributions.items()
@@ -2653,10 +2653,13 @@ class JPT:
                 left.prior + right.prior
             )
 
+            # leaves of no weight at all contribute equally
+            weights = normalized([left.prior, right.prior]) if leaf.prior else [.5, .5]
+
             for variable in self.variables:
                 leaf.distributions[variable] = variable.domain.merge(
                     [left.distributions[variable], right.distributions[variable]],
-                    normalized([left.prior, right.prior])
+                    weights
                 )
                 if variable in approximate:
                     leaf.distributions[variable] = (
@@ -2665,6 +2668,7 @@ class JPT:
                     )
 
             leaf.samples = left.samples + right.samples
+            leaf.s_indices = np.concatenate([left.s_indices, right.s_indices])
 
             del jpt.leaves[left.idx]
             del jpt.leaves[right.idx]
-- 
2.43.0


From 4bede7984e82b0ec74ad0a2c52d4a86cfddb66a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 14/59] fix: split search: sizes of symbolic target domains,
 row counts of symbolic splits without symbolic targets; a maximal depth of 0
 is respected

---
 src/jpt/learning/impurity.pyx | 5 +++--
 src/jpt/trees.py              | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 6ea1a61..277d82e 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -615,7 +615,7 @@ cdef class Impurity:
     def get_size_of_symbolic_variables_domain_from_tree(cls, tree):
         return np.array([
             v.domain.n_values
-            for v in tree.variables if v.symbolic
+            for v in tree.variables if v.symbolic and v in tree.targets
         ], dtype=np.int64)
 
     @classmethod
@@ -1134,13 +1134,14 @@ cdef class Impurity:
             # if this variable is symbolic
             if symbolic:
 
+                self.num_samples[...] = 0
+
                 # if symbolic targets exist
                 if self.has_symbolic_vars():
                     self.symbols_left[...] = 0
                     self.symbols_right[...] =  self.symbols_total[...]
 
                     self.gini_improvements[...] = 0
-                    self.num_samples[...] = 0
 
                 # if numeric targets exist
                 if self.has_numeric_vars(var_idx):
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 51b6e14..1e1af83 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -780,7 +780,7 @@ class JPT:
         self.root = None
         self.c45queue = deque()
         self.max_leaves = max_leaves
-        self.max_depth = max_depth or float('inf')
+        self.max_depth = ifnone(max_depth, float('inf'))
         self._node_counter = 0
         self.indices = None
         self.impurity = None
-- 
2.43.0


From ef81cf93e22d1bf56a39db1b2db7558c6f78b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:31 +0000
Subject: [PATCH 15/59] fix: split search: targets independent of the split
 variable do not contribute garbage, constant or large targets are not
 cancelled

---
 src/jpt/learning/impurity.pyx | 53 ++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 277d82e..d9b214a 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -319,7 +319,8 @@ cdef class Impurity:
     cdef SIZE_t[::1] invert_impurity
 
     # float arrays of all kinds of statistics left and right of a split
-    cdef DTYPE_t[::1] variances_left, \
+    cdef DTYPE_t[::1] offsets, \
+        variances_left, \
         variances_right, \
         variances_total, \
         variance_improvements, \
@@ -359,6 +360,9 @@ cdef class Impurity:
     # 2D integer array describing all dependencies that are considered under symbolic variables
     cdef SIZE_t[:, ::1] symbolic_dependency_matrix
 
+    # 2D integer arrays marking, for every variable, the numeric and symbolic targets that do not depend on it
+    cdef SIZE_t[:, ::1] independent_numeric_targets, independent_symbolic_targets
+
     @classmethod
     def from_tree(cls, tree):
         """
@@ -508,6 +512,7 @@ cdef class Impurity:
         if self.n_num_vars:
 
             # Thread-invariant buffers
+            self.offsets = np.ndarray(self.n_num_vars, dtype=np.float64)
             self.sums_total = np.ndarray(self.n_num_vars, dtype=np.float64)
             self.sq_sums_total = np.ndarray(self.n_num_vars, dtype=np.float64)
             self.variances_total = np.ndarray(self.n_num_vars, dtype=np.float64)
@@ -530,6 +535,7 @@ cdef class Impurity:
         # construct the dependency structure
         dependency_indices = dependency_indices
         cdef int idx_var
+        cdef SIZE_t idx_dep
         cdef list idc_dep
         cdef SIZE_t[::1] indices
 
@@ -543,6 +549,8 @@ cdef class Impurity:
             dtype=np.int64,
         )
         self.symbolic_dependency_matrix = self.numeric_dependency_matrix.copy()
+        self.independent_numeric_targets = np.ones((n, self.n_num_vars), dtype=np.int64)
+        self.independent_symbolic_targets = np.ones((n, self.n_sym_vars), dtype=np.int64)
 
         for idx_var in self.features:  # For all feature variables...
             # ...get the indices of the dependent numeric variables...
@@ -551,6 +559,8 @@ cdef class Impurity:
             ], dtype=np.int64)
             if indices.shape[0]:  # ...and store them in the numeric dependency matrix
                 self.numeric_dependency_matrix[idx_var, :indices.shape[0]] = indices
+                for idx_dep in indices:
+                    self.independent_numeric_targets[idx_var, idx_dep] = 0
 
             # Get the indices of the dependent numeric variables
             indices = np.array([
@@ -558,6 +568,8 @@ cdef class Impurity:
             ], dtype=np.int64)
             if indices.shape[0]:  # ... and store them in the numeric dependency matrix.
                 self.symbolic_dependency_matrix[idx_var, :indices.shape[0]] = indices
+                for idx_dep in indices:
+                    self.independent_symbolic_targets[idx_var, idx_dep] = 0
 
     @classmethod
     def get_indices_of_numeric_targets_from_tree(cls, tree):
@@ -808,23 +820,25 @@ cdef class Impurity:
         cdef np.float64_t impurity_total = 0
         cdef np.float64_t gini_total = 0
 
+        cdef SIZE_t i, j
+        cdef DTYPE_t v
+
         # if numeric targets exist
         if self.has_numeric_vars():
 
             # reset the variances
             self.variances_total[:] = 0
 
-            # calculate square sums of all current data
-            sq_sum_at(self.data,
-                      self.indices[self.start:self.end],
-                      self.numeric_vars,
-                      result=self.sq_sums_total)
-
-            # calculate ordinary sums of all current data
-            sum_at(self.data,
-                   self.indices[self.start:self.end],
-                   self.numeric_vars,
-                   result=self.sums_total)
+            # calculate ordinary sums and square sums of all current data. The values are taken relative
+            # to the first one, such that constants have exactly 0 variance and large values are not cancelled
+            self.sums_total[...] = 0
+            self.sq_sums_total[...] = 0
+            for i in range(self.n_num_vars):
+                self.offsets[i] = self.data[self.indices[self.start], self.numeric_vars[i]]
+                for j in range(self.start, self.end):
+                    v = self.data[self.indices[j], self.numeric_vars[i]] - self.offsets[i]
+                    self.sums_total[i] += v
+                    self.sq_sums_total[i] += v * v
 
             # calculate variances from square and ordinary sums of all current data
             variances(self.sq_sums_total,
@@ -1105,6 +1119,12 @@ cdef class Impurity:
                     result=self.variances_right
                 )
 
+                # a split does not change targets that are independent of the variable
+                for i in range(self.n_num_vars):
+                    if self.independent_numeric_targets[var_idx, i]:
+                        self.variances_left[i] = variances_total[i]
+                        self.variances_right[i] = variances_total[i]
+
                 # compute the variance improvement for this split
                 impurity_improvement += compute_var_improvements(
                     variances_total,
@@ -1124,6 +1144,13 @@ cdef class Impurity:
                     # update gini impurity left and right of the split
                     self.gini_impurity(self.symbols_left, samples_left, self.gini_left)
                     self.gini_impurity(self.symbols_right, samples_right, self.gini_right)
+
+                    # a split does not change targets that are independent of the variable
+                    for i in range(self.n_sym_vars):
+                        if self.independent_symbolic_targets[var_idx, i]:
+                            self.gini_left[i] = self.gini_impurities[i]
+                            self.gini_right[i] = self.gini_impurities[i]
+
                     impurity_improvement += (
                         (gini_total -
                         mean(self.gini_left) * (<DTYPE_t> samples_left / <DTYPE_t> n_samples) -
@@ -1188,7 +1215,7 @@ cdef class Impurity:
                 return
 
             # get the value of the variable at sample
-            y = self.data[sample_idx, self.numeric_vars[dep_var]]
+            y = self.data[sample_idx, self.numeric_vars[dep_var]] - self.offsets[dep_var]
 
             # update stats left and right of the value
             self.sums_left[dep_var] += y
-- 
2.43.0


From 4ac35d1fc0820164fa977e2ea00dad8b8b627d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:22 +0000
Subject: [PATCH 16/59] fix: an impurity improvement of exactly -1 is no error

---
 src/jpt/learning/impurity.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index d9b214a..0a87b92 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -787,7 +787,7 @@ cdef class Impurity:
                 else: return False
         return True
 
-    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except -1:
+    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except? -1:
         """
         Calculate the best split on all variables.
         
@@ -971,7 +971,7 @@ cdef class Impurity:
             DTYPE_t gini_total,
             SIZE_t[::1] index_buffer,
             SIZE_t* best_split_pos
-    ) nogil except -1:
+    ) nogil except? -1:
         """
         Evaluate a variable w. r. t. its possible slit. Calculate the best split on this variable
         and the corresponding impurity.
-- 
2.43.0


From 5a12ab21c3540507ed7f993c670c7d82f444ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:07 +0000
Subject: [PATCH 17/59] fix: split points separate neighboring and huge
 observations; filling the gaps around a constant keeps the constant possible

---
 src/jpt/learning/impurity.pyx |  6 +++++-
 src/jpt/trees.py              | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 0a87b92..0b185a3 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -830,11 +830,15 @@ cdef class Impurity:
             self.variances_total[:] = 0
 
             # calculate ordinary sums and square sums of all current data. The values are taken relative
-            # to the first one, such that constants have exactly 0 variance and large values are not cancelled
+            # to the smallest one, such that constants have exactly 0 variance and large values are not cancelled
             self.sums_total[...] = 0
             self.sq_sums_total[...] = 0
             for i in range(self.n_num_vars):
                 self.offsets[i] = self.data[self.indices[self.start], self.numeric_vars[i]]
+                for j in range(self.start + 1, self.end):
+                    v = self.data[self.indices[j], self.numeric_vars[i]]
+                    if v < self.offsets[i]:
+                        self.offsets[i] = v
                 for j in range(self.start, self.end):
                     v = self.data[self.indices[j], self.numeric_vars[i]] - self.offsets[i]
                     self.sums_total[i] += v
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1e1af83..5f54239 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1627,10 +1627,11 @@ class JPT:
                 ]
 
             elif split_var.numeric:  # Numeric domain ------------------------------------------------------------------
-                split_value = (
-                    data[self.indices[start + split_pos], split_var_idx] +
-                    data[self.indices[start + split_pos + 1], split_var_idx]
-                ) / 2
+                lower = data[self.indices[start + split_pos], split_var_idx]
+                upper = data[self.indices[start + split_pos + 1], split_var_idx]
+                split_value = (lower + upper) / 2
+                if not lower < split_value <= upper:  # neighboring or huge floats
+                    split_value = upper
                 splits = [
                     Interval(np.NINF, split_value, EXC, EXC),
                     Interval(split_value, np.PINF, INC, EXC)
@@ -2427,11 +2428,16 @@ class JPT:
                             distribution.cdf.intervals[-2].upper,
                             leaf.path[variable].upper,
                         )
+                    if left is None and right is None:
+                        continue
                     if distribution.is_dirac_impulse():
                         # noinspection PyTypeChecker
                         interval = ContinuousSet(
                             left.lower if left is not None else distribution.cdf.intervals[0].upper,
-                            right.upper if right is not None else distribution.cdf.intervals[1].lower,
+                            # the interval is open to the right, but has to contain the impulse itself
+                            right.upper if right is not None else np.nextafter(
+                                distribution.cdf.intervals[1].lower, np.PINF
+                            ),
                             INC,
                             EXC
                         )
@@ -2439,7 +2445,7 @@ class JPT:
                         distribution.set(
                             QuantileDistribution.from_pdf(
                                 PiecewiseFunction.zero().overwrite({
-                                    interval: 1 / interval.width
+                                    interval: 1 / (interval.upper - interval.lower)
                                 })
                             )
                         )
-- 
2.43.0


From 8c0bf9b80c7eded2abc70ca4028b4f9fab6d51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:53 +0000
Subject: [PATCH 18/59] fix: JSON of variables and distributions shares no
 settings with them

---
 src/jpt/distributions/univariate/integer.py     | 2 +-
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 src/jpt/distributions/univariate/numeric.py     | 2 +-
 src/jpt/variables.py                            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index b0d93b5..ecfa2ed 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -142,7 +142,7 @@ class Integer(Distribution):
         return {
             'class': type(self).__qualname__,
             'params': list(self._params),
-            'settings': self.settings
+            'settings': dict(self.settings)
         }
 
     @staticmethod
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index aa19462..8d09a53 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -496,7 +496,7 @@ class Multinomial(Distribution):
         return {
             'class': type(self).__qualname__,
             'params': list(self._params),
-            'settings': self.settings
+            'settings': dict(self.settings)
         }
 
     to_json = type_to_json
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index a94eed4..c535f25 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -408,7 +408,7 @@ class Numeric(Distribution):
     def inst_to_json(self):
         return {
             'class': type(self).__name__,
-            'settings': self.settings,
+            'settings': dict(self.settings),
             'quantile': self._quantile.to_json() if self._quantile is not None else None
         }
 
diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 47293a6..c81ba8d 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -164,7 +164,7 @@ class Variable:
         return {
             'name': self.name,
             'domain': None if self.domain is None else self.domain.to_json(),
-            'settings': self.settings
+            'settings': dict(self.settings)
         }
 
     @staticmethod
-- 
2.43.0


From cf76f8514e717a912bcaee26fd9e8c574dd06ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:53 +0000
Subject: [PATCH 19/59] fix: models compare unequal to other objects; density
 of worlds with symbolic values

---
 src/jpt/trees.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 5f54239..f9f9795 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -950,21 +950,9 @@ class JPT:
         self.__dict__ = JPT.from_json(json_data).__dict__
 
     def __eq__(self, o) -> bool:
-        eq = (
-            isinstance(o, JPT),
-            self.innernodes == o.innernodes,
-            self.leaves == o.leaves,
-            self.priors == o.priors,
-            self.min_samples_leaf == o.min_samples_leaf,
-            self.min_impurity_improvement == o.min_impurity_improvement,
-            self.targets == o.targets,
-            self.variables == o.variables,
-            self.max_depth == o.max_depth,
-            self.max_leaves == o.max_leaves,
-            self.dependencies == o.dependencies
-        )
+        if not isinstance(o, JPT):
+            return False
         return all((
-            isinstance(o, JPT),
             self.innernodes == o.innernodes,
             self.leaves == o.leaves,
             self.priors == o.priors,
@@ -1027,7 +1015,8 @@ class JPT:
 
         pdf = 0
         for leaf in self.apply(values_sets):
-            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
+            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value) if var.numeric else
+                                      leaf.distributions[var]._pdf(value)
                                       for var, value in values_scalars.items()) if values_scalars else 1)
         return pdf
 
-- 
2.43.0


From 451dc8e74824c6cf51c3fd241ab230dc935d308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:39 +0000
Subject: [PATCH 20/59] fix: applicable leaves are those whose whole path meets
 the query; density of impossible worlds with point masses is 0

---
 src/jpt/trees.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index f9f9795..edb9af2 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1015,9 +1015,12 @@ class JPT:
 
         pdf = 0
         for leaf in self.apply(values_sets):
-            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value) if var.numeric else
-                                      leaf.distributions[var]._pdf(value)
-                                      for var, value in values_scalars.items()) if values_scalars else 1)
+            densities = [
+                leaf.distributions[var].pdf(value) if var.numeric else leaf.distributions[var]._pdf(value)
+                for var, value in values_scalars.items()
+            ]
+            if all(densities):  # an impossible value outweighs the infinite density of others
+                pdf += leaf.prior * (prod(densities) if densities else 1)
         return pdf
 
     def infer(
@@ -1547,7 +1550,9 @@ class JPT:
             node = fringe.popleft()
 
             if isinstance(node, Leaf):
-                yield node
+                # the path may constrain a variable more than once
+                if node.path_consistent_with(query):
+                    yield node
                 continue
             else:
                 node: DecisionNode
-- 
2.43.0


From 77e2449ef7f8644c8f94a4fffd978abd8d5cce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 21/59] fix: conditioning refuses assignments of foreign
 variables; reasons of unsatisfiability may be missing

---
 src/jpt/base/errors.py | 2 +-
 src/jpt/trees.py       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/errors.py b/src/jpt/base/errors.py
index c65e2c0..6323955 100644
--- a/src/jpt/base/errors.py
+++ b/src/jpt/base/errors.py
@@ -12,7 +12,7 @@ class Unsatisfiability(Exception):
     @property
     def reasons(self) -> Iterable[Tuple]:
         yield from sorted(
-            [(likelihood, assignment) for assignment, likelihood in self._reasons.items()],
+            [(likelihood, assignment) for assignment, likelihood in (self._reasons or {}).items()],
             key=itemgetter(0),
             reverse=True
         )
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index edb9af2..449d887 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2235,6 +2235,8 @@ class JPT:
         else:
             evidence_ = evidence
 
+        self._check_variable_assignment(evidence_)
+
         # the new jpt that acts as conditional joint probability distribution
         conditional_jpt: JPT = self.copy()
 
-- 
2.43.0


From 168efbfe3acb0ca6dc34f39807ec5061899ac894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 22/59] fix: distributions can be pickled and deep-copied, also
 before fitting; unfitted models equal their copies

---
 .../distributions/univariate/distribution.py  | 20 ++++++++++++++-----
 src/jpt/distributions/univariate/integer.py   |  5 +++--
 .../distributions/univariate/multinomial.py   |  5 +++--
 src/jpt/distributions/univariate/numeric.py   | 14 +++++++------
 src/jpt/trees.py                              |  2 +-
 5 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/jpt/distributions/univariate/distribution.py b/src/jpt/distributions/univariate/distribution.py
index 5e242f5..6ffb85d 100644
--- a/src/jpt/distributions/univariate/distribution.py
+++ b/src/jpt/distributions/univariate/distribution.py
@@ -1,6 +1,6 @@
 '''© Copyright 2021, Mareike Picklum, Daniel Nyga.'''
 import numbers
-from typing import Set, Iterable, Type, Any
+from typing import Set, Iterable, Type, Any, Dict
 
 import numpy as np
 
@@ -18,6 +18,13 @@ DISCRETE = 'discrete'
 
 # ----------------------------------------------------------------------------------------------------------------------
 
+def _from_json(type_data: Dict[str, Any], data: Dict[str, Any]) -> 'Distribution':
+    """
+    Restore a distribution from the JSON representations of its domain and of its parameters.
+    """
+    return Distribution.from_json(type_data).from_json(data)
+
+
 class Distribution:
     '''
     Abstract supertype of all domains and distributions
@@ -173,11 +180,14 @@ class Distribution:
     def to_json(self):
         raise NotImplementedError()
 
-    def __getstate__(self):
-        return self.to_json()
+    def __reduce__(self):
+        return _from_json, (type(self).to_json(), self.to_json())
+
+    def __copy__(self):
+        return type(self).from_json(self.to_json())
 
-    def __setstate__(self, state):
-        self.__dict__ = Distribution.from_json(state).__dict__
+    def __deepcopy__(self, _):
+        return type(self).from_json(self.to_json())
 
     @staticmethod
     def from_json(data) -> Type['Distribution']:
diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index ecfa2ed..a0a2d45 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -141,7 +141,7 @@ class Integer(Distribution):
     def inst_to_json(self) -> Dict[str, Any]:
         return {
             'class': type(self).__qualname__,
-            'params': list(self._params),
+            'params': list(self._params) if self._params is not None else None,
             'settings': dict(self.settings)
         }
 
@@ -151,7 +151,8 @@ class Integer(Distribution):
 
     @classmethod
     def from_json(cls, data: Dict[str, Any]) -> 'Integer':
-        return cls(**data['settings']).set(data['params'])
+        result = cls(**data['settings'])
+        return result.set(data['params']) if data['params'] is not None else result
 
     def copy(self):
         result = type(self)(**self.settings)
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 8d09a53..b2e214c 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -495,7 +495,7 @@ class Multinomial(Distribution):
     def inst_to_json(self):
         return {
             'class': type(self).__qualname__,
-            'params': list(self._params),
+            'params': list(self._params) if self._params is not None else None,
             'settings': dict(self.settings)
         }
 
@@ -507,7 +507,8 @@ class Multinomial(Distribution):
 
     @classmethod
     def from_json(cls, data):
-        return cls(**data['settings']).set(data['params'])
+        result = cls(**data['settings'])
+        return result.set(data['params']) if data['params'] is not None else result
 
     def is_dirac_impulse(self):
         for p in self._params:
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index c535f25..87246b8 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -416,9 +416,10 @@ class Numeric(Distribution):
 
     @staticmethod
     def from_json(data):
-        return Numeric(
-            **data['settings']
-        ).set(
+        result = Numeric(**data['settings'])
+        if data['quantile'] is None:
+            return result
+        return result.set(
             QuantileDistribution.from_json(
                 data['quantile']
             )
@@ -737,9 +738,10 @@ class ScaledNumeric(Numeric):
 
     @classmethod
     def from_json(cls, data):
-        return cls(
-            **data['settings']
-        ).set(
+        result = cls(**data['settings'])
+        if data['quantile'] is None:
+            return result
+        return result.set(
             QuantileDistribution.from_json(data['quantile'])
         )
 
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 449d887..2afe743 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -791,7 +791,7 @@ class JPT:
         if dependencies is None:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap({
                 var: list(self.targets) for var in self.features
-            })
+            }, variables=self.variables)
         else:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
                 dependencies.items(),
-- 
2.43.0


From d7a4ccea9ffee3f535a98e6ea1b56c78870b379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:28 +0000
Subject: [PATCH 23/59] fix: the roulette wheel never draws elements without
 weight; interval samples can be written into arrays

---
 src/jpt/base/intervals.pyx | 2 +-
 src/jpt/base/sampling.py   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 2991c38..e09142c 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -774,7 +774,7 @@ cdef class ContinuousSet(NumberSet):
             )
 
         else:
-            result[...] = np.random.uniform(
+            np.asarray(result)[...] = np.random.uniform(
                 max(np.finfo(np.float64).min, lower),
                 min(np.finfo(np.float64).max, upper),
                 k
diff --git a/src/jpt/base/sampling.py b/src/jpt/base/sampling.py
index 5838057..32e26a8 100644
--- a/src/jpt/base/sampling.py
+++ b/src/jpt/base/sampling.py
@@ -29,8 +29,10 @@ class RouletteWheelSampler:
         if not (0 <= x <= self._upperbounds[-1]):
             raise IndexError('Indexes in the roulette wheel must be in [0, %s] (got %s)' % (self._upperbounds[-1], x))
         for i, bound in enumerate(self._upperbounds):
-            if x <= bound:
+            if x < bound:
                 return i
+        # ``x`` is the upper end of the wheel, which belongs to the last element that has a weight
+        return int(np.searchsorted(self._upperbounds, x))
 
     def sample(self, n=1):
         '''Sample ``n`` values from the the roulette wheel.
-- 
2.43.0


From e28e6ad036ef9484663fe412a414694b6689a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 24/59] fix: marginals of sequences are exact, in order and
 count the evidence once; refitting forgets old leaves

---
 src/jpt/sequential_trees.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index bec2550..20257e6 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -1,5 +1,5 @@
 import datetime
-from operator import itemgetter
+from itertools import zip_longest
 from typing import List, Dict
 
 import numpy as np
@@ -10,7 +10,6 @@ from dnutils import out, getlogger
 
 from jpt import JPT
 from jpt.base.errors import Unsatisfiability
-from jpt.base.utils import normalized
 from jpt.variables import LabelAssignment, VariableAssignment, VariableMap, Variable
 
 
@@ -86,6 +85,7 @@ class SequentialJPT:
         # create template tree from learnt joint tree
         self.template_tree.root = expanded_template_tree.root
         self.template_tree.innernodes = expanded_template_tree.innernodes
+        self.template_tree.leaves.clear()
         for idx, leaf in expanded_template_tree.leaves.items():
             leaf.distributions = VariableMap([(v, d) for v, d in leaf.distributions.items()
                                              if v.name in self.template_tree.varnames.keys()])
@@ -308,11 +308,17 @@ class SequentialJPT:
         # create result list
         result = []
 
-        # Run (loopy) belief propagation (LBP)
+        # Run belief propagation, which is exact when the messages are passed along the chain forth and back
         start = datetime.datetime.now()
-        factor_graph.lbp(max_iters=100, progress=True)
+        states = list(factor_graph.get_rvs().values())
+        factors = factor_graph.get_factors()
+        transitions, priors = factors[:len(states) - 1], factors[len(states) - 1:]
+        chain = [node for nodes in zip_longest(states, transitions) for node in nodes if node is not None]
+        factor_graph.init_messages()
+        for node in priors + chain + chain[::-1]:
+            node.recompute_outgoing(normalize=True)
         leaf_distribution = {
-            var.name: normalized(dist, zeros=.1)
+            var.name: dist
             for var, dist in factor_graph.rv_marginals()
         }
 
@@ -322,20 +328,12 @@ class SequentialJPT:
             '(length %s) took %s.' % (len(evidence_), now - start)
         )
 
-        # transform trees
-        for ((tree_name, distribution), tree) in zip(
-            sorted(leaf_distribution.items(), key=itemgetter(0)),
-            altered_jpts
-        ):
-            prior = dict(
-                zip(
-                    sorted(self.template_tree.leaves.keys()),
-                    distribution
-                )
-            )
-
-            adjusted_tree = tree.multiply_by_leaf_prior(prior)
-            result.append(adjusted_tree)
+        # transform trees: the marginals already comprise the evidence of the respective time step
+        for t, tree in enumerate(altered_jpts):
+            for leaf_idx, prior in zip(self.template_tree.leaves.keys(), leaf_distribution['t%s' % t]):
+                if leaf_idx in tree.leaves:
+                    tree.leaves[leaf_idx].prior = prior
+            result.append(tree.normalize())
 
         self.logger.debug('Independent marginals computation finished.')
         return result
-- 
2.43.0


From 53211e2dccb16ade4dce3ffce2a1577ddf852b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 25/59] fix: variable maps can be subtracted from themselves,
 hash sets like equal sets, and check values on update

---
 src/jpt/variables.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index c81ba8d..3491b96 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -641,7 +641,7 @@ class VariableMap:
             type(self),
             tuple(
                 sorted(
-                    [(var, tuple(sorted(val)) if type(val) is set else val)
+                    [(var, frozenset(val) if isinstance(val, set) else val)
                      for var, val in self.items()], key=lambda t: t[0].name
                 )
             )
@@ -649,7 +649,7 @@ class VariableMap:
 
     def __isub__(self, other):
         if isinstance(other, VariableMap):
-            for v in other:
+            for v in list(other):
                 if v in self:
                     del self[v]
         else:
@@ -682,8 +682,10 @@ class VariableMap:
         return {var.name: to_json(value) for var, value in self.items()}
 
     def update(self, varmap: 'VariableMap') -> 'VariableMap':
-        self._map.update(varmap._map)
-        self._variables.update(varmap._variables)
+        for variable in varmap.variables:
+            self._variables.setdefault(variable.name, variable)
+        for variable, value in varmap.items():
+            self[variable] = value
         return self
 
     def copy(self, deep: bool = False) -> 'VariableMap':
-- 
2.43.0


From b8c8c87f02dcbdb052802101a9e6d0efd9681a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 26/59] fix: assignments check values set by name or as sets,
 and survive JSON with single labels and real sets

---
 src/jpt/variables.py | 48 ++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 3491b96..fbf61c1 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -593,7 +593,11 @@ class VariableMap:
             return self.__getitem__(key.name)
         return self._map.__getitem__(key)
 
-    def __setitem__(self, variable: Union[str, Variable], value: Any) -> None:
+    def _resolve(self, variable: Union[str, Variable]) -> Variable:
+        '''
+        Return the ``Variable`` object that is identified by ``variable``, which
+        may be the name of a variable known to this map or a ``Variable`` itself.
+        '''
         if type(variable) is str:
             if variable not in self._variables:
                 raise ValueError(
@@ -604,6 +608,10 @@ class VariableMap:
         if not isinstance(variable, Variable):
             raise ValueError('Illegal argument value: '
                              'expected Variable, got %s.' % type(variable).__name__)
+        return variable
+
+    def __setitem__(self, variable: Union[str, Variable], value: Any) -> None:
+        variable = self._resolve(variable)
         self._map[variable.name] = value
         if variable.name not in self._variables:
             self._variables[variable.name] = variable
@@ -757,15 +765,32 @@ class VariableAssignment(VariableMap):
             variable = var_by_name[v_name]
 
             if variable.symbolic or variable.integer:
-                value_ = set(value)
+                value_ = set(value) if isinstance(value, (list, tuple, set)) else value
             elif variable.numeric:
-                value_ = ContinuousSet.from_json(value)
+                if isinstance(value, numbers.Number):
+                    value_ = value
+                elif 'intervals' in value:
+                    value_ = RealSet.from_json(value)
+                else:
+                    value_ = ContinuousSet.from_json(value)
             else:
                 raise NotImplementedError('Unknown variable type: %s' % variable.__class__.__name__)
 
             vmap[variable] = value_
         return vmap
 
+    def to_json(self) -> Dict[str, Any]:
+        """ Convert this assignment to a json serializable dictionary. To achieve that sets are replaced
+        with lists."""
+        result = dict()
+        for variable, value in self.items():
+            if isinstance(value, (set, frozenset)):
+                value = [e.item() if isinstance(e, np.generic) else e for e in value]
+            elif isinstance(value, np.generic):
+                value = value.item()
+            result[variable.name] = to_json(value)
+        return result
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
@@ -783,6 +808,7 @@ class LabelAssignment(VariableAssignment):
                                  NumberSet,
                                  numbers.Number,
                                  str]) -> None:
+        variable = self._resolve(variable)
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
         elif isinstance(variable, SymbolicVariable):
@@ -798,19 +824,6 @@ class LabelAssignment(VariableAssignment):
     def value_assignment(self) -> 'ValueAssignment':
         return ValueAssignment([(var, var.domain.label2value(val)) for var, val in self.items()])
 
-    def to_json(self) -> Dict[str, Any]:
-        """ Convert this LabelAssignment to a json serializable dictionary. To achieve that sets are replaced
-        with lists."""
-        result = dict()
-        for variable, value in self.items():
-            if variable.symbolic or variable.integer:
-                if isinstance(value, collections.abc.Iterable):
-                    value = list(value)
-
-            result[variable.name] = to_json(value)
-
-        return result
-
 
 # ----------------------------------------------------------------------------------------------------------------------
 
@@ -822,9 +835,10 @@ class ValueAssignment(VariableAssignment):
     '''
 
     def __setitem__(self, variable: Variable, value: Union[Set[int], NumberSet, numbers.Number]) -> None:
+        variable = self._resolve(variable)
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
-        elif isinstance(variable, SymbolicVariable) and type(value) not in (numbers.Integral, set):
+        elif isinstance(variable, SymbolicVariable):
             if type(value) is not set:
                 value_ = {value}
             else:
-- 
2.43.0


From f30e6d4ac26891acd633f8ad8ed2314a2409a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:53 +0000
Subject: [PATCH 27/59] fix: deleting elements from a heap keeps its order

---
 src/jpt/base/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 2a50a74..c316520 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -507,6 +507,7 @@ class Heap:
 
     def __delitem__(self, item: int):
         del self._data[item]
+        heapq.heapify(self._data)
 
     def __bool__(self):
         return bool(self._data)
-- 
2.43.0


From 95a024a519d1c3e60e6c0654b3477631f876abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:53 +0000
Subject: [PATCH 28/59] fix: normalizing integer arrays, infinite values and
 vanishing zeros

---
 src/jpt/base/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index c316520..9fc764e 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -355,6 +355,8 @@ def normalized(
                 raise ValueError('Not a proper distribution: %s' % dist)
             if not z and identity_on_zeros:
                 return dist.copy()
+        if not np.isfinite(z):
+            raise ValueError('Not a proper distribution: %s' % dist)
 
         retvals = {
             k: v / z for k, v in retvals.items()
@@ -362,6 +364,7 @@ def normalized(
 
         if zeros and min(retvals.values()) == 0:
             abs_min = min([v for v in retvals.values() if v > .0]) * zeros
+            zeros = 0  # no zeros are left, or they are too small to be represented
             retvals = {
                 k: ifnot(v, abs_min) for k, v in retvals.items()
             }
@@ -375,7 +378,10 @@ def normalized(
                 result[e]for e in range(len(dist_))
             ]
         if isinstance(dist, np.ndarray):
-            return np.array(result, dtype=dist.dtype)
+            return np.array(
+                result,
+                dtype=dist.dtype if np.issubdtype(dist.dtype, np.inexact) else np.float64
+            )
         return result
 
 
-- 
2.43.0


From ebc91907570d5124221b945e15d52c31b0fa6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:53 +0000
Subject: [PATCH 29/59] fix: empty sets of integers have a string
 representation

---
 src/jpt/base/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 9fc764e..27b5075 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -119,6 +119,8 @@ def setstr_int(intset: Set[int], sep_inner: str = '', sep_outer: str = ', ') ->
     :param sep_outer:   the separator character to be used for separating non-consecutive ("outer") numbers
     '''
     elements = list(sorted(intset))
+    if not elements:
+        return ''
     chunks = []
     chunk = [elements[0]]
     for a, b in pairwise(elements):
-- 
2.43.0


From c426467f20240ac05451823f19dc3a7e93a573e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 30/59] fix: approximating functions with equal pieces or gaps

---
 src/jpt/base/functions.pyx | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index b869324..4f6d560 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1988,7 +1988,8 @@ class PLFApproximator:
                 PLFApproximator.FunctionSegment(i1, f1),
                 PLFApproximator.FunctionSegment(i2, f2)
             )
-            if replacements:  # Update the double-linked list
+            # Update the double-linked list, which does not extend over gaps
+            if replacements and replacements[-1].right.i == i1:
                 replacement.prev = replacements[-1]
                 replacements[-1].next = replacement
             replacements.append(replacement)
@@ -2006,17 +2007,11 @@ class PLFApproximator:
             ):
                 break
 
-            # Remove the left and right segments of the replacement from the original function
-            del result.intervals[result.intervals.index(replacement.left.i)]
-            del result.functions[result.functions.index(replacement.left.f)]
-            del result.intervals[result.intervals.index(replacement.right.i)]
-            del result.functions[result.functions.index(replacement.right.f)]
-
-            # Insert the new segment at the interval union of the former left and right segments
-            result = result.overwrite_at(
-                replacement.new.i,
-                replacement.new.f
-            )
+            # Replace the left and right segments by the new segment at the
+            # interval union of the former left and right segments
+            idx = result.intervals.index(replacement.left.i)
+            result.intervals[idx:idx + 2] = [replacement.new.i]
+            result.functions[idx:idx + 2] = [replacement.new.f]
 
             # Remove the "prev" and "next" replacements from the heap as one counterpart of
             # both their "left" and "right" segments has become obsolete.
-- 
2.43.0


From 9b146e71db139c8b4f314719796b0d51ad4933e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 31/59] fix: approximations of distributions keep point masses

---
 src/jpt/distributions/univariate/numeric.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 87246b8..6792791 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -580,12 +580,20 @@ class Numeric(Distribution):
             error_max: float = None,
             n_segments: int = None
     ) -> 'Numeric':
+        '''
+        Approximate this distribution by one whose CDF comprises fewer segments.
+
+        The CDF is approximated (rather than the PDF), because it also represents point masses.
+
+        :param error_max:   the maximal (mean absolute) error of the CDF in every approximated segment
+        :param n_segments:  the desired number of segments of the CDF
+        '''
         return type(self)(**self.settings).set(
-            QuantileDistribution.from_pdf(
-                self.pdf.approximate(
+            QuantileDistribution.from_cdf(
+                self.cdf.approximate(
                     error_max=error_max,
                     n_segments=n_segments,
-                    replace_by=ConstantFunction
+                    replace_by=LinearFunction
                 )
             )
         )
-- 
2.43.0


From 9403e38d0e3e6704d616f99aa6d200a4b40e4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:26 +0000
Subject: [PATCH 32/59] fix: pruning with an approximation error for all
 variables ignores discrete variables

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 2afe743..521399f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2663,7 +2663,7 @@ class JPT:
                     [left.distributions[variable], right.distributions[variable]],
                     weights
                 )
-                if variable in approximate:
+                if variable in approximate and variable.numeric:
                     leaf.distributions[variable] = (
                         leaf.distributions[variable]
                         .approximate(approximate[variable])
-- 
2.43.0


From de17dc81d45ff8e6e8225387467efc226dd39f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:57 +0000
Subject: [PATCH 33/59] fix: sums of distributions with point masses

The density of a distribution cannot represent point masses: adding a
distribution with point masses convolved impulses as if they were
ordinary pieces. Point masses are now added exactly.
---
 src/jpt/distributions/univariate/numeric.py | 43 +++++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 6792791..58db78c 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -2,7 +2,7 @@
 import copy
 import numbers
 import os
-from collections import deque
+from collections import defaultdict, deque
 from operator import itemgetter
 from typing import Union, Iterable, Optional, Dict, Any, Type, Callable, List, Tuple
 
@@ -24,7 +24,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
+    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet, INC, EXC
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -570,9 +570,44 @@ class Numeric(Distribution):
 
     def __add__(self, other: 'Numeric') -> 'Numeric':
         result = type(self)(**self.settings)
-        result._quantile = QuantileDistribution.from_pdf(
-            self.pdf.convolution(other.pdf).rectify().simplify()
+        atoms_self, atoms_other = self._quantile.atoms(), other._quantile.atoms()
+        if not atoms_self and not atoms_other:
+            result._quantile = QuantileDistribution.from_pdf(
+                self.pdf.convolution(other.pdf).rectify().simplify()
+            )
+            return result
+
+        # Point masses shift the density of the respective other distribution
+        # and add up to point masses of the sum
+        density_self, density_other = self.cdf.differentiate(), other.cdf.differentiate()
+        density = PiecewiseFunction.zero()
+        if len(density_self.simplify()) > 1 and len(density_other.simplify()) > 1:
+            density = density_self.convolution(density_other).rectify()
+        atoms = defaultdict(float)
+        for x, weight in atoms_self:
+            density = density + density_other.xshift(-x) * weight
+            for x_, weight_ in atoms_other:
+                atoms[x + x_] += weight * weight_
+        for x, weight in atoms_other:
+            density = density + density_self.xshift(-x) * weight
+
+        # Integrate the density and add the point masses
+        knots = sorted(
+            {b for b in density.simplify().boundaries() if np.isfinite(b)} | set(atoms)
         )
+        cdf = PiecewiseFunction()
+        cdf.append(ContinuousSet(np.NINF, knots[0], EXC, EXC), ConstantFunction(0))
+        head = 0
+        for lower, upper in pairwise(knots):
+            head += atoms.get(lower, 0)
+            slope = density.eval((lower + upper) / 2)
+            cdf.append(
+                ContinuousSet(lower, upper, INC, EXC),
+                LinearFunction(slope, head - slope * lower) if slope else ConstantFunction(head)
+            )
+            head += slope * (upper - lower)
+        cdf.append(ContinuousSet(knots[-1], np.PINF, INC, EXC), ConstantFunction(1))
+        result._quantile = QuantileDistribution.from_cdf(cdf)
         return result
 
     def approximate(
-- 
2.43.0


From 1e8e1525726d99f924caaeeac6070fc88150c26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 34/59] fix: similarity and divergence of distributions with
 point masses, comparing unfitted distributions

Point masses on the bounds of the intervals were counted twice in the
divergence and ignored in the similarity. Comparing distributions that
have not been fitted raised an error.
---
 src/jpt/distributions/univariate/integer.py   |  2 +-
 .../distributions/univariate/multinomial.py   |  4 +-
 src/jpt/distributions/univariate/numeric.py   | 49 ++++++++-----------
 3 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index a0a2d45..6d41db8 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -417,7 +417,7 @@ class Integer(Distribution):
     def __eq__(self, other) -> bool:
         return (
             type(self).equiv(type(other)) and
-            (self.probabilities == other.probabilities).all()
+            np.array_equal(self.probabilities, other.probabilities)
         )
 
     def __str__(self):
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index b2e214c..37320f9 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -164,9 +164,7 @@ class Multinomial(Distribution):
     def __eq__(self, other):
         return type(self).equiv(
             type(other)
-        ) and (
-            self.probabilities == other.probabilities
-        ).all()
+        ) and np.array_equal(self.probabilities, other.probabilities)
 
     def __str__(self):
         if self._p is None:
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 58db78c..4d1a0a1 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -2,8 +2,7 @@
 import copy
 import numbers
 import os
-from collections import defaultdict, deque
-from operator import itemgetter
+from collections import defaultdict
 from typing import Union, Iterable, Optional, Dict, Any, Type, Callable, List, Tuple
 
 import numpy as np
@@ -74,7 +73,11 @@ class Numeric(Distribution):
                     type(o)
                 )
             )
-        return type(o).equiv(type(self)) and self._quantile == o._quantile
+        if not type(o).equiv(type(self)):
+            return False
+        if self._quantile is None or o._quantile is None:
+            return self._quantile is o._quantile
+        return self._quantile == o._quantile
 
     # noinspection DuplicatedCode
     @classmethod
@@ -288,25 +291,13 @@ class Numeric(Distribution):
                 'Can only compute KL divergence between '
                 'distributions of the same type, got %s' % type(other)
             )
-        self_ = [(i.lower, f.value, None) for i, f in self.pdf.iter()]
-        other_ = [(i.lower, None, f.value) for i, f in other.pdf.iter()]
-        all_ = deque(sorted(self_ + other_, key=itemgetter(0)))
-        queue = deque()
-        while all_:
-            v, p, q = all_.popleft()
-            if queue and v == queue[-1][0]:
-                if p is not None:
-                    queue[-1][1] = p
-                if q is not None:
-                    queue[-1][2] = q
-            else:
-                queue.append([v, p, q])
+        bounds = sorted(
+            {i.lower for d in (self, other) for i in d.cdf.intervals if np.isfinite(i.lower)}
+        )
         result = 0
-        p, q = 0, 0
-        for (x0, p_, q_), (x1, _, _) in pairwise(queue):
-            p = ifnone(p_, p)
-            q = ifnone(q_, q)
-            i = ContinuousSet(x0, x1)
+        # Half-open intervals, such that point masses on the bounds are counted only once
+        for x0, x1 in pairwise([np.NINF] + bounds + [np.PINF]):
+            i = ContinuousSet(x0, x1, INC if np.isfinite(x0) else EXC, EXC)
             result += self._p(i) * abs(self._p(i) - other._p(i))
         return result
 
@@ -642,20 +633,22 @@ class Numeric(Distribution):
             return 1
         points = list(
             sorted(
-                set(d1.pdf.boundaries()) | set(d2.pdf.boundaries())
+                set(d1.cdf.boundaries()) | set(d2.cdf.boundaries())
             )
         )
         intersection = 0
         union = 0
+        density1, density2 = d1.cdf.differentiate(), d2.cdf.differentiate()
         for p1, p2 in pairwise(points):
-            v1 = d1.pdf.eval(
-                ContinuousSet(p1, p2).any_point()
-            )
-            v2 = d2.pdf.eval(
-                ContinuousSet(p1, p2).any_point()
-            )
+            v1 = density1.eval((p1 + p2) / 2)
+            v2 = density2.eval((p1 + p2) / 2)
             intersection += min(v1, v2) * (p2 - p1)
             union += max(v1, v2) * (p2 - p1)
+        # Point masses are not part of the densities
+        atoms1, atoms2 = dict(d1._quantile.atoms()), dict(d2._quantile.atoms())
+        for x in set(atoms1) | set(atoms2):
+            intersection += min(atoms1.get(x, 0), atoms2.get(x, 0))
+            union += max(atoms1.get(x, 0), atoms2.get(x, 0))
         return intersection / union
 
     def plot(
-- 
2.43.0


From 26126a55b7eb68d317278e75be88a069dca0db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:42 +0000
Subject: [PATCH 35/59] fix: blurring single values of variables with scaled
 domains

The label was used as a quantile level, and quantiles were transformed as
if they were labels.
---
 src/jpt/trees.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 521399f..73d73a8 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1440,30 +1440,21 @@ class JPT:
                     # Apply a "blur" to single value evidences, if any blur is set
                     elif var.blur:
                         prior = self.priors[var.name]
-                        transformer = var.domain.label2value if space == 'labels' else var.domain.value2label
-                        quantile = prior.cdf.functions[
-                            max(
-                                1,
-                                min(
-                                    len(prior.cdf) - 2,
-                                    prior.cdf.idx_at(transformer(val))
-                                )
-                            )
-                        ].eval(val)
-                        lower = transformer(quantile - var.blur / 2)
-                        upper = transformer(quantile + var.blur / 2)
-                        query_[var] = ContinuousSet(
-                            transformer(
-                                prior.ppf.functions[max(1, min(len(prior.cdf) - 2, prior.ppf.idx_at(lower)))].eval(
-                                    lower
-                                )
-                            ),
-                            transformer(
-                                prior.ppf.functions[min(len(prior.ppf) - 2, max(1, prior.ppf.idx_at(upper)))].eval(
-                                    upper
-                                )
-                            )
+                        value = var.domain.label2value(val) if space == 'labels' else val
+
+                        def extrapolate(f, x):
+                            # outside of the support, use the respective outermost piece
+                            return f.functions[max(1, min(len(f) - 2, f.idx_at(x)))].eval(x)
+
+                        quantile = extrapolate(prior.cdf, value)
+                        interval = ContinuousSet(
+                            extrapolate(prior.ppf, quantile - var.blur / 2),
+                            extrapolate(prior.ppf, quantile + var.blur / 2)
                         )
+                        if not interval.contains_value(value):
+                            # there is no density to blur the value with
+                            interval = ContinuousSet(value, value)
+                        query_[var] = var.domain.value2label(interval) if space == 'labels' else interval
                     else:
                         query_[var] = ContinuousSet(val, val)
                 elif isinstance(arg, ContinuousSet):
-- 
2.43.0


From 92f92b97bbc888b359f191eb22345c369a5e7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:42 +0000
Subject: [PATCH 36/59] fix: malformed and missing training data are refused,
 settings of inferred integer variables

Columns of different lengths were broadcast, missing values replaced by
the mean, superfluous columns ignored. infer_from_dataframe ignored the
minimal improvement for integer columns and kept negative infinity.
---
 src/jpt/trees.py     | 20 +++++++++++++++++---
 src/jpt/variables.py |  8 ++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 73d73a8..10aab90 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1717,7 +1717,9 @@ class JPT:
             rows = data
 
         if isinstance(rows, list) and rows:  # Transpose the rows
-            columns = [[row[i] for row in rows] for i in range(len(self.variables))]
+            if any(len(row) != len(rows[0]) for row in rows):
+                raise ValueError('All rows must have the same number of columns.')
+            columns = [[row[i] for row in rows] for i in range(len(rows[0]))]
         elif isinstance(rows, np.ndarray) and rows.shape[0]:
             columns = rows.T
 
@@ -1731,6 +1733,13 @@ class JPT:
         else:
             raise ValueError('No data given.')
 
+        if shape[1] != len(self.variables) and not isinstance(data, pd.DataFrame):
+            raise ValueError(
+                'Expected one column for each of the %d variables, got %d.' % (len(self.variables), shape[1])
+            )
+        if isinstance(columns, list) and any(len(col) != shape[0] for col in columns):
+            raise ValueError('All columns must have the same number of rows.')
+
         data_ = np.ndarray(shape=shape, dtype=np.float64, order='C')
         if isinstance(data, pd.DataFrame):
             if set(self.varnames).symmetric_difference(set(data.columns)):
@@ -1749,7 +1758,7 @@ class JPT:
                 for col in data.columns:
                     data.loc[:, col] = data[col].map(
                         transformations[col],
-                        na_action='ignore'
+                        na_action='ignore' if self.varnames[col].numeric else None
                     )
                 data_[:] = data.values
             except ValueError as e:
@@ -1758,7 +1767,10 @@ class JPT:
                 )
         else:
             for i, (var, col) in enumerate(zip(self.variables, columns)):
-                data_[:, i] = [var.domain.values[v] for v in col]
+                # Missing numeric values are no values of the domain
+                data_[:, i] = [
+                    np.nan if var.numeric and (v is None or v != v) else var.domain.values[v] for v in col
+                ]
         return data_
 
     def learn(
@@ -1785,6 +1797,8 @@ class JPT:
         # --------------------------------------------------------------------------------------------------------------
         # Check and prepare the data
         _data = self._preprocess_data(data=data, rows=rows, columns=columns)
+        if not np.isfinite(_data).all():
+            raise ValueError('The training data contain missing or infinite values.')
 
         for idx, variable in enumerate(self.variables):
             if variable.numeric:
diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index fbf61c1..e484135 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -524,7 +524,7 @@ def infer_from_dataframe(df,
             elif scale_numeric_types:
                 values = df[col]
                 if remove_nan:
-                    values = values[~values.isin([np.nan, np.inf])]
+                    values = values[np.isfinite(values)]
                 dom = NumericType(
                     '%s%s_TYPE_N' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
                     values.unique()
@@ -546,7 +546,11 @@ def infer_from_dataframe(df,
                     lmin=df[col].min(),
                     lmax=df[col].max()
                 )
-            var = IntegerVariable(col, dom)
+            var = IntegerVariable(
+                col,
+                dom,
+                min_impurity_improvement=min_impurity_improvement
+            )
         else:
             raise TypeError('Unknown column type:', col, '[%s]' % dtype)
         variables.append(var)
-- 
2.43.0


From 76685bd31d85a974357ad54f525e98a776866ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:01 +0000
Subject: [PATCH 37/59] fix: blurred values at point masses tolerate rounding
 errors

---
 src/jpt/trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 10aab90..5339b09 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1447,10 +1447,10 @@ class JPT:
                             return f.functions[max(1, min(len(f) - 2, f.idx_at(x)))].eval(x)
 
                         quantile = extrapolate(prior.cdf, value)
-                        interval = ContinuousSet(
-                            extrapolate(prior.ppf, quantile - var.blur / 2),
-                            extrapolate(prior.ppf, quantile + var.blur / 2)
-                        )
+                        lower = extrapolate(prior.ppf, quantile - var.blur / 2)
+                        upper = extrapolate(prior.ppf, quantile + var.blur / 2)
+                        # the bounds may coincide up to rounding errors
+                        interval = ContinuousSet(lower, max(lower, upper))
                         if not interval.contains_value(value):
                             # there is no density to blur the value with
                             interval = ContinuousSet(value, value)
-- 
2.43.0


From 7a63c0c8d6788554aaa1b489cac3411489839900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:34 +0000
Subject: [PATCH 38/59] fix: simplifying or parsing an empty set returned the
 shared constant

---
 src/jpt/base/intervals.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index e09142c..571b66c 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -496,7 +496,7 @@ cdef class RealSet(NumberSet):
                 else:
                     tail.extend(diff.intervals)
         if not intervals:
-            return EMPTY
+            return EMPTY.copy()
         head, tail = first(chop(sorted(intervals, key=attrgetter('lower', 'upper', 'left'))))
         intervals = [head.copy()]
         for subset in tail:
@@ -634,7 +634,7 @@ cdef class ContinuousSet(NumberSet):
         :return: The corresponding ContinuousSet
         """
         if s == _EMPTYSET:
-            return EMPTY
+            return EMPTY.copy()
         interval = ContinuousSet(np.nan, np.nan)
         tokens = re_int.match(s.replace(" ", "").replace('∞', 'inf'))
 
-- 
2.43.0


From ab0666a40063d0263c4ff37f84df369b83ecfb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:16 +0000
Subject: [PATCH 39/59] fix: impossible evidence about integers ended in a
 KeyError, and was reported with wrong values

---
 src/jpt/trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 5339b09..3fdd83d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1108,7 +1108,7 @@ class JPT:
         if p_e == 0:
             if fail_on_unsatisfiability:
                 raise ValueError(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
             else:
                 return None
@@ -1204,7 +1204,7 @@ class JPT:
         except ValueError:
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Evidence %s is unsatisfiable.' % format_path(evidence),
+                    'Evidence %s is unsatisfiable.' % format_path(evidence_),
                     reasons=inconsistencies
                 )
             return None
@@ -1260,7 +1260,7 @@ class JPT:
 
         if posteriors is None:
             if fail_on_unsatisfiability:
-                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence))
+                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_))
             else:
                 return None
 
@@ -2282,7 +2282,7 @@ class JPT:
             # raise an error if wanted
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
 
             # return None if error is not wanted
-- 
2.43.0


From c6584899a3b6991fcc10e00ec8c8f1403902d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:06 +0000
Subject: [PATCH 40/59] fix: restrictions of scaled and integer variables were
 described by internal values

---
 src/jpt/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index e484135..2bbee70 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -310,7 +310,7 @@ class NumericVariable(Variable):
         if isinstance(assignment, numbers.Number):
             return prec % (self.name, self.domain.labels[assignment])
         if fmt == 'set':
-            return f'{self.name} {SYMBOL.IN} {str(assignment)}'
+            return f'{self.name} {SYMBOL.IN} {str(self.domain.value2label(assignment))}'
         elif fmt == 'logic':
             s = []
             for i in assignment.intervals:
@@ -364,7 +364,7 @@ class IntegerVariable(Variable):
             if len(assignment) == 1:
                 return self.str(first(assignment), fmt=fmt)
             elif fmt == 'set':
-                valstr = setstr_int(assignment)
+                valstr = setstr_int({self.domain.labels[a] for a in assignment})
                 return f'{self.name} {SYMBOL.IN} {{{valstr}}}'
             elif fmt == 'logic':
                 return ' v '.join([self.str(a, fmt=fmt) for a in assignment])
-- 
2.43.0


From aea28499a9699deabea7d7b76305228cedddf5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 41/59] fix: estimating a Gaussian anew mixed in the weights of
 the previous data

---
 src/jpt/distributions/univariate/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/distributions/univariate/gaussian.py b/src/jpt/distributions/univariate/gaussian.py
index 540728d..c776f0e 100644
--- a/src/jpt/distributions/univariate/gaussian.py
+++ b/src/jpt/distributions/univariate/gaussian.py
@@ -180,6 +180,7 @@ class Gaussian(Gaussian_):
     def estimate(self, data, weights=None):
         '''Estimate the distribution parameters with subject to the given data points.'''
         self.mean = self.cov = None
+        self.samples = self._sum_w = self._sum_w_sq = 0
         return self.update_all(data=data, weights=weights)
 
     def update(self, x, w=1):
-- 
2.43.0


From e8a3c048a3cdd0d64bd3bbb92077da8a979eec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 42/59] fix: copies of a Gaussian shared its parameters and
 forgot the weights of its data

---
 src/jpt/distributions/univariate/gaussian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/gaussian.py b/src/jpt/distributions/univariate/gaussian.py
index c776f0e..890fa80 100644
--- a/src/jpt/distributions/univariate/gaussian.py
+++ b/src/jpt/distributions/univariate/gaussian.py
@@ -134,8 +134,10 @@ class Gaussian(Gaussian_):
 
     def copy(self):
         g = Gaussian()
-        g._mean = self._mean
-        g._cov = self._cov
+        g._mean = copy.copy(self._mean)
+        g._cov = copy.copy(self._cov)
+        g._sum_w = self._sum_w
+        g._sum_w_sq = self._sum_w_sq
         g.samples = copy.copy(self.samples)
         # g._weights = list(self.weights)
         return g
-- 
2.43.0


From e72d03d1860614f33b218f77f7f9ee27c810d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 43/59] fix: the cdf of a Gaussian took the variance for the
 standard deviation

---
 src/jpt/distributions/univariate/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/gaussian.py b/src/jpt/distributions/univariate/gaussian.py
index 890fa80..2fbb416 100644
--- a/src/jpt/distributions/univariate/gaussian.py
+++ b/src/jpt/distributions/univariate/gaussian.py
@@ -127,7 +127,7 @@ class Gaussian(Gaussian_):
         return multivariate_normal(self._mean, self._cov, allow_singular=True).pdf
 
     def cdf(self, *x):
-        return np.array(norm.cdf(x, loc=self._mean, scale=self._cov))[0, :]
+        return np.array(norm.cdf(x, loc=self._mean, scale=self.std))
 
     def eval(self, lower, upper):
         return abs(multivariate_normal(self._mean, self._cov).cdf(upper) - multivariate_normal(self._mean, self._cov).cdf(lower))
-- 
2.43.0


From 3078b8928dae16406c4a31d98bf53e4310fcc782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 44/59] fix: retracting all but one data points broke a
 Gaussian, retracting the last one failed

---
 src/jpt/distributions/univariate/gaussian.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/gaussian.py b/src/jpt/distributions/univariate/gaussian.py
index 2fbb416..8db133f 100644
--- a/src/jpt/distributions/univariate/gaussian.py
+++ b/src/jpt/distributions/univariate/gaussian.py
@@ -248,16 +248,18 @@ class Gaussian(Gaussian_):
                 del self._weights[i]
             else:
                 raise ValueError('Only elements from the distribution can be retracted. %s is not an element.' % x)
+        else:
+            self.samples -= 1
         sum_w = self._sum_w  # S_w
-        sum_w_ = self._sum_w - w  # S'_w
+        sum_w_ = self._sum_w - w if self.numsamples else 0  # S'_w
         sum_w_sq = self._sum_w_sq  # S_{w^2}
-        sum_w_sq_ = (sum_w ** 2 * self._sum_w_sq - w ** 2) / sum_w_ ** 2  # S'_{w^2}
+        sum_w_sq_ = (sum_w ** 2 * self._sum_w_sq - w ** 2) / sum_w_ ** 2 if sum_w_ else 0  # S'_{w^2}
         oldmean = list(self._mean)
         oldcov = list([list(row) for row in self._cov])
         if sum_w_:
             for i, (m, x_i) in enumerate(zip(self._mean, x)):
                 self._mean[i] = ((sum_w * m) - w * x_i) / sum_w_
-            if sum_w_sq_ < 1:
+            if self.numsamples > 1:
                 for j in range(self.dim):
                     for k in range(self.dim):
                         self._cov[j][k] = (oldcov[j][k] * sum_w * (1 - sum_w_sq)
@@ -265,7 +267,8 @@ class Gaussian(Gaussian_):
                                            - w * x[j] * x[k]
                                            - sum_w_ * self._mean[j] * self._mean[k]) / (sum_w_ * (1 - sum_w_sq_))
             else:
-                self._cov = [[0] * self.dim for _ in range(self.dim)]
+                self._cov = np.zeros(shape=(self.dim, self.dim))
+                sum_w_sq_ = 1
         else:
             self._mean = None
             self._cov = None
-- 
2.43.0


From c684f1e848803d0d1e0fda83cda191d51e8e7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 45/59] fix: Gaussians could not be constructed from arrays or
 weighted data

---
 src/jpt/distributions/univariate/gaussian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/jpt/distributions/univariate/gaussian.py b/src/jpt/distributions/univariate/gaussian.py
index 8db133f..825c8cd 100644
--- a/src/jpt/distributions/univariate/gaussian.py
+++ b/src/jpt/distributions/univariate/gaussian.py
@@ -42,9 +42,7 @@ class Gaussian(Gaussian_):
         self._cov = np.array(self._cov, dtype=np.float64)
         while self._cov.shape and len(self._cov.shape) < 2:
             self._cov = np.array([self._cov])
-        if None not in (weights, data) and weights.shape[0] != data.shape[0]:
-            raise ValueError('Weight vector must have same length as data vector.')
-        if data:
+        if data is not None and len(data):
             self.estimate(data, weights)
         self.data = []
 
-- 
2.43.0


From 999beebe9ed085dc0fb8dff80dd241f6b9fe55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 46/59] fix: Gaussians of several dimensions could not be
 compared, undefined ones not be printed

---
 src/jpt/distributions/univariate/gaussian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/gaussian.py b/src/jpt/distributions/univariate/gaussian.py
index 825c8cd..e3721d4 100644
--- a/src/jpt/distributions/univariate/gaussian.py
+++ b/src/jpt/distributions/univariate/gaussian.py
@@ -113,7 +113,7 @@ class Gaussian(Gaussian_):
 
     @Gaussian_.dim.getter
     def dim(self):
-        if self._mean is None:
+        if self._mean is None or not self._mean.shape:
             raise ValueError('no dimensionality specified yet.')
         return self._mean.shape[0]
 
@@ -141,7 +141,11 @@ class Gaussian(Gaussian_):
         return g
 
     def __eq__(self, other):
-        return (other.mean == self.mean and other.cov == self.cov) if other is not None else False
+        return (
+            isinstance(other, Gaussian)
+            and np.array_equal(other.mean, self.mean)
+            and np.array_equal(other.cov, self.cov)
+        )
 
     def linreg(self):
         """
-- 
2.43.0


From dce30816788777cd8fb7716c8dcb560a414d7c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:44 +0000
Subject: [PATCH 47/59] fix: rounding made variances negative and covariances
 asymmetric when data points were retracted from a Gaussian

---
 src/jpt/distributions/univariate/gaussian.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/gaussian.py b/src/jpt/distributions/univariate/gaussian.py
index e3721d4..898ad95 100644
--- a/src/jpt/distributions/univariate/gaussian.py
+++ b/src/jpt/distributions/univariate/gaussian.py
@@ -263,11 +263,16 @@ class Gaussian(Gaussian_):
                 self._mean[i] = ((sum_w * m) - w * x_i) / sum_w_
             if self.numsamples > 1:
                 for j in range(self.dim):
-                    for k in range(self.dim):
+                    for k in range(j+1):
                         self._cov[j][k] = (oldcov[j][k] * sum_w * (1 - sum_w_sq)
                                            + sum_w * oldmean[j] * oldmean[k]
                                            - w * x[j] * x[k]
                                            - sum_w_ * self._mean[j] * self._mean[k]) / (sum_w_ * (1 - sum_w_sq_))
+                        self._cov[k][j] = self._cov[j][k]
+                for j in range(self.dim):
+                    if self._cov[j][j] < Gaussian.PRECISION:
+                        self._cov[j, :] = 0
+                        self._cov[:, j] = 0
             else:
                 self._cov = np.zeros(shape=(self.dim, self.dim))
                 sum_w_sq_ = 1
-- 
2.43.0


From 5fb4ea4defc469a7e0e77cd362da3d1a3953f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:07 +0000
Subject: [PATCH 48/59] fix: symbolic and integer distributions without
 parameters could not be printed

---
 src/jpt/distributions/univariate/integer.py     | 2 +-
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index 6d41db8..c786520 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -421,7 +421,7 @@ class Integer(Distribution):
         )
 
     def __str__(self):
-        if self._p is None:
+        if self._params is None:
             return f'<{type(self).__qualname__} p=n/a>'
         return '<%s p=[%s]>' % (
             self.__class__.__qualname__,
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 37320f9..192f53b 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -167,7 +167,7 @@ class Multinomial(Distribution):
         ) and np.array_equal(self.probabilities, other.probabilities)
 
     def __str__(self):
-        if self._p is None:
+        if self._params is None:
             return f'<{self.__class__.__qualname__} p=n/a>'
         return '<%s p=[%s]>' % (
             self.__class__.__qualname__,
-- 
2.43.0


From 9de73c6b16672568aeec03a16830bd1bfd90d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:07 +0000
Subject: [PATCH 49/59] fix: distributions without parameters could not be
 copied

---
 src/jpt/distributions/univariate/integer.py     | 3 ++-
 src/jpt/distributions/univariate/multinomial.py | 3 ++-
 src/jpt/distributions/univariate/numeric.py     | 6 +++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index c786520..70d190c 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -156,7 +156,8 @@ class Integer(Distribution):
 
     def copy(self):
         result = type(self)(**self.settings)
-        result._params = np.array(self._params)
+        if self._params is not None:
+            result._params = np.array(self._params)
         return result
 
     @property
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 192f53b..e656d56 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -206,7 +206,8 @@ class Multinomial(Distribution):
         ))
 
     def copy(self):
-        return type(self)(**self.settings).set(params=self._params)
+        result = type(self)(**self.settings)
+        return result.set(params=self._params) if self._params is not None else result
 
     def _pdf(self, value: int) -> float:
         return self._p(value)
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 4d1a0a1..1a6f110 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -302,9 +302,9 @@ class Numeric(Distribution):
         return result
 
     def copy(self):
-        dist = type(self)(**self.settings).set(
-            params=self._quantile.copy()
-        )
+        dist = type(self)(**self.settings)
+        if self._quantile is not None:
+            dist.set(params=self._quantile.copy())
         dist.values = copy.copy(self.values)
         dist.labels = copy.copy(self.labels)
         return dist
-- 
2.43.0


From 23adfe8c4f0ba59b928d73e75e51b0b3be848677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:07 +0000
Subject: [PATCH 50/59] fix: a wrong label was named when unknown labels of a
 domain were rejected

---
 src/jpt/distributions/univariate/integer.py     | 2 +-
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index 70d190c..cef3e52 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -211,7 +211,7 @@ class Integer(Distribution):
         ):
             raise ValueError(
                 '%s not among the labels of domain %s.' % (
-                    first([l for l in label_ if l not in cls.labels]),
+                    first([l for l in label_ if l not in cls.values]),
                     cls.__qualname__
                 )
             )
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index e656d56..3fe4468 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -90,7 +90,7 @@ class Multinomial(Distribution):
         ):
             raise ValueError(
                 '%s not among the labels of domain %s.' % (
-                    first([l for l in label_ if l not in cls.labels]),
+                    first([l for l in label_ if l not in cls.values]),
                     cls.__qualname__
                 )
             )
-- 
2.43.0


From 0b5cadbfe85362612003b1563652939179ba1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:43 +0000
Subject: [PATCH 51/59] fix: printed constant functions could not be read back

---
 src/jpt/base/functions.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 4f6d560..e5155d6 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -490,6 +490,9 @@ cdef class LinearFunction(Function):
             return Undefined()
         if isinstance(s, numbers.Number):
             return ConstantFunction(s)
+        # the string representation of a constant function
+        if s.endswith('= const.'):
+            return ConstantFunction(float(s[:-len('= const.')]))
         match = s.split('x')
         if not match:
             raise ValueError('Illegal format for linear function: "%s"' % s)
-- 
2.43.0


From d7b5318399a7d34f5b257b0e49f6281e479ef3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:54 +0000
Subject: [PATCH 52/59] fix: pieces sharing a border were ordered by insertion
 when constructing functions from dictionaries

---
 src/jpt/base/functions.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index e5155d6..00ae0f9 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1023,7 +1023,10 @@ cdef class PiecewiseFunction(Function):
             elif isinstance(function, numbers.Number):
                 function = ConstantFunction(function)
             functions.append(function)
-        fcts = sorted([(i, f) for (i, f) in zip(intervals, functions)], key=lambda a: a[0].lower)
+        fcts = sorted(
+            [(i, f) for (i, f) in zip(intervals, functions)],
+            key=lambda a: (a[0].lower, a[0].upper)
+        )
         plf = PiecewiseFunction()
         plf.intervals.extend([i for i, _ in fcts])
         plf.functions.extend([f for _, f in fcts])
-- 
2.43.0


From ccb9c2a2c26e837d35f36aaccdeab142f3e30cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:38 +0000
Subject: [PATCH 53/59] fix: numeric distributions without parameters could not
 be printed

---
 src/jpt/distributions/univariate/numeric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 1a6f110..03e29e9 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -59,6 +59,8 @@ class Numeric(Distribution):
         ))
 
     def __str__(self):
+        if self._quantile is None:
+            return f'<{type(self).__qualname__} p=n/a>'
         return self.cdf.pfmt()
 
     def __getitem__(self, value):
-- 
2.43.0


From 8fc356bd2f297450409624332472458e3fbd9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:29 +0000
Subject: [PATCH 54/59] fix: printed intervals of a single value could not be
 read back

---
 src/jpt/base/intervals.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 571b66c..8a52b23 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -636,10 +636,16 @@ cdef class ContinuousSet(NumberSet):
         if s == _EMPTYSET:
             return EMPTY.copy()
         interval = ContinuousSet(np.nan, np.nan)
-        tokens = re_int.match(s.replace(" ", "").replace('∞', 'inf'))
+        s_ = s.replace(" ", "").replace('∞', 'inf')
+
+        # the string representation of a single value
+        if s_.startswith('{') and s_.endswith('}'):
+            s_ = '[%s,%s]' % (s_[1:-1], s_[1:-1])
+
+        tokens = re_int.match(s_)
 
         if tokens is None:
-            raise ValueError('Malformed input string: "{}"'.format(interval))
+            raise ValueError('Malformed input string: "{}"'.format(s))
 
         if tokens.group('ldelim') in ['(', ']']:
             interval.left = _EXC
-- 
2.43.0


From 4cc4e6e1e61f16dfb2eb4ef57d5b40ac4acdb422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:33 +0000
Subject: [PATCH 55/59] fix: strings of intervals with reversed bounds were
 accepted

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 8a52b23..3d7093e 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -677,7 +677,7 @@ cdef class ContinuousSet(NumberSet):
                                                                                     tokens.group('rval'),
                                                                                     interval))
 
-        return interval
+        return ContinuousSet(interval.lower, interval.upper, interval.left, interval.right)
 
     parse = ContinuousSet.fromstring
 
-- 
2.43.0


From 18fe367163ae1c98417b8148f6f6973c859ca22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:36 +0000
Subject: [PATCH 56/59] fix: learning from no data was refused only after the
 minimal distances had been overwritten

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 3fdd83d..8b539bc 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1800,15 +1800,15 @@ class JPT:
         if not np.isfinite(_data).all():
             raise ValueError('The training data contain missing or infinite values.')
 
+        if not _data.shape[0]:
+            raise ValueError('No data for learning.')
+
         for idx, variable in enumerate(self.variables):
             if variable.numeric:
                 samples = np.unique(_data[:, idx])
                 distances = np.diff(samples)
                 self.minimal_distances[variable] = min(distances) if len(distances) > 0 else 2.
 
-        if not _data.shape[0]:
-            raise ValueError('No data for learning.')
-
         self.indices = np.ones(shape=(_data.shape[0],), dtype=np.int64)
         self.indices[0] = 0
         np.cumsum(self.indices, out=self.indices)
-- 
2.43.0


From c2d4d40a3c1c961d2e66cfeaaf219c0109dfc376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:02 +0000
Subject: [PATCH 57/59] fix: printed hinge and jump functions pointed to the
 wrong side of their knot

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 00ae0f9..80c3bd2 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -235,7 +235,7 @@ cdef class Hinge(KnotFunction):
 
     def __str__(self):
         return '%.3f * max(0, %s)' % (self.weight,
-                                      ('x - %s' % self.knot) if self.alpha == 1 else ('%s - x' % self.knot))
+                                      ('%s - x' % self.knot) if self.alpha == 1 else ('x - %s' % self.knot))
 
     def __repr__(self):
         return '<Hinge 0x%X: k=%.3f a=%d w=%.3f>' % (id(self), self.knot, self.alpha, self.weight)
@@ -268,7 +268,7 @@ cdef class Jump(KnotFunction):
 
     def __str__(self):
         return '%.3f * max(0, sgn(%s))' % (self.weight,
-                                           ('x - %s' % self.knot) if self.alpha == 1 else ('%s - x' % self.knot))
+                                           ('%s - x' % self.knot) if self.alpha == 1 else ('x - %s' % self.knot))
 
     def __repr__(self):
         return '<Jump 0x%X: k=%.3f a=%d w=%.3f>' % (id(self), self.knot, self.alpha, self.weight)
-- 
2.43.0


From 5856a93b445577a0526c0e6f7a534b71a36fd7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:19 +0000
Subject: [PATCH 58/59] fix: scaled numeric distributions fitted to labels took
 them for internal values

---
 src/jpt/distributions/univariate/numeric.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 03e29e9..be6f460 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -264,7 +264,19 @@ class Numeric(Distribution):
         )
         return self
 
-    fit = _fit
+    def fit(
+            self,
+            data: np.ndarray,
+            rows: np.ndarray = None,
+            col: numbers.Integral = None
+    ) -> 'Numeric':
+        col = ifnone(col, 0)
+        return self._fit(
+            np.array(
+                [[self.label2value(float(data[row, col]))] for row in ifnone(rows, range(data.shape[0]))],
+                dtype=np.float64
+            )
+        )
 
     def set(self, params: QuantileDistribution) -> 'Numeric':
         self._quantile = params
-- 
2.43.0


From e55f9efe14793f7d669490eff57e896648fe0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:19 +0000
Subject: [PATCH 59/59] fix: the probability of a Boolean value could not be
 assigned

---
 src/jpt/distributions/univariate/multinomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 3fe4468..490d38c 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -639,8 +639,8 @@ class Bool(Multinomial):
 
     def __setitem__(self, v, p):
         if not isinstance(p, Iterable):
-            p = np.array([p, 1 - p])
-        super().__setitem__(v, p)
+            p = p if self.values[v] else 1 - p
+        self.set(p)
 
 
 # ----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0

